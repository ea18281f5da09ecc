package downsampler

// ---- windows: a bucket stands for the window that ends at bend and for the
// lines added to it so far, each with a newline
ghostfield bend: Int of downsampler.bucket
ghostfield bcat: S of downsampler.bucket

// the errors returned by AddLine and the timestamp errors made so far
ghost aerrs: Int
ghost aerrn: Int
ghost tserrs: Int

// the windows emitted so far
ghost emn: Int
ghost emb: [Int]Int
ghost emo: [Int]S

extern downsampler.bucket.EndTime(b) (t)
  ensures t == bend(b)

extern downsampler.bucket.AddLine(b, line) (errs)
  modifies bcat(b), aerrs, aerrn
  ensures aerrn == len(errs)
  ensures bcat(b) == old(bcat(b)) + b(line) + "\n"
  ensures aerrs == old(aerrs) + len(errs)

extern downsampler.bucket.Bytes(b) (r)
  modifies emn, emb, emo
  ensures r == nil || fresh(r)
  ensures emn == old(emn) + 1 && emb == store(old(emb), old(emn), ref(b)) && emo == store(old(emo), old(emn), b(r))

functype downsampler.assigner.newBucket(f, t) (r)
  ensures r != nil && fresh(r) && allocated(r) && bend(r) == t && bcat(r) == ""

extern downsampler.clock.Now(c) (t)
  modifies clk
  ensures t == clk && -4611686018427387904 < t && t < 4611686018427387904

contract downsampler.(*realClock).Now(c) (t)
  modifies clk
  ensures t == clk && -4611686018427387904 < t && t < 4611686018427387904

// ---- multiples of the period (counted from the zero time)
declare onp(t: Int, d: Int): Bool
axiom onp_next(t: Int, d: Int)
  requires onp(t, d)
  ensures onp(t + d, d) && onp(t - d, d)

extern time.Time.Truncate(t, d) (r)
  ensures d > 0 ==> onp(r, d) && r <= t && t < r + d && (onp(t, d) ==> r == t)

contract downsampler.(*assigner).nextT(a, t) (r)
  requires a != nil && a.period > 0
  ensures onp(r, a.period) && r <= t + a.period && t < r
  ensures onp(t, a.period) ==> r == t + a.period
  use onp_next(t, a.period)

contract downsampler.(*assigner).prevT(a, t) (r)
  requires a != nil && a.period > 0
  ensures onp(r, a.period) && r <= t - a.period && t < r + 2*a.period
  ensures onp(t, a.period) ==> r == t - a.period
  use onp_next(t, a.period)

// three windows follow each other, ending at multiples of the period
def windows(a) = a.period > 0 && a.clock != nil && a.newBucket != nil
  && a.buckets[0] != nil && a.buckets[1] != nil && a.buckets[2] != nil
  && allocated(a.buckets[0]) && allocated(a.buckets[1]) && allocated(a.buckets[2])
  && ref(a.buckets[0]) != ref(a.buckets[1]) && ref(a.buckets[0]) != ref(a.buckets[2]) && ref(a.buckets[1]) != ref(a.buckets[2])
  && onp(bend(a.buckets[0]), a.period)
  && bend(a.buckets[1]) == bend(a.buckets[0]) + a.period && bend(a.buckets[2]) == bend(a.buckets[1]) + a.period
  && a.tmin == bend(a.buckets[0]) - a.period

contract downsampler.newAssigner(period, newBucket, clock) (a)
  requires period > 0 && clock != nil && newBucket != nil
  modifies clk
  ensures fresh(a) && a != nil && windows(a) && a.period == period
  ensures bend(a.buckets[1]) - period <= clk && clk < bend(a.buckets[1])
  ensures bcat(a.buckets[0]) == "" && bcat(a.buckets[1]) == "" && bcat(a.buckets[2]) == ""

functype downsampler.newAssigner/newBucket(f, t) (r)
  ensures r != nil && fresh(r) && allocated(r) && bend(r) == t && bcat(r) == ""

// ---- lines, their times and what is left of them without the timestamp
ghost xtn: Int
ghost xtl: [Int]S
ghost xtt: [Int]Int
ghost xtr: [Int]S

extern time.Unix(s, n) (t)
  ensures t == s * 1000000000 + n

// what the time of a line is: its timestamp if there is one (see ExtractTimestamp), the present otherwise
contract downsampler.(*assigner).extractTimestamp(a, line) (t, rest)
  requires a != nil && a.clock != nil
  modifies clk, xat, xtn, xtl, xtt, xtr
  set xtn = old(xtn) + 1
  set xtl = store(old(xtl), old(xtn), b(line))
  set xtt = store(old(xtt), old(xtn), t)
  set xtr = store(old(xtr), old(xtn), b(rest))
  ensures xtn == old(xtn) + 1 && xtl == store(old(xtl), old(xtn), b(line)) && xtt == store(old(xtt), old(xtn), t) && xtr == store(old(xtr), old(xtn), b(rest))
  ensures xat == -1 ==> t == clk && rest == line
  ensures xat != -1 ==> tsfound(b(line), tsline(b(line)), t, xat) && b(rest) == b(line)[..xat-1]
  ensures xat == -1 && len(line) >= 6 ==> forall p :: tsfrom(tsline(b(line))) <= p && p < len(tsline(b(line))) && line[p] == ' '
     && (forall q :: p < q && q < len(tsline(b(line))) ==> line[q] != ' ') ==> !isint(tsline(b(line))[p+1..])

contract downsampler.newTimestampError(t, reason) (e)
  modifies tserrs
  set tserrs = old(tserrs) + 1
  ensures tserrs == old(tserrs) + 1
  ensures e != nil && fresh(e)

contract downsampler.newLineError(reason, line) (e)
  ensures e != nil && fresh(e) && e.reason == reason

contract downsampler.isTimestampError(err) (r)
  requires istype(err, *downsampler.lineError) ==> as(err, *downsampler.lineError) != nil
  ensures r <==> istype(err, *downsampler.timestampError) || istype(err, *downsampler.lineError) && istype(as(err, *downsampler.lineError).reason, *downsampler.timestampError)

def inw(a, i, t) = bend(a.buckets[i]) - a.period <= t && t < bend(a.buckets[i])

contract downsampler.(*assigner).findBucket(a, ts) (r, err)
  requires a != nil && windows(a)
  modifies tserrs
  ensures inw(a, 0, ts) ==> err == nil && r == a.buckets[0] && tserrs == old(tserrs)
  ensures inw(a, 1, ts) ==> err == nil && r == a.buckets[1] && tserrs == old(tserrs)
  ensures inw(a, 2, ts) ==> err == nil && r == a.buckets[2] && tserrs == old(tserrs)
  ensures !inw(a, 0, ts) && !inw(a, 1, ts) && !inw(a, 2, ts) ==> err != nil && istype(err, *downsampler.timestampError) && tserrs == old(tserrs) + 1
  invariant forall k :: 0 <= k && k < #i ==> ts >= bend(a.buckets[k])
  invariant tserrs == old(tserrs) && ts >= a.tmin

// those of the lines that belong to the window [lo, hi), each with a newline
rec inwin(R: [Int]S, T: [Int]Int, from: Int, to: Int, lo: Int, hi: Int): S = if to <= from then "" else inwin(R, T, from, to-1, lo, hi) + (if lo <= T[to-1] && T[to-1] < hi then R[to-1] + "\n" else "")
// the number of those that are older or newer
rec outwin(T: [Int]Int, from: Int, to: Int, lo: Int, hi: Int): Int = if to <= from then 0 else outwin(T, from, to-1, lo, hi) + (if lo <= T[to-1] && T[to-1] < hi then 0 else 1)

lemma inwin_next(R: [Int]S, T: [Int]Int, from: Int, to: Int, lo: Int, hi: Int, k: Int, v: S, w: Int)
  requires to <= k
  ensures inwin(store(R, k, v), store(T, k, w), from, to, lo, hi) == inwin(R, T, from, to, lo, hi)
  decreases to - from
  case to <= from
  use inwin_next(R, T, from, to-1, lo, hi, k, v, w)
  trigger inwin(store(R, k, v), store(T, k, w), from, to, lo, hi)
  auto

lemma outwin_next(T: [Int]Int, from: Int, to: Int, lo: Int, hi: Int, k: Int, w: Int)
  requires to <= k
  ensures outwin(store(T, k, w), from, to, lo, hi) == outwin(T, from, to, lo, hi)
  decreases to - from
  case to <= from
  use outwin_next(T, from, to-1, lo, hi, k, w)
  trigger outwin(store(T, k, w), from, to, lo, hi)
  auto

// the first j lines of a message, without the empty ones
rec textof(s: S, j: Int): S = if j <= 0 then "" else (if lnend(s, '\n', lst(s, '\n', j-1)) == lst(s, '\n', j-1) then textof(s, j-1) else textof(s, j-1) + (s[lst(s, '\n', j-1)..lnend(s, '\n', lst(s, '\n', j-1))] + "\n"))
rec lcat(L: [Int]S, from: Int, to: Int): S = if to <= from then "" else lcat(L, from, to-1) + (L[to-1] + "\n")

lemma lcat_next(L: [Int]S, from: Int, to: Int, k: Int, v: S)
  requires to <= k
  ensures lcat(store(L, k, v), from, to) == lcat(L, from, to)
  decreases to - from
  case to <= from
  use lcat_next(L, from, to-1, k, v)
  trigger lcat(store(L, k, v), from, to)
  auto

def gets(a, i) = bcat(a.buckets[i]) == old(bcat(a.buckets[i])) + inwin(xtr, xtt, old(xtn), xtn, bend(a.buckets[i]) - a.period, bend(a.buckets[i]))

// the messages assigned to windows, and the errors reported for them
ghost upn: Int
ghost upd: [Int]S
ghost uperr: Int

contract downsampler.(*assigner).Update(a, lines) (errs)
  requires a != nil && windows(a)
  modifies upn, upd, uperr, clk, xat, xtn, xtl, xtt, xtr, aerrs, aerrn, tserrs, bcat(a.buckets[0]), bcat(a.buckets[1]), bcat(a.buckets[2])
  set upn = old(upn) + 1
  set upd = store(old(upd), old(upn), b(lines))
  set uperr = old(uperr) + len(errs)
  ensures upn == old(upn) + 1 && upd == store(old(upd), old(upn), b(lines)) && uperr == old(uperr) + len(errs)
  ensures windows(a)
  ensures lcat(xtl, old(xtn), xtn) == textof(b(lines), nlines(b(lines), '\n', 0))
  ensures gets(a, 0)
  ensures gets(a, 1)
  ensures gets(a, 2)
  ensures tserrs - old(tserrs) == outwin(xtt, old(xtn), xtn, bend(a.buckets[0]) - a.period, bend(a.buckets[2]))
  ensures len(errs) == tserrs - old(tserrs) + aerrs - old(aerrs)
  ensures forall k :: 0 <= k && k < len(errs) ==> istype(errs[k], *downsampler.lineError) && as(errs[k], *downsampler.lineError) != nil
  ensures xtn >= old(xtn)
  invariant windows(a) && xtn >= old(xtn)
  invariant lcat(xtl, old(xtn), xtn) == textof(b(lines), #i)
  invariant gets(a, 0)
  invariant gets(a, 1)
  invariant gets(a, 2)
  invariant tserrs - old(tserrs) == outwin(xtt, old(xtn), xtn, bend(a.buckets[0]) - a.period, bend(a.buckets[2]))
  invariant len(errs) == tserrs - old(tserrs) + aerrs - old(aerrs)
  invariant len(errs) == tserrs - old(tserrs) + aerrs - old(aerrs) - aerrn + #i
  invariant errs == nil || fresh(errs)
  invariant forall k :: 0 <= k && k < len(errs) ==> istype(errs[k], *downsampler.lineError) && as(errs[k], *downsampler.lineError) != nil

contract downsampler.(*assigner).Bytes(a) (out)
  requires a != nil && windows(a)
  modifies clk, emn, emb, emo, a.buckets, a.tmin
  use onp_next(old(bend(a.buckets[0])), a.period)
  use onp_next(old(bend(a.buckets[1])), a.period)
  use onp_next(old(bend(a.buckets[2])), a.period)
  ensures windows(a)
  // nothing before the current window has ended
  ensures clk < old(bend(a.buckets[1])) ==> out == nil && emn == old(emn) && emb == old(emb) && emo == old(emo) && a.buckets[0] == old(a.buckets[0]) && a.buckets[1] == old(a.buckets[1]) && a.buckets[2] == old(a.buckets[2])
  // then the previous one, and each becomes its predecessor
  ensures clk >= old(bend(a.buckets[1])) ==> emn == old(emn) + 1 && emb == store(old(emb), old(emn), old(ref(a.buckets[0]))) && emo == store(old(emo), old(emn), b(out))
     && a.buckets[0] == old(a.buckets[1]) && a.buckets[1] == old(a.buckets[2]) && fresh(a.buckets[2]) && bcat(a.buckets[2]) == ""

contract downsampler.(*assigner).UntilNext(a) (d)
  requires a != nil && windows(a)
  modifies clk
  ensures d == max(0, bend(a.buckets[1]) - clk)

contract downsampler.newAvgBucket(ts) (r)
  ensures istype(r, *downsampler.avgBucket)
  ensures let v = as(r, *downsampler.avgBucket) in v != nil && fresh(v) && v.ts == ts && v.lines != nil && forall k :S :: !has(v.lines, k)

contract downsampler.(*avgBucket).EndTime(b) (t)
  requires b != nil
  ensures t == b.ts

// ---- the worker
ghost rxn: Int
ghost rxd: [Int]S

recv downsampler.(*Downsampler).worker/inputCh
  modifies rxn, rxd
  ensures rxn == old(rxn) + 1 && rxd == store(old(rxd), old(rxn), b(v))

def dstats(s) = s != nil && statsok(s) && statsinj(s) && has(s.nameIndex, "received") && has(s.nameIndex, "sent") && has(s.nameIndex, "invalid_lines") && has(s.nameIndex, "invalid_timestamps") && has(s.nameIndex, "failed_nats_publish")

// how many of the windows hold something
rec nonempties(D: [Int]S, from: Int, to: Int): Int = if to <= from then 0 else nonempties(D, from, to-1) + (if len(D[to-1]) > 0 then 1 else 0)
lemma nonempties_next(D: [Int]S, from: Int, to: Int, k: Int, v: S)
  requires to <= k
  ensures nonempties(store(D, k, v), from, to) == nonempties(D, from, to)
  decreases to - from
  case to <= from
  use nonempties_next(D, from, to-1, k, v)
  trigger nonempties(store(D, k, v), from, to)
  auto

def errcount(s) = mine(named(s, "invalid_timestamps")) + mine(named(s, "invalid_lines"))

contract downsampler.(*Downsampler).worker(ds, subject, inputCh)
  diverges
  requires ds != nil && ds.c != nil && ds.nc != nil && dstats(ds.stats) && ds.c.DownsamplePeriod.Duration > 0
  requires upn == rxn && upd == rxd
  modifies everything
  // every message received is assigned, and every window emitted is published as it is, in chunks
  ensures upn == rxn && upd == rxd
  ensures catd(pdat, old(npub), npub) == catd(emo, old(emn), emn)
  invariant windows(assigner) && ds.c != nil && ds.nc != nil && dstats(ds.stats)
  invariant upn == rxn && upd == rxd
  invariant npub >= old(npub) && emn >= old(emn) && upn >= old(upn)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == subject + ds.c.DownsampleSuffix && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576
  invariant catd(pdat, old(npub), npub) == catd(emo, old(emn), emn)
  invariant catd(pdat, old(npub), npub) + b(splitter.buf) == catd(emo, old(emn), emn)
  invariant mine(named(ds.stats, "received")) - old(mine(named(ds.stats, "received"))) == upn - old(upn)
  invariant mine(named(ds.stats, "sent")) - old(mine(named(ds.stats, "sent"))) == nonempties(emo, old(emn), emn)
  invariant mine(named(ds.stats, "sent")) - old(mine(named(ds.stats, "sent"))) == nonempties(emo, old(emn), emn) - 1
  invariant mine(named(ds.stats, "failed_nats_publish")) - old(mine(named(ds.stats, "failed_nats_publish"))) == npubfail - old(npubfail)
  invariant errcount(ds.stats) - old(errcount(ds.stats)) == uperr - old(uperr)
  invariant errcount(ds.stats) - old(errcount(ds.stats)) == uperr - old(uperr) - len(errs) + #i

property C15
  functions downsampler.newAssigner downsampler.(*assigner).Update downsampler.(*assigner).Bytes downsampler.(*assigner).UntilNext downsampler.(*assigner).prevT downsampler.(*assigner).nextT
  functions downsampler.(*assigner).findBucket downsampler.(*assigner).extractTimestamp downsampler.(*realClock).Now
  functions downsampler.isTimestampError downsampler.newTimestampError downsampler.newLineError
  functions downsampler.newAvgBucket downsampler.(*avgBucket).EndTime downsampler.(*Downsampler).worker
  bounded downsampler:TestC15 windows and the worker against an independent oracle
