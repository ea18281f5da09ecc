package filter

// ---- what happened to each line given to processLine, in order:
// pidx is the rule's index, -1 for the junkyard, -2 for a malformed line,
// pesc the bytes added to that rule's batch, pat where in memory the line was.
ghost pn: Int
ghost pidx: [Int]Int
ghost pesc: [Int]S
ghost pat: [Int]Int
ghost praw: [Int]S
ghost pwhere: [Int]Int
// the timestamps that were extracted from lines, by where in memory they were,
// and their positions in the lines (-1: none)
ghost tsof: [Int]Int
ghost tsat: [Int]Int
// what was in the rules' batches when they were published
ghost pcont: [Int]S

extern filter.natsConn.Publish(nc, subject, data) (err)
  modifies npub, psub, pdat, npubfail
  ensures npub == old(npub) + 1 && psub == store(old(psub), old(npub), subject) && pdat == store(old(pdat), old(npub), b(data))
  ensures npubfail == old(npubfail) + (if err == nil then 0 else 1)

// the bytes of the first n lines that went to rule i
rec collect(I: [Int]Int, E: [Int]S, i: Int, n: Int): S = if n <= 0 then "" else collect(I, E, i, n-1) + (if I[n-1] == i then E[n-1] else "")
// the number of the first n lines that went to rule i, or to a rule
rec cnteq(I: [Int]Int, i: Int, n: Int): Int = if n <= 0 then 0 else cnteq(I, i, n-1) + (if I[n-1] == i then 1 else 0)
rec cntrule(I: [Int]Int, n: Int): Int = if n <= 0 then 0 else cntrule(I, n-1) + (if I[n-1] >= 0 then 1 else 0)

lemma collect_next(I: [Int]Int, E: [Int]S, i: Int, n: Int, k: Int, v: Int, w: S)
  requires n <= k
  ensures collect(store(I, k, v), store(E, k, w), i, n) == collect(I, E, i, n)
  decreases n
  case n <= 0
  use collect_next(I, E, i, n-1, k, v, w)
  trigger collect(store(I, k, v), store(E, k, w), i, n)
  auto

lemma cnteq_next(I: [Int]Int, i: Int, n: Int, k: Int, v: Int)
  requires n <= k
  ensures cnteq(store(I, k, v), i, n) == cnteq(I, i, n)
  decreases n
  case n <= 0
  use cnteq_next(I, i, n-1, k, v)
  trigger cnteq(store(I, k, v), i, n)
  auto

lemma cntrule_next(I: [Int]Int, n: Int, k: Int, v: Int)
  requires n <= k
  ensures cntrule(store(I, k, v), n) == cntrule(I, n)
  decreases n
  case n <= 0
  use cntrule_next(I, n-1, k, v)
  trigger cntrule(store(I, k, v), n)
  auto

def stnames(s) = statsok(s) && statsinj(s) && has(s.nameIndex, "passed") && has(s.nameIndex, "processed") && has(s.nameIndex, "rejected") && has(s.nameIndex, "invalid_time") && has(s.nameIndex, "failed_nats_publish")
// the counters of the rules are not those of the filter
def workerok(w) = w.rules != nil && w.st != nil && rulesok(w.rules) && stnames(w.st) && w.ruleSt != nil && ref(w.ruleSt.counts) != ref(w.st.counts.counts)
  && len(w.ruleSt.counts) == len(w.rules.rules) && len(w.batches) == len(w.rules.rules)
  && w.junkBatch != nil && lastout(w.junkBatch) == 0
  && (forall i :: 0 <= i && i < len(w.batches) ==> w.batches[i] != nil && w.batches[i] != w.junkBatch && lastout(w.batches[i]) == 0)
  && (forall i :: 0 <= i && i < len(w.batches) ==> forall j :: i < j && j < len(w.batches) ==> w.batches[i] != w.batches[j])

// the line s ends in timestamp ts at position p, or there is no timestamp in it
def hastime(s, p, ts) = tsfrom(tsline(s)) < p && p <= len(tsline(s)) && s[p-1] == ' ' && isint(tsline(s)[p..]) && ts == intval(tsline(s)[p..])
contract filter.(*worker).processLine(w, raw)
  requires workerok(w) && len(raw) <= msglimit()
  modifies content, lastout, mine, w.st.counts.counts[..], w.ruleSt.counts[..], sortp, pn, pidx, pesc, pat, praw, pwhere, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn
  set pn = old(pn) + 1
  set pidx = store(old(pidx), old(pn), if nplok then lkidx else -2)
  set pesc = store(old(pesc), old(pn), if nplok then lkesc else "")
  set pat = store(old(pat), old(pn), off(raw))
  set praw = store(old(praw), old(pn), b(raw))
  set pwhere = store(old(pwhere), off(raw), old(pn))
  ensures pn == old(pn) + 1 && pat == store(old(pat), old(pn), off(raw)) && praw == store(old(praw), old(pn), b(raw)) && pwhere == store(old(pwhere), off(raw), old(pn))
  ensures pidx == store(old(pidx), old(pn), pidx[old(pn)]) && pesc == store(old(pesc), old(pn), pesc[old(pn)])
  ensures workerok(w)
  ensures -2 <= pidx[old(pn)] && pidx[old(pn)] < len(w.rules.rules)
  ensures pidx[old(pn)] == -2 <==> ntags(meastags(b(raw))) < 0
  ensures content(w.junkBatch) == old(content(w.junkBatch)) + (if pidx[old(pn)] == -1 then pesc[old(pn)] else "")
  ensures forall i :: 0 <= i && i < len(w.batches) ==> content(w.batches[i]) == old(content(w.batches[i])) + (if pidx[old(pn)] == i then pesc[old(pn)] else "")
  ensures mine(named(w.st, "passed")) == old(mine(named(w.st, "passed"))) + (if pidx[old(pn)] >= 0 then 1 else 0)
  ensures mine(named(w.st, "rejected")) == old(mine(named(w.st, "rejected"))) + (if pidx[old(pn)] == -1 then 1 else 0)
  ensures mine(named(w.st, "processed")) == old(mine(named(w.st, "processed")))
  ensures mine(named(w.st, "invalid_time")) == old(mine(named(w.st, "invalid_time")))
  ensures mine(named(w.st, "failed_nats_publish")) == old(mine(named(w.st, "failed_nats_publish")))
  ensures forall i :: 0 <= i && i < len(w.batches) ==> mine(counter(w.ruleSt, i)) == old(mine(counter(w.ruleSt, i))) + (if pidx[old(pn)] == i then 1 else 0)
  ensures pidx[old(pn)] >= 0 ==> rulematch(w.rules.rules[pidx[old(pn)]].match, pesc[old(pn)], lkm, lkK, lkV, lkn)
  ensures pidx[old(pn)] >= -1 ==> forall j :: 0 <= j && j < (if pidx[old(pn)] < 0 then len(w.rules.rules) else pidx[old(pn)]) ==> !rulematch(w.rules.rules[j].match, pesc[old(pn)], lkm, lkK, lkV, lkn)
  ensures pidx[old(pn)] >= -1 ==> lkm == measname(b(raw)) && lkn == ntags(meastags(b(raw))) && keysorted(lkK, lkn)
  ensures pidx[old(pn)] >= -1 && keysorted(rawkeys(b(raw)), lkn) ==> pesc[old(pn)] == b(raw) && forall j :: 0 <= j && j < lkn ==> lkK[j] == rawkeys(b(raw))[j] && lkV[j] == rawvals(b(raw))[j]
  ensures pidx[old(pn)] >= -1 && !keysorted(rawkeys(b(raw)), lkn) ==> pesc[old(pn)] == lineof(measname(b(raw)), lkK, lkV, lkn, rawrest(b(raw), lkn))
  ensures pidx[old(pn)] >= -1 && !keysorted(rawkeys(b(raw)), lkn) ==> forall j :: 0 <= j && j < lkn ==> 0 <= sortp[j] && sortp[j] < lkn && lkK[j] == rawkeys(b(raw))[sortp[j]] && lkV[j] == rawvals(b(raw))[sortp[j]]
  ensures pidx[old(pn)] >= -1 && !keysorted(rawkeys(b(raw)), lkn) ==> forall i, j :: 0 <= i && i < j && j < lkn ==> sortp[i] != sortp[j]

contract filter.extractTimestamp(line, dflt) (ts)
  modifies tsof, tsat, enat
  set tsof = store(old(tsof), off(line), ts)
  set tsat = store(old(tsat), off(line), if len(line) <= 24 then -1 else enat)
  ensures tsof == store(old(tsof), off(line), ts) && (len(line) <= 24 ==> tsat == store(old(tsat), off(line), -1)) && (len(line) > 24 ==> tsat == store(old(tsat), off(line), enat))
  ensures len(line) <= 24 ==> ts == dflt
  ensures len(line) > 24 && enat == -1 ==> ts == dflt && notime(b(line))
  ensures len(line) > 24 && enat != -1 ==> hastime(b(line), enat, ts)

contract filter.(*worker).publish(w, subject, data)
  requires w.nc != nil && w.st != nil && stnames(w.st)
  modifies npub, psub, pdat, npubfail, w.st.counts.counts[..], mine(named(w.st, "failed_nats_publish"))
  ensures npub == old(npub) + 1 && psub == store(old(psub), old(npub), subject) && pdat == store(old(pdat), old(npub), b(data))
  ensures mine(named(w.st, "failed_nats_publish")) - old(mine(named(w.st, "failed_nats_publish"))) == npubfail - old(npubfail)

// the number of nonempty ones among the first n
rec nz(C: [Int]S, n: Int): Int = if n <= 0 then 0 else nz(C, n-1) + (if len(C[n-1]) > 0 then 1 else 0)

lemma nz_bound(C: [Int]S, n: Int)
  requires n >= 0
  ensures 0 <= nz(C, n) && nz(C, n) <= n
  decreases n
  case n <= 0
  use nz_bound(C, n-1)
  trigger nz(C, n)
  auto

def conts(w) = arr i :: content(w.batches[i])
def noconts(w) = len(content(w.junkBatch)) == 0 && forall i :: 0 <= i && i < len(w.batches) ==> len(content(w.batches[i])) == 0
// publications n0 and on are these contents for these rules, and last the junk
def published(w, P, D, n0, C, n) = forall i :: 0 <= i && i < n ==> (len(C[i]) > 0 ==> nz(C, i) < nz(C, n) && (let k = n0 + nz(C, i) in P[k] == w.rules.rules[i].subject && D[k] == C[i]))

contract filter.(*worker).sendOff(w)
  requires workerok(w) && w.nc != nil
  modifies npub, psub, pdat, npubfail, pcont, content, lastout, w.st.counts.counts[..], mine(named(w.st, "failed_nats_publish"))
  ensures workerok(w)
  set pcont = old(conts(w))
  ensures noconts(w)
  ensures pcont == old(conts(w))
  ensures published(w, psub, pdat, old(npub), pcont, len(w.batches))
  ensures old(len(content(w.junkBatch))) == 0 ==> npub == old(npub) + nz(pcont, len(w.batches))
  ensures old(len(content(w.junkBatch))) > 0 ==> npub == old(npub) + nz(pcont, len(w.batches)) + 1 && psub[npub-1] == w.junkSubject && pdat[npub-1] == old(content(w.junkBatch))
  ensures forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  ensures mine(named(w.st, "failed_nats_publish")) - old(mine(named(w.st, "failed_nats_publish"))) == npubfail - old(npubfail)
  invariant workerok(w)
  invariant npub == old(npub) + nz(old(conts(w)), #i)
  invariant published(w, psub, pdat, old(npub), old(conts(w)), #i)
  invariant forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  invariant forall i :: 0 <= i && i < #i ==> len(content(w.batches[i])) == 0
  invariant forall i :: #i <= i && i < len(w.batches) ==> content(w.batches[i]) == old(conts(w))[i]
  invariant content(w.junkBatch) == old(content(w.junkBatch))
  invariant mine(named(w.st, "failed_nats_publish")) - old(mine(named(w.st, "failed_nats_publish"))) == npubfail - old(npubfail)

// piece j of the batch s: its length, and whether its timestamp is acceptable
// (T: the timestamps by place, o: where s starts)
def plen(s, j) = lnafter(s, 10, lst(s, 10, j)) - lst(s, 10, j)
def piece(s, j) = s[lst(s, 10, j)..lnafter(s, 10, lst(s, 10, j))]
def okat(T, p, lo, hi) = lo < T[p] && T[p] < hi
// the number of nonempty pieces, and of those with acceptable timestamps, among the first n
rec npc(s: S, n: Int): Int = if n <= 0 then 0 else npc(s, n-1) + (if plen(s, n-1) > 0 then 1 else 0)
rec nok(s: S, o: Int, T: [Int]Int, lo: Int, hi: Int, n: Int): Int = if n <= 0 then 0 else nok(s, o, T, lo, hi, n-1) + (if plen(s, n-1) > 0 && okat(T, o+lst(s, 10, n-1), lo, hi) then 1 else 0)

lemma nok_next(s: S, o: Int, T: [Int]Int, lo: Int, hi: Int, n: Int, p: Int, v: Int)
  requires forall j :: 0 <= j && j < n ==> o + lst(s, 10, j) < p
  ensures nok(s, o, store(T, p, v), lo, hi, n) == nok(s, o, T, lo, hi, n)
  decreases n
  case n <= 0
  use nok_next(s, o, T, lo, hi, n-1, p, v)
  trigger nok(s, o, store(T, p, v), lo, hi, n)
  auto

// tsof and tsat say what timestamp there is in piece j
def tsright(s, o, j) = let p = o + lst(s, 10, j) in (plen(s, j) <= 24 ==> tsof[p] == clk) && (plen(s, j) > 24 ==> if tsat[p] == -1 then tsof[p] == clk && notime(piece(s, j)) else hastime(piece(s, j), tsat[p], tsof[p]))
// piece j was given to processLine
def logged(s, o, j) = let p = o + lst(s, 10, j) in 0 <= pwhere[p] && pwhere[p] < pn && pat[pwhere[p]] == p && praw[pwhere[p]] == piece(s, j)

contract filter.(*worker).processBatch(w, batch)
  requires workerok(w) && w.nc != nil && len(batch) <= msglimit()
  requires pn == 0 && noconts(w) && 0 <= w.maxTimeDelta && w.maxTimeDelta <= 4611686018427387904
  modifies npub, psub, pdat, npubfail, pcont, content, lastout, mine, w.st.counts.counts[..], w.ruleSt.counts[..], sortp, pn, pidx, pesc, pat, praw, pwhere, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn, tsof, tsat, enat, clk
  ensures workerok(w) && noconts(w)
  ensures mine(named(w.st, "processed")) == old(mine(named(w.st, "processed"))) + npc(b(batch), nlines(b(batch), 10, 0))
  ensures mine(named(w.st, "passed")) == old(mine(named(w.st, "passed"))) + cntrule(pidx, pn)
  ensures mine(named(w.st, "rejected")) == old(mine(named(w.st, "rejected"))) + cnteq(pidx, -1, pn)
  ensures mine(named(w.st, "invalid_time")) == old(mine(named(w.st, "invalid_time"))) + npc(b(batch), nlines(b(batch), 10, 0)) - pn
  ensures forall i :: 0 <= i && i < len(w.batches) ==> mine(counter(w.ruleSt, i)) == old(mine(counter(w.ruleSt, i))) + cnteq(pidx, i, pn)
  ensures mine(named(w.st, "failed_nats_publish")) - old(mine(named(w.st, "failed_nats_publish"))) == npubfail - old(npubfail)
  ensures pn == nok(b(batch), off(batch), tsof, clk - w.maxTimeDelta, clk + w.maxTimeDelta, nlines(b(batch), 10, 0))
  ensures forall j :: {lst(b(batch), 10, j)} 0 <= j && j < nlines(b(batch), 10, 0) && plen(b(batch), j) > 0 ==> tsright(b(batch), off(batch), j)
  ensures forall j :: {lst(b(batch), 10, j)} 0 <= j && j < nlines(b(batch), 10, 0) && plen(b(batch), j) > 0 && okat(tsof, off(batch) + lst(b(batch), 10, j), clk - w.maxTimeDelta, clk + w.maxTimeDelta) ==> logged(b(batch), off(batch), j)
  ensures forall i, j :: 0 <= i && i < j && j < pn ==> pat[i] < pat[j]
  ensures forall i :: 0 <= i && i < len(w.batches) ==> pcont[i] == collect(pidx, pesc, i, pn)
  ensures published(w, psub, pdat, old(npub), pcont, len(w.batches))
  ensures len(collect(pidx, pesc, -1, pn)) == 0 ==> npub == old(npub) + nz(pcont, len(w.batches))
  ensures len(collect(pidx, pesc, -1, pn)) > 0 ==> npub == old(npub) + nz(pcont, len(w.batches)) + 1 && psub[npub-1] == w.junkSubject && pdat[npub-1] == collect(pidx, pesc, -1, pn)
  ensures forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  invariant workerok(w)
  invariant 0 <= pn && pn <= #i
  invariant content(w.junkBatch) == collect(pidx, pesc, -1, pn)
  invariant forall i :: 0 <= i && i < len(w.batches) ==> content(w.batches[i]) == collect(pidx, pesc, i, pn)
  invariant forall j :: 0 <= j && j < #i ==> lst(b(batch), 10, j) < lst(b(batch), 10, #i)
  invariant mine(named(w.st, "processed")) == old(mine(named(w.st, "processed"))) + npc(b(batch), #i)
  invariant mine(named(w.st, "passed")) == old(mine(named(w.st, "passed"))) + cntrule(pidx, pn)
  invariant mine(named(w.st, "rejected")) == old(mine(named(w.st, "rejected"))) + cnteq(pidx, -1, pn)
  invariant mine(named(w.st, "invalid_time")) == old(mine(named(w.st, "invalid_time"))) + npc(b(batch), #i) - pn
  invariant forall i :: 0 <= i && i < len(w.batches) ==> mine(counter(w.ruleSt, i)) == old(mine(counter(w.ruleSt, i))) + cnteq(pidx, i, pn)
  invariant pn == nok(b(batch), off(batch), tsof, clk - w.maxTimeDelta, clk + w.maxTimeDelta, #i)
  invariant mine(named(w.st, "failed_nats_publish")) == old(mine(named(w.st, "failed_nats_publish")))
  invariant forall j :: {lst(b(batch), 10, j)} 0 <= j && j < #i && plen(b(batch), j) > 0 ==> tsright(b(batch), off(batch), j)
  invariant forall j :: {lst(b(batch), 10, j)} 0 <= j && j < #i && plen(b(batch), j) > 0 && okat(tsof, off(batch) + lst(b(batch), 10, j), clk - w.maxTimeDelta, clk + w.maxTimeDelta) ==> logged(b(batch), off(batch), j)
  invariant forall i :: 0 <= i && i < pn ==> pat[i] < off(batch) + lst(b(batch), 10, #i)
  invariant forall i, j :: 0 <= i && i < j && j < pn ==> pat[i] < pat[j]

// the history of lines starts again with every batch received
recv filter.(*worker).run/jobs
  modifies pn
  ensures pn == 0 && len(v) <= msglimit()

extern filter.natsConn.Close(nc)
extern sync.(*WaitGroup).Done(wg)

contract filter.(*worker).run(w, jobs, stop, wg)
  requires workerok(w) && w.nc != nil && noconts(w) && 0 <= w.maxTimeDelta && w.maxTimeDelta <= 4611686018427387904 && wg != nil
  diverges
  modifies npub, psub, pdat, npubfail, pcont, content, lastout, mine, w.st.counts.counts[..], w.ruleSt.counts[..], sortp, pn, pidx, pesc, pat, praw, pwhere, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn, tsof, tsat, enat, clk
  invariant workerok(w) && noconts(w)

functype filter.newWorker/natsConnect() (nc, err)
  ensures err == nil ==> nc != nil

contract filter.newWorker(delta, rules, st, ruleSt, debug, natsConnect, junkSubject) (w, err)
  requires natsConnect != nil && rules != nil && rulesok(rules) && st != nil && stnames(st) && ruleSt != nil && ref(ruleSt.counts) != ref(st.counts.counts) && len(ruleSt.counts) == len(rules.rules)
  ensures err == nil ==> workerok(w) && noconts(w) && w.nc != nil && fresh(w)
  ensures err == nil ==> w.maxTimeDelta == delta && w.rules == rules && w.st == st && w.ruleSt == ruleSt && w.junkSubject == junkSubject
  invariant len(batches) == len(rules.rules) && 0 <= i && i <= len(rules.rules)
  decreases len(rules.rules) - i
  invariant fresh(batches)
  invariant forall j :: 0 <= j && j < i ==> batches[j] != nil && fresh(batches[j]) && allocated(batches[j]) && lastout(batches[j]) == 0 && content(batches[j]) == ""
  invariant forall j :: 0 <= j && j < i ==> forall k :: j < k && k < i ==> ref(batches[j]) < ref(batches[k])

contract filter.initStats() (s)
  ensures s != nil && fresh(s)
  ensures has(s.nameIndex, "passed") && has(s.nameIndex, "processed") && has(s.nameIndex, "rejected")
  ensures statsok(s)
  ensures statsinj(s)
  ensures stnames(s)

contract filter.(*RuleSet).Lookup(rs, escaped) (r)
  requires rulesok(rs)
  modifies nplok, lkidx, lkesc, lkm, lkK, lkV, lkn
  ensures -1 <= r && r < len(rs.rules)
  ensures ntags(meastags(b(escaped))) < 0 ==> r == -1
  ensures r >= 0 ==> rulematch(rs.rules[r].match, b(escaped), lkm, lkK, lkV, lkn)
  ensures r < 0 && ntags(meastags(b(escaped))) >= 0 ==> forall i :: 0 <= i && i < len(rs.rules) ==> !rulematch(rs.rules[i].match, b(escaped), lkm, lkK, lkV, lkn)
  ensures ntags(meastags(b(escaped))) >= 0 ==> lkm == measname(b(escaped)) && lkn == ntags(meastags(b(escaped))) && (forall j :: 0 <= j && j < lkn ==> lkK[j] == rawkeys(b(escaped))[j] && lkV[j] == rawvals(b(escaped))[j])

property C10
  functions filter.(*parsedLine).SortTags filter.(*worker).processLine filter.newParsedLine filter.(*RuleSet).LookupParsed
  functions influx.TagSet.Len influx.TagSet.Less influx.TagSet.Swap influx.TagSet.Bytes influx.EscapeMeasurement influx.EscapeTagPart influx.Escape
  bounded filter:TestC10 the sorted line, parsed again, has the same measurement, tags, fields and timestamp (that it consists of exactly these is proved)
  note sort.Sort and sort.IsSorted are assumed to sort, given the order the verified Len, Less and Swap define

property C11
  functions filter.(*worker).processLine filter.(*worker).processBatch filter.(*worker).sendOff filter.(*worker).publish filter.(*worker).run filter.newWorker
  functions filter.(*RuleSet).LookupParsed filter.(*RuleSet).Subjects filter.(*RuleSet).Count filter.newParsedLine filter.(*parsedLine).SortTags
  lemmas collect_next cnteq_next cntrule_next nz_bound nok_next
  bounded filter:TestC11 the whole worker against an independent definition, with publish errors

property C12
  functions filter.CreateBasicRule filter.CreateBasicRule$1 filter.CreateRegexRule filter.CreateRegexRule$1 filter.CreateNegativeRegexRule filter.CreateNegativeRegexRule$1 filter.CreateTagRule filter.CreateTagRule$1
  functions filter.RuleSetFromConfig filter.(*RuleSet).Append filter.(*RuleSet).Lookup filter.(*RuleSet).LookupParsed filter.newParsedLine
  functions filter.hashMeasurement filter.(*parsedLine).Unescaped filter.(*parsedLine).HashedMeasurement influx.NewTag influx.TagSet.SubsetOf influx.ParseTags influx.Unescape
  bounded filter:TestC12 regular expressions themselves (regexp is assumed to match deterministically)

property C13
  functions filter.extractTimestamp filter.(*worker).processBatch influx.ExtractNanos convert.ToInt
  lemmas nok_next
  bounded filter:TestC13 the window with the real clock

property C14
  functions filter.(*worker).processLine filter.(*worker).processBatch filter.(*worker).publish filter.(*worker).sendOff filter.initStats filter.newWorker
  functions stats.(*Stats).Inc stats.(*Stats).lookup stats.(*AnonStats).Inc stats.New stats.NewAnon
  lemmas cnteq_next cntrule_next nok_next
  bounded filter:TestC14 the counters of the whole worker against an independent definition
