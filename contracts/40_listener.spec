package listener

guarded listener.Listener.batch by mu

// l is used by several goroutines: only the HTTP listener is
ghostfield shared: Bool

def lstats(l) = l.stats != nil && statsok(l.stats) && statsinj(l.stats) && has(l.stats.nameIndex, "received") && has(l.stats.nameIndex, "sent") && has(l.stats.nameIndex, "read_errors") && has(l.stats.nameIndex, "failed_nats_publish")
def lconf(c) = c != nil && len(c.NATSSubject) > 0 && c.BatchMaxSize <= 1048576
def listok(l) = l.batch != nil && l.nc != nil && lconf(l.c) && lstats(l)
def mayuse(l) = listok(l) && (shared(l) ==> held(&l.mu))

// Other goroutines may have changed the batch since the lock was held last. What was
// in it when the lock was taken and released is recorded.
ghost csn: Int
ghost csfrom: [Int]S
ghost csto: [Int]S
ghost lkbuf: S
ghost lkwr: Int
ghost lkmade: Int

extern sync.(*Mutex).Lock@listener.Listener.mu(l)
  requires !held(&l.mu)
  modifies held(&l.mu), l.batch.buf, row(l.batch.buf), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade
  ensures held(&l.mu) && lkbuf == b(l.batch.buf) && lkwr == l.batch.writes && lkmade == l.batch.created
  ensures ref(l.batch.buf) == ref(old(l.batch.buf)) || fresh(l.batch.buf)

extern sync.(*Mutex).Unlock@listener.Listener.mu(l)
  requires held(&l.mu)
  modifies held(&l.mu), csn, csfrom, csto
  ensures !held(&l.mu)
  ensures csn == old(csn) + 1 && csfrom == store(old(csfrom), old(csn), lkbuf) && csto == store(old(csto), old(csn), b(l.batch.buf))

// the limits that make a listener send its batch
def limit(l, now) = l.batch.writes >= l.c.BatchMaxCount || (if l.batch.writes <= 0 then 0 else now - l.batch.created) >= l.c.BatchMaxAge.Duration || l.c.BatchMaxSize - len(l.batch.buf) <= 65536

// the last decision about sending a batch, and when it was made
ghost sdec: Bool
ghost sclk: Int

contract listener.(*Listener).shouldSend(l) (r)
  requires mayuse(l)
  modifies clk, sdec, sclk
  set sdec = r
  set sclk = clk
  ensures sdec == r && sclk == clk
  ensures r <==> limit(l, clk)

// when the batch was sent last
ghost sbclk: Int

contract listener.(*Listener).sendBatch(l)
  requires mayuse(l)
  modifies npub, psub, pdat, npubfail, sbclk, l.batch.buf, l.batch.writes, l.batch.created, clk, l.stats.counts.counts[..], mine
  set sbclk = old(clk)
  ensures sbclk == old(clk)
  ensures len(l.batch.buf) == 0
  ensures len(old(l.batch.buf)) == 0 ==> npub == old(npub)
  ensures catd(pdat, old(npub), npub) == old(b(l.batch.buf))
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576
  ensures forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  ensures npub >= old(npub)
  ensures old(npub) >= 0 ==> catd(pdat, 0, npub) + b(l.batch.buf) == old(catd(pdat, 0, npub)) + old(b(l.batch.buf))
  ensures ref(l.batch.buf) == ref(old(l.batch.buf)) && off(l.batch.buf) == off(old(l.batch.buf)) && cap(l.batch.buf) == cap(old(l.batch.buf))
  ensures mine(named(l.stats, "failed_nats_publish")) - old(mine(named(l.stats, "failed_nats_publish"))) == npubfail - old(npubfail)
  ensures mine(named(l.stats, "received")) == old(mine(named(l.stats, "received")))
  ensures mine(named(l.stats, "sent")) == old(mine(named(l.stats, "sent"))) + (if len(old(l.batch.buf)) > 0 then 1 else 0)
  invariant splitter.chunkSize == 1048576
  invariant old(npub) >= 0 ==> catd(pdat, 0, npub) + b(splitter.buf) == old(catd(pdat, 0, npub)) + old(b(l.batch.buf))
  invariant catd(pdat, old(npub), npub) + b(splitter.buf) == old(b(l.batch.buf))
  invariant b(l.batch.buf) == old(b(l.batch.buf))
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576
  invariant forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  invariant npub >= old(npub)
  invariant mine(named(l.stats, "failed_nats_publish")) - old(mine(named(l.stats, "failed_nats_publish"))) == npubfail - old(npubfail)
  invariant mine(named(l.stats, "sent")) == old(mine(named(l.stats, "sent"))) + 1
  invariant mine(named(l.stats, "received")) == old(mine(named(l.stats, "received")))
  decreases len(splitter.buf)

contract listener.(*Listener).maybeSendBatch(l)
  requires mayuse(l)
  modifies npub, psub, pdat, npubfail, sbclk, l.batch.buf, l.batch.writes, l.batch.created, clk, sdec, sclk, l.stats.counts.counts[..], mine
  ensures sdec <==> (let t = sclk in old(limit(l, t)))
  ensures sdec ==> len(l.batch.buf) == 0 && catd(pdat, old(npub), npub) == old(b(l.batch.buf))
  ensures !sdec ==> npub == old(npub) && l.batch.buf == old(l.batch.buf) && l.batch.writes == old(l.batch.writes) && l.batch.created == old(l.batch.created)
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576
  ensures forall k :: k < old(npub) ==> psub[k] == old(psub[k]) && pdat[k] == old(pdat[k])
  ensures npub >= old(npub)
  ensures old(npub) >= 0 ==> catd(pdat, 0, npub) + b(l.batch.buf) == old(catd(pdat, 0, npub)) + old(b(l.batch.buf))
  ensures ref(l.batch.buf) == ref(old(l.batch.buf)) && off(l.batch.buf) == off(old(l.batch.buf)) && cap(l.batch.buf) == cap(old(l.batch.buf))
  ensures catd(pdat, old(npub), npub) + b(l.batch.buf) == old(b(l.batch.buf))
  ensures mine(named(l.stats, "received")) == old(mine(named(l.stats, "received")))

// p with a newline at its end, unless it's empty
def withnl(p) = if len(p) > 0 && p[len(p)-1] != 10 then p + unit(10) else p
// what a batch has to contain after these payloads: each followed by a newline
rec payloads(P: [Int]S, n: Int): S = if n <= 0 then "" else payloads(P, n-1) + withnl(P[n-1])
def endsnl(s) = len(s) == 0 || s[len(s)-1] == 10

lemma payloads_next(P: [Int]S, n: Int, k: Int, v: S)
  requires n <= k
  ensures payloads(store(P, k, v), n) == payloads(P, n)
  decreases n
  case n <= 0
  use payloads_next(P, n-1, k, v)
  trigger payloads(store(P, k, v), n)
  auto

open net.UDPConn

contract listener.(*Listener).listenUDP(l, sc)
  requires listok(l) && !shared(l) && sc != nil && l.probes != nil && rdn(iface(sc)) == 0 && npub == 0 && len(l.batch.buf) == 0
  diverges
  modifies npub, psub, pdat, npubfail, sbclk, l.batch.buf, spare(l.batch.buf), l.batch.writes, l.batch.created, clk, sdec, sclk, rdlog(iface(sc)), rdn(iface(sc)), rdpay(iface(sc)), l.stats.counts.counts[..], mine
  ensures catd(pdat, 0, npub) + b(l.batch.buf) == payloads(rdpay(iface(sc)), rdn(iface(sc)))
  invariant catd(pdat, 0, npub) + b(l.batch.buf) == payloads(rdpay(iface(sc)), rdn(iface(sc)))
  invariant ref(l.batch.buf) == ref(old(l.batch.buf)) && off(l.batch.buf) == off(old(l.batch.buf)) && cap(l.batch.buf) == cap(old(l.batch.buf)) || fresh(l.batch.buf)
  invariant endsnl(b(l.batch.buf)) && rdn(iface(sc)) >= 0 && npub >= 0
  invariant forall k :: 0 <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576

// ---- timestamp precision. What was converted, and to what:
ghost apn: Int
ghost apin: [Int]S
ghost apout: [Int]S

extern strconv.AppendInt(dst, i, base) (r)
  modifies spare(dst)
  ensures base == 10 ==> b(r) == old(b(dst)) + itoa(i)
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)

contract listener.applyTimestampPrecision(line, precision) (r)
  modifies xat, apn, apin, apout
  set apn = old(apn) + 1
  set apin = store(old(apin), old(apn), b(line))
  set apout = store(old(apout), old(apn), b(r))
  ensures apn == old(apn) + 1 && apin == store(old(apin), old(apn), b(line)) && apout == store(old(apout), old(apn), b(r))
  // xat is where the timestamp was found, if any
  ensures xat == -1 ==> r == line
  ensures xat == -1 && len(line) >= 6 ==> forall p :: tsfrom(tsline(b(line))) <= p && p < len(tsline(b(line))) && line[p] == ' '
     && (forall q :: p < q && q < len(tsline(b(line))) ==> line[q] != ' ') ==> !isint(tsline(b(line))[p+1..])
  ensures xat != -1 ==> tsfound(b(line), tsline(b(line)), intval(tsline(b(line))[xat..]), xat)
  ensures xat != -1 && !validtime(intval(tsline(b(line))[xat..]) * pmult(b(precision))) ==> r == line
  ensures xat != -1 && validtime(intval(tsline(b(line))[xat..]) * pmult(b(precision))) ==> b(r) == b(line)[..xat] + itoa(intval(tsline(b(line))[xat..]) * pmult(b(precision))) + "\n"
  ensures r == line || fresh(r)

// a line with its newline, or what follows the last one
contract listener.scanLines(data, atEOF) (advance, token, err)
  ensures err == nil
  ensures idx(b(data), 10, 0) >= 0 ==> advance == idx(b(data), 10, 0) + 1 && b(token) == b(data)[..idx(b(data), 10, 0)+1]
  ensures idx(b(data), 10, 0) < 0 && !atEOF ==> advance == 0 && token == nil
  ensures idx(b(data), 10, 0) < 0 && atEOF ==> advance == len(data) && b(token) == b(data) && (len(data) == 0 ==> token == nil)

// ---- bufio.Scanner with such a split function: the tokens found
ghost tkn: Int
ghost tks: [Int]S
ghostfield scref: Int
ghostfield scopen: Bool

extern bufio.NewScanner(r) (s)
  ensures s != nil && fresh(s) && fresh(ptr(scref(s), 0, *byte)) && allocated(ptr(scref(s), 0, *byte))

extern bufio.(*Scanner).Split(s, f)
  requires isfun(f, listener.scanLines)

extern bufio.(*Scanner).Scan(s) (more)
  modifies tkn, tks, scref(s), row(ptr(scref(s), 0, *byte))
  ensures scref(s) == old(scref(s)) || fresh(ptr(scref(s), 0, *byte)) && allocated(ptr(scref(s), 0, *byte))
  ensures !more ==> tkn == old(tkn) && tks == old(tks)
  ensures more ==> tkn == old(tkn) + 1 && tks == store(old(tks), old(tkn), tks[old(tkn)])

extern bufio.(*Scanner).Bytes(s) (t)
  ensures b(t) == tks[tkn-1] && len(t) <= 65536 && ref(t) == scref(s)

// the tokens longer than one byte together
rec longer(T: [Int]S, from: Int, to: Int): S = if to <= from then "" else longer(T, from, to-1) + (if len(T[to-1]) > 1 then T[to-1] else "")

lemma longer_next(T: [Int]S, from: Int, to: Int, k: Int, v: S)
  requires to <= k
  ensures longer(store(T, k, v), from, to) == longer(T, from, to)
  decreases to - from
  case to <= from
  use longer_next(T, from, to-1, k, v)
  trigger longer(store(T, k, v), from, to)
  auto

contract listener.(*Listener).readHTTPBodyNanos(l, r) (n, err)
  lockcheck
  diverges
  requires listok(l) && shared(l) && !held(&l.mu) && r != nil && r.Body != nil
  modifies held(&l.mu), l.batch.buf, heap("uint8"), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade, csn, csfrom, csto, clk, rdlog(r.Body), rdn(r.Body), rdpay(r.Body)
  ensures !held(&l.mu)
  ensures csn == old(csn) + 1 && csto[old(csn)] == withnl(csfrom[old(csn)]) + rdlog(r.Body)[len(old(rdlog(r.Body)))..]
  ensures n == len(rdlog(r.Body)) - old(len(rdlog(r.Body)))

contract listener.(*Listener).readHTTPBodyWithPrecision(l, r, precision) (n, err)
  lockcheck
  diverges
  requires listok(l) && shared(l) && !held(&l.mu) && r != nil && r.Body != nil
  modifies held(&l.mu), l.batch.buf, heap("uint8"), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade, csn, csfrom, csto, clk, tkn, tks, apn, apin, apout, xat
  ensures !held(&l.mu)
  ensures csn - old(csn) == apn - old(apn) && apn >= old(apn)
  ensures catd(apin, old(apn), apn) == longer(tks, old(tkn), tkn)
  ensures forall j :: 0 <= j && j < apn - old(apn) ==> csto[old(csn)+j] == withnl(csfrom[old(csn)+j]) + apout[old(apn)+j]
  invariant !held(&l.mu) && shared(l) && listok(l)
  invariant ref(l.batch.buf) != scref(scanner) && allocated(ptr(scref(scanner), 0, *byte)) && allocated(l.batch.buf)
  invariant csn - old(csn) == apn - old(apn) && apn >= old(apn)
  invariant catd(apin, old(apn), apn) == longer(tks, old(tkn), tkn) && tkn >= old(tkn)
  invariant forall j :: 0 <= j && j < apn - old(apn) ==> csto[old(csn)+j] == withnl(csfrom[old(csn)+j]) + apout[old(apn)+j]

open http.Request

contract listener.(*Listener).readHTTPBody(l, r) (n, err)
  lockcheck
  diverges
  requires listok(l) && shared(l) && !held(&l.mu) && r != nil && r.Body != nil && r.URL != nil
  modifies held(&l.mu), l.batch.buf, heap("uint8"), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade, csn, csfrom, csto, clk, tkn, tks, apn, apin, apout, xat, rdlog(r.Body), rdn(r.Body), rdpay(r.Body)
  ensures !held(&l.mu)
  ensures csn >= old(csn)

contract listener.(*Listener).handleHTTPWrite(l, w, r)
  lockcheck
  diverges
  requires listok(l) && shared(l) && !held(&l.mu) && r != nil && r.Body != nil && r.URL != nil && w != nil
  modifies held(&l.mu), l.batch.buf, heap("uint8"), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade, csn, csfrom, csto, clk, tkn, tks, apn, apin, apout, xat, rdlog(r.Body), rdn(r.Body), rdpay(r.Body), wst(w)
  modifies npub, psub, pdat, npubfail, sbclk, sdec, sclk, l.stats.counts.counts[..], mine
  ensures !held(&l.mu)
  // what is sent is everything that was in the batch
  ensures npub == old(npub) || catd(pdat, old(npub), npub) == csfrom[csn-1] && len(csto[csn-1]) == 0
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576

// the age at time t of the batch found when the lock was taken last
def lkage(t) = if lkwr > 0 then t - lkmade else 0

contract listener.(*Listener).oldBatchSender(l)
  lockcheck
  diverges
  requires listok(l) && shared(l) && !held(&l.mu)
  modifies held(&l.mu), l.batch.buf, heap("uint8"), l.batch.writes, l.batch.created, lkbuf, lkwr, lkmade, csn, csfrom, csto, clk, npub, psub, pdat, npubfail, sbclk, l.stats.counts.counts[..], mine
  ensures !held(&l.mu)
  invariant listok(l) && shared(l) && !held(&l.mu)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubject[0] && 1 <= len(pdat[k]) && len(pdat[k]) <= 1048576
  each npub > old(npub) ==> lkage(sbclk) >= l.c.BatchMaxAge.Duration
  each npub == old(npub) ==> lkbuf == "" || lkage(clk) < l.c.BatchMaxAge.Duration

extern nats.Connect(url, options) (nc, err)
  ensures err == nil ==> nc != nil

contract listener.newListener(c) (l, err)
  requires lconf(c)
  modifies clk
  ensures err == nil ==> fresh(l) && listok(l) && l.c == c && len(l.batch.buf) == 0 && l.batch.writes == 0

contract listener.roundUpToPageSize(n) (r)
  requires n <= 1073741824
  ensures r >= 1 && r >= n

extern os.Getpagesize() (n)
  ensures 1 <= n && n <= 1073741824

property C01
  functions listener.(*Listener).sendBatch listener.(*Listener).maybeSendBatch listener.(*Listener).listenUDP listener.(*Listener).oldBatchSender listener.(*Listener).handleHTTPWrite listener.newListener
  functions batchsplitter.New batchsplitter.(*BatchSplitter).Next batchsplitter.(*BatchSplitter).Chunk batch.(*Batch).Reset batch.(*Batch).Bytes batch.(*Batch).Size batch.(*Batch).EnsureNewline batch.(*Batch).ReadOnceFrom
  lemmas catd_next payloads_next
  bounded listener:TestC01 sending with a real connection, failing publishes included
  note publications are those of the goroutine under proof; what nats.Conn.Publish does with the bytes is assumed (it copies them before it returns)

property C03
  functions listener.(*Listener).listenUDP listener.(*Listener).readHTTPBody listener.(*Listener).readHTTPBodyNanos listener.(*Listener).readHTTPBodyWithPrecision listener.(*Listener).handleHTTPWrite listener.scanLines listener.(*Listener).maybeSendBatch
  functions batch.(*Batch).EnsureNewline batch.(*Batch).Append batch.(*Batch).appendImpl batch.(*Batch).ReadFrom batch.(*Batch).ReadOnceFrom batch.(*Batch).grow batch.(*Batch).growIfLow
  lemmas catd_next payloads_next longer_next
  bounded listener:TestC03 whole requests and datagrams over the loopback network
  note bufio.Scanner is assumed to yield the tokens its split function defines; lines over 64 KiB end the reading of a request with precision

property C05
  functions listener.(*Listener).shouldSend listener.(*Listener).maybeSendBatch listener.(*Listener).handleHTTPWrite listener.(*Listener).listenUDP listener.(*Listener).oldBatchSender
  functions batch.New batch.(*Batch).Age batch.(*Batch).Writes batch.(*Batch).Size batch.(*Batch).countWrite batch.(*Batch).Append batch.(*Batch).ReadFrom batch.(*Batch).ReadOnceFrom batch.(*Batch).Reset
  bounded listener:TestC05 the limits of a running listener

property C06
  functions listener.applyTimestampPrecision listener.(*Listener).readHTTPBodyWithPrecision listener.scanLines influx.ExtractTimestamp influx.SafeCalcTime convert.ToInt
  globals influx
  lemmas longer_next
  bounded listener:TestC06 whole requests against an independent definition

property C27
  functions listener.(*Listener).readHTTPBody listener.(*Listener).readHTTPBodyNanos listener.(*Listener).readHTTPBodyWithPrecision listener.(*Listener).handleHTTPWrite listener.(*Listener).oldBatchSender
  functions monitor.(*Monitor).receiveMetrics monitor.(*Monitor).serveHTTP$1
  bounded listener:TestC27Race concurrent requests under the race detector
  bounded monitor:TestC27Race concurrent messages and scrapes under the race detector
