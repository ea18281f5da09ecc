package writer

// ---- when a batch is sent
ghost wdec: Bool

contract writer.(*Writer).shouldSend(w, batch) (r)
  requires w.c != nil && batch != nil
  modifies clk, wdec
  set wdec = r
  ensures wdec == r
  ensures r <==> batch.writes >= w.c.BatchMaxCount || len(batch.buf) >= w.c.BatchMaxSize || (if batch.writes <= 0 then 0 else clk - batch.created) >= w.c.BatchMaxAge.Duration

// ---- the lines that were looked up, and whether some rule matches
ghost fln: Int
ghost flin: [Int]S
ghost flok: [Int]Bool

contract writer.(*Writer).filterLine(w, line) (r)
  requires w.rules != nil && rulesok(w.rules)
  modifies fln, flin, flok, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn
  set fln = old(fln) + 1
  set flin = store(old(flin), old(fln), old(b(line)))
  set flok = store(old(flok), old(fln), r)
  ensures fln == old(fln) + 1 && flin == store(old(flin), old(fln), old(b(line))) && flok == store(old(flok), old(fln), r)
  ensures len(line) == 0 || ntags(meastags(b(line))) < 0 ==> !r
  ensures len(line) > 0 && ntags(meastags(b(line))) >= 0 ==> lkm == measname(b(line)) && lkn == ntags(meastags(b(line))) && (forall j :: 0 <= j && j < lkn ==> lkK[j] == rawkeys(b(line))[j] && lkV[j] == rawvals(b(line))[j])
  ensures r ==> exists i :: 0 <= i && i < len(w.rules.rules) && rulematch(w.rules.rules[i].match, b(line), lkm, lkK, lkV, lkn)
  ensures !r && len(line) > 0 && ntags(meastags(b(line))) >= 0 ==> forall i :: 0 <= i && i < len(w.rules.rules) ==> !rulematch(w.rules.rules[i].match, b(line), lkm, lkK, lkV, lkn)

// those that were to be kept
rec kept(L: [Int]S, K: [Int]Bool, from: Int, to: Int): S = if to <= from then "" else kept(L, K, from, to-1) + (if K[to-1] then L[to-1] else "")

lemma kept_next(L: [Int]S, K: [Int]Bool, from: Int, to: Int, k: Int, v: S, w: Bool)
  requires to <= k
  ensures kept(store(L, k, v), store(K, k, w), from, to) == kept(L, K, from, to)
  decreases to - from
  case to <= from
  use kept_next(L, K, from, to-1, k, v, w)
  trigger kept(store(L, k, v), store(K, k, w), from, to)
  auto

lemma lst_end(s: S, c: Int, j: Int)
  requires 0 <= j && 0 <= lst(s, c, j) && lst(s, c, j) <= len(s)
  ensures lst(s, c, j + nlines(s, c, lst(s, c, j))) == len(s) + 1
  decreases len(s) - lst(s, c, j)
  use lst_end(s, c, j+1)
  use idx_bound(s, c, lst(s, c, j))

contract writer.(*Writer).getBatchWriteFunc$1(data)
  requires *w != nil && (*w).rules != nil && rulesok((*w).rules) && *batch != nil && ref(data) != ref((*batch).buf)
  modifies (*batch).buf, spare((*batch).buf), (*batch).writes, (*batch).created, clk, fln, flin, flok, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn
  ensures catd(flin, old(fln), fln) == old(b(data)) && fln >= old(fln)
  ensures b((*batch).buf) == old(b((*batch).buf)) + kept(flin, flok, old(fln), fln)
  ensures ref((*batch).buf) == ref(old((*batch).buf)) && off((*batch).buf) == off(old((*batch).buf)) && cap((*batch).buf) == cap(old((*batch).buf)) || fresh((*batch).buf)
  use lst_end(b(data), 10, 0)
  invariant catd(flin, old(fln), fln) == b(data)[..min(lst(b(data), 10, #i), len(data))] && fln >= old(fln)
  invariant b((*batch).buf) == old(b((*batch).buf)) + kept(flin, flok, old(fln), fln)
  invariant ref((*batch).buf) == ref(old((*batch).buf)) && off((*batch).buf) == off(old((*batch).buf)) && cap((*batch).buf) == cap(old((*batch).buf)) || fresh((*batch).buf)

// ---- the messages received
ghost rxn: Int
ghost rxd: [Int]S

recv writer.(*Writer).worker/jobs
  modifies rxn, rxd
  ensures v != nil && fresh(v) && fresh(v.Data)
  ensures rxn == old(rxn) + 1 && rxd == store(old(rxd), old(rxn), b(v.Data))

// ---- the chunks handed to the retry worker, and where they are in memory
ghost rtn: Int
ghost rtbuf: [Int]S
ghost rtref: [Int]Int

chan writer.(*Writer).worker/retryCh
  requires v != nil
  modifies rtn, rtbuf, rtref
  ensures rtn == old(rtn) + 1 && rtbuf == store(old(rtbuf), old(rtn), b(v)) && rtref == store(old(rtref), old(rtn), ref(v))

// the chunks whose write failed
rec failed(B: [Int]S, K: [Int]Bool, from: Int, to: Int): S = if to <= from then "" else failed(B, K, from, to-1) + (if K[to-1] then "" else B[to-1])
rec nfailed(K: [Int]Bool, from: Int, to: Int): Int = if to <= from then 0 else nfailed(K, from, to-1) + (if K[to-1] then 0 else 1)

lemma failed_next(B: [Int]S, K: [Int]Bool, from: Int, to: Int, k: Int, v: S, w: Bool)
  requires to <= k
  ensures failed(store(B, k, v), store(K, k, w), from, to) == failed(B, K, from, to)
  decreases to - from
  case to <= from
  use failed_next(B, K, from, to-1, k, v, w)
  trigger failed(store(B, k, v), store(K, k, w), from, to)
  auto

lemma nfailed_next(K: [Int]Bool, from: Int, to: Int, k: Int, w: Bool)
  requires to <= k
  ensures nfailed(store(K, k, w), from, to) == nfailed(K, from, to)
  decreases to - from
  case to <= from
  use nfailed_next(K, from, to-1, k, w)
  trigger nfailed(store(K, k, w), from, to)
  auto

def wstats(w) = w.stats != nil && statsok(w.stats) && statsinj(w.stats) && has(w.stats.nameIndex, "received") && has(w.stats.nameIndex, "write_requests") && has(w.stats.nameIndex, "failed_writes")
// the bytes that belong in batches so far
def accepted(w) = if len(w.rules.rules) == 0 then catd(rxd, 0, rxn) else kept(flin, flok, 0, fln)

contract writer.(*Writer).worker(w, jobs)
  diverges
  requires w.c != nil && w.rules != nil && rulesok(w.rules) && wstats(w) && 1 <= w.c.BatchMaxSize && w.c.BatchMaxSize < 281474976710656 && w.c.WriterRetryBatches < 1000000000
  requires cwn == 0 && rtn == 0 && rxn == 0 && fln == 0
  modifies hn, hmeth, hurl, hbody, hauth, huser, hpass, hstatus, cwn, cwbuf, cwok, clk, wdec, fln, flin, flok, nplok, lkidx, lkesc, lkm, lkK, lkV, lkn, rxn, rxd, rtn, rtbuf, rtref, w.stats.counts.counts[..], mine
  ensures catd(flin, 0, fln) == (if len(w.rules.rules) == 0 then "" else catd(rxd, 0, rxn))
  ensures forall k :: 0 <= k && k < cwn ==> 1 <= len(cwbuf[k]) && len(cwbuf[k]) <= w.c.BatchMaxSize
  ensures w.c.WriterRetryBatches > 0 ==> rtn == nfailed(cwok, 0, cwn) && catd(rtbuf, 0, rtn) == failed(cwbuf, cwok, 0, cwn)
  ensures w.c.WriterRetryBatches <= 0 ==> rtn == 0
  invariant catd(cwbuf, 0, cwn) + b(batch.buf) == accepted(w)
  invariant catd(cwbuf, 0, cwn) + b(splitter.buf) == accepted(w)
  invariant catd(flin, 0, fln) == (if len(w.rules.rules) == 0 then "" else catd(rxd, 0, rxn))
  invariant forall k :: 0 <= k && k < cwn ==> 1 <= len(cwbuf[k]) && len(cwbuf[k]) <= w.c.BatchMaxSize
  invariant w.c.WriterRetryBatches > 0 ==> rtn == nfailed(cwok, 0, cwn) && catd(rtbuf, 0, rtn) == failed(cwbuf, cwok, 0, cwn)
  invariant w.c.WriterRetryBatches <= 0 ==> rtn == 0
  invariant cwn >= 0 && rtn >= 0 && rxn >= 0 && fln >= 0
  invariant forall k :: 0 <= k && k < rtn ==> rtref[k] != ref(batch.buf) && allocated(ptr(rtref[k], 0, *byte))
  invariant wdec ==> len(batch.buf) == 0
  invariant fresh(batch) && fresh(batch.buf)
  invariant fresh(splitter) && splitter.chunkSize == w.c.BatchMaxSize
  decreases len(splitter.buf)

// ---- lists (of container/list): how many elements there are, and which
ghostfield ln: Int of list.List
ghostfield lel: [Int]Int of list.List
// where an element is, and in which list (0 when in none)
ghostfield epos: Int
ghostfield elist: Int of list.Element
// where the element that was removed last had been
ghost lrm: Int

open list.Element

def el(l, k) = ptr(lel(l)[k], 0, *list.Element)
def ellist(e) = ptr(elist(e), 0, *list.List)
def listwf(l) = ln(l) >= 0 && forall k :: {lel(l)[k]} 0 <= k && k < ln(l) ==> epos(el(l, k)) == k && elist(el(l, k)) == ref(l) && el(l, k) != nil && allocated(el(l, k))
def isin(e, l) = 0 <= epos(e) && epos(e) < ln(l) && e == el(l, epos(e)) && elist(e) == ref(l)

extern list.(*List).Len(l) (r)
  ensures r == ln(l) && r >= 0

extern list.(*List).Front(l) (e)
  requires listwf(l)
  ensures ln(l) == 0 ==> e == nil
  ensures ln(l) > 0 ==> e == el(l, 0)

extern list.(*List).Back(l) (e)
  requires listwf(l)
  ensures ln(l) == 0 ==> e == nil
  ensures ln(l) > 0 ==> e == el(l, ln(l)-1)

extern list.(*Element).Next(e) (r)
  requires e != nil && elist(e) != 0 && listwf(ellist(e)) && isin(e, ellist(e))
  ensures epos(e) + 1 < ln(ellist(e)) ==> r == el(ellist(e), epos(e) + 1)
  ensures epos(e) + 1 >= ln(ellist(e)) ==> r == nil

extern list.(*List).PushBack(l, v) (e)
  requires listwf(l)
  modifies ln(l), lel(l), epos, elist
  ensures e != nil && fresh(e) && e.Value == v && listwf(l)
  ensures ln(l) == old(ln(l)) + 1 && lel(l) == store(old(lel(l)), old(ln(l)), ref(e)) && e == el(l, ln(l)-1)

extern list.(*List).Remove(l, e) (v)
  requires listwf(l) && e != nil && isin(e, l)
  modifies ln(l), lel(l), epos, elist, lrm
  ensures lrm == old(epos(e)) && ln(l) == old(ln(l)) - 1 && listwf(l)
  ensures forall k :: {lel(l)[k]} 0 <= k && k < ln(l) ==> lel(l)[k] == old(lel(l))[if k < lrm then k else k + 1]
  ensures elist(e) == 0 && v == e.Value

extern list.(*List).MoveToBack(l, e)
  requires listwf(l) && e != nil && isin(e, l)
  modifies lel(l), epos, elist
  ensures listwf(l)
  ensures forall k :: {lel(l)[k]} 0 <= k && k < ln(l) - 1 ==> lel(l)[k] == old(lel(l))[if k < old(epos(e)) then k else k + 1]
  ensures e == el(l, ln(l) - 1)

// ---- the retry queue
def qn(q) = ln(&q.batches)
def qel(q) = lel(&q.batches)
def isb(r) = istype(ptr(r, 0, *list.Element).Value, writer.retryBatch)
def bof(r) = as(ptr(r, 0, *list.Element).Value, writer.retryBatch)
def qok(q) = q != nil && listwf(&q.batches) && forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> isb(qel(q)[k]) && bof(qel(q)[k]).buf != nil && allocated(bof(qel(q)[k]).buf)

// the batches added, seen at the front, dropped from there and moved to the back
ghost qan: Int
ghost qalog: [Int]S
ghost qfn: Int
ghost qflog: [Int]S
ghost qdn: Int
ghost qdlog: [Int]S
ghost qcn: Int
ghost qclog: [Int]S

contract writer.(*retryQueue).Len(q) (r)
  ensures r == qn(q)

contract writer.(*retryQueue).removeOldest(q)
  requires qok(q)
  modifies ln(&q.batches), lel(&q.batches), epos, elist, lrm
  ensures qok(q)
  ensures old(qn(q)) == 0 ==> qn(q) == 0
  ensures old(qn(q)) > 0 ==> qn(q) == old(qn(q)) - 1 && 0 <= lrm && lrm <= qn(q)
  // the one closest to expiry went
  ensures old(qn(q)) > 0 ==> let p = lrm in old(forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> bof(qel(q)[p]).ttl <= bof(qel(q)[k]).ttl)
  // the others stay as they are
  ensures old(qn(q)) > 0 ==> forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> qel(q)[k] == old(qel(q))[if k < lrm then k else k + 1]
  invariant e != nil ==> isin(e, &q.batches)
  invariant e != nil && epos(e) > 0 ==> removeE != nil
  invariant e == nil && qn(q) > 0 ==> removeE != nil
  invariant removeE != nil ==> isin(removeE, &q.batches) && minTTL == bof(ref(removeE)).ttl
  invariant removeE != nil ==> forall k :: {qel(q)[k]} 0 <= k && k < (if e == nil then qn(q) else epos(e)) ==> minTTL <= bof(qel(q)[k]).ttl
  decreases if e == nil then 0 else qn(q) - epos(e)

contract writer.(*retryQueue).Add(q, batch)
  requires qok(q) && batch != nil && q.maxBatches >= 1 && qn(q) <= q.maxBatches
  modifies ln(&q.batches), lel(&q.batches), epos, elist, lrm, clk, qan, qalog
  set qan = old(qan) + 1
  set qalog = store(old(qalog), old(qan), old(b(batch)))
  ensures qan == old(qan) + 1 && qalog == store(old(qalog), old(qan), old(b(batch)))
  ensures qok(q) && qn(q) >= 1 && qn(q) <= q.maxBatches
  // the new one is last
  ensures bof(qel(q)[qn(q)-1]).buf == batch && bof(qel(q)[qn(q)-1]).ttl == clk + q.maxTTL
  ensures old(qn(q)) < q.maxBatches ==> qn(q) == old(qn(q)) + 1 && forall k :: {qel(q)[k]} 0 <= k && k < qn(q) - 1 ==> qel(q)[k] == old(qel(q))[k]
  ensures old(qn(q)) >= q.maxBatches ==> qn(q) == old(qn(q)) && 0 <= lrm && lrm < qn(q)
  ensures old(qn(q)) >= q.maxBatches ==> let p = lrm in old(forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> bof(qel(q)[p]).ttl <= bof(qel(q)[k]).ttl)
  ensures old(qn(q)) >= q.maxBatches ==> forall k :: {qel(q)[k]} 0 <= k && k < qn(q) - 1 ==> qel(q)[k] == old(qel(q))[if k < lrm then k else k + 1]

contract writer.(*retryQueue).Front(q) (r)
  requires qok(q)
  modifies ln(&q.batches), lel(&q.batches), epos, elist, lrm, clk, qfn, qflog
  set qfn = if r == nil then old(qfn) else old(qfn) + 1
  set qflog = if r == nil then old(qflog) else store(old(qflog), old(qfn), b(r))
  ensures r == nil ==> qfn == old(qfn) && qflog == old(qflog)
  ensures r != nil ==> qfn == old(qfn) + 1 && qflog == store(old(qflog), old(qfn), b(r))
  ensures qok(q) && qn(q) <= old(qn(q))
  ensures r == nil ==> qn(q) == 0
  // what is returned is at the front and has not expired
  ensures r != nil ==> qn(q) > 0 && r == bof(qel(q)[0]).buf && clk <= bof(qel(q)[0]).ttl
  // what went had expired, the rest is as it was
  ensures forall k :: {old(qel(q))[k]} 0 <= k && k < old(qn(q)) - qn(q) ==> old(bof(qel(q)[k]).ttl) < clk
  ensures let d = old(qn(q)) - qn(q) in forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> qel(q)[k] == old(qel(q))[k + d]
  invariant forall k :: {old(qel(q))[k]} 0 <= k && k < old(qn(q)) - qn(q) ==> old(bof(qel(q)[k]).ttl) < clk
  invariant let d = old(qn(q)) - qn(q) in forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> qel(q)[k] == old(qel(q))[k + d]
  invariant now == clk && qok(q) && qn(q) <= old(qn(q))
  decreases qn(q)

contract writer.(*retryQueue).DropFront(q)
  requires qok(q)
  modifies ln(&q.batches), lel(&q.batches), epos, elist, lrm, qdn, qdlog
  set qdn = if old(qn(q)) == 0 then old(qdn) else old(qdn) + 1
  set qdlog = if old(qn(q)) == 0 then old(qdlog) else store(old(qdlog), old(qdn), old(b(bof(qel(q)[0]).buf)))
  ensures qok(q)
  ensures old(qn(q)) == 0 ==> qn(q) == 0 && qdn == old(qdn) && qdlog == old(qdlog)
  ensures old(qn(q)) > 0 ==> qn(q) == old(qn(q)) - 1 && qdn == old(qdn) + 1 && qdlog == store(old(qdlog), old(qdn), old(b(bof(qel(q)[0]).buf)))
  ensures old(qn(q)) > 0 ==> forall k :: {qel(q)[k]} 0 <= k && k < qn(q) ==> qel(q)[k] == old(qel(q))[k + 1]

contract writer.(*retryQueue).CycleFront(q)
  requires qok(q)
  modifies lel(&q.batches), epos, elist, qcn, qclog
  set qcn = if old(qn(q)) == 0 then old(qcn) else old(qcn) + 1
  set qclog = if old(qn(q)) == 0 then old(qclog) else store(old(qclog), old(qcn), old(b(bof(qel(q)[0]).buf)))
  ensures qok(q)
  ensures old(qn(q)) == 0 ==> qcn == old(qcn) && qclog == old(qclog)
  ensures old(qn(q)) > 0 ==> qcn == old(qcn) + 1 && qclog == store(old(qclog), old(qcn), old(b(bof(qel(q)[0]).buf)))
  ensures old(qn(q)) > 0 ==> qel(q)[qn(q)-1] == old(qel(q))[0]
  ensures forall k :: {qel(q)[k]} 0 <= k && k < qn(q) - 1 ==> qel(q)[k] == old(qel(q))[k + 1]

// ---- the retry worker
// what was received, what was written for good and what failed for now
ghost rrn: Int
ghost rrlog: [Int]S
ghost rwn: Int
ghost rwlog: [Int]S
ghost rdone: Int
ghost rdonelog: [Int]S
ghost rtmp: Int
ghost rtmplog: [Int]S

recv writer.retryWorker.inputCh
  modifies rrn, rrlog
  ensures v != nil && allocated(v)
  ensures rrn == old(rrn) + 1 && rrlog == store(old(rrlog), old(rrn), b(v))

def permerr(err) = err != nil && istype(err, *writer.clientError) && as(err, *writer.clientError).permanent

extern writer.dbWriter.Write(d, buf) (err)
  modifies hn, hmeth, hurl, hbody, hauth, huser, hpass, hstatus, cwn, cwbuf, cwok, rwn, rwlog, rdone, rdonelog, rtmp, rtmplog
  ensures rwn == old(rwn) + 1 && rwlog == store(old(rwlog), old(rwn), b(buf))
  ensures err != nil && istype(err, *writer.clientError) ==> as(err, *writer.clientError) != nil
  ensures err == nil || permerr(err) ==> rdone == old(rdone) + 1 && rdonelog == store(old(rdonelog), old(rdone), b(buf)) && rtmp == old(rtmp) && rtmplog == old(rtmplog)
  ensures !(err == nil || permerr(err)) ==> rtmp == old(rtmp) + 1 && rtmplog == store(old(rtmplog), old(rtmp), b(buf)) && rdone == old(rdone) && rdonelog == old(rdonelog)

contract writer.(*retryWorker).loop(w)
  diverges
  requires w.queue != nil && qok(w.queue) && w.queue.maxBatches >= 1 && qn(w.queue) <= w.queue.maxBatches && w.dbWriter != nil
  requires rrn == qan && rrlog == qalog && rwn == qfn && rwlog == qflog && rdone == qdn && rdonelog == qdlog && rtmp == qcn && rtmplog == qclog
  modifies everything
  ensures rrn == qan && rrlog == qalog
  ensures rwn == qfn && rwlog == qflog
  ensures rdone == qdn && rdonelog == qdlog
  ensures rtmp == qcn && rtmplog == qclog
  ensures qn(w.queue) <= w.queue.maxBatches
  invariant rrn == qan && rrlog == qalog
  invariant rwn == qfn && rwlog == qflog
  invariant rdone == qdn && rdonelog == qdlog
  invariant rtmp == qcn && rtmplog == qclog
  invariant qok(w.queue) && qn(w.queue) <= w.queue.maxBatches && w.queue.maxBatches >= 1

contract writer.newRetryWorker(inputCh, dbWriter, c) (w)
  requires c != nil && dbWriter != nil && 1 <= c.WriterRetryBatches && c.WriterRetryBatches < 1000000000
  ensures w != nil && fresh(w) && w.queue != nil && w.inputCh == inputCh && w.dbWriter == dbWriter
  ensures w.retryInterval == c.WriterRetryInterval.Duration && w.queue.maxBatches == c.WriterRetryBatches && w.queue.maxTTL == c.WriterRetryTimeout.Duration
  ensures qn(w.queue) == 0

contract writer.(*retryWorker).Writes(w) (r)
  requires w != nil
  ensures r == w.writes

contract writer.(*retryWorker).WriteErrors(w) (r)
  requires w != nil
  ensures r == w.writeErrors

property C05
  functions writer.(*Writer).shouldSend writer.(*Writer).worker
  bounded writer:TestC05 the limits of a running writer

property C18
  functions writer.(*Writer).worker writer.(*Writer).getBatchWriteFunc$1 writer.(*Writer).filterLine writer.(*Writer).shouldSend writer.newInfluxClient writer.(*influxClient).Write writer.newRetryWorker filter.(*RuleSet).Lookup
  functions batchsplitter.New batchsplitter.(*BatchSplitter).Next batchsplitter.(*BatchSplitter).Chunk batch.New batch.(*Batch).Append batch.(*Batch).Bytes batch.(*Batch).Reset batch.(*Batch).Size batch.(*Batch).Writes batch.(*Batch).Age
  lemmas catd_next kept_next lst_end failed_next nfailed_next
  bounded writer:TestC18 whole writers with a stand-in for InfluxDB
  note the worker's contract is about its whole history: it holds whenever the worker waits or returns, with batches of any number sent
  note the configured maximum batch size must be positive (a writer with batch_max_size = 0 never gets past its first batch)

property C19
  functions writer.(*retryQueue).Len writer.(*retryQueue).Add writer.(*retryQueue).Front writer.(*retryQueue).DropFront writer.(*retryQueue).CycleFront writer.(*retryQueue).removeOldest writer.(*retryWorker).loop writer.newRetryWorker writer.(*retryWorker).Writes writer.(*retryWorker).WriteErrors writer.isPermanentError
  bounded writer:TestC19 a running retry worker
  note container/list is assumed to have the contracts given for it

property C20
  functions writer.(*influxClient).Write writer.isHTTPPOSTSuccess writer.isHTTPClientError writer.isPermanentError writer.newClientError writer.newInfluxClient writer.(*clientError).Permanent
  bounded writer:TestC20 every status over the loopback network
  note net/http is assumed to send the request it is given and to report the status it gets
