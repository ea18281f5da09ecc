package stats

contract stats.SetHostname(h)
  modifies hostname
  ensures stats.hostname == h

// ---- what the components report: messages NATS dropped, and all counters at intervals

// what the subscription reported last
ghost ndrop: Int
ghost ndropok: Bool

extern nats.(*Subscription).Dropped(s) (n, err)
  modifies ndrop, ndropok
  ensures n >= 0 && ndrop == n && (ndropok <==> err == nil)

contract filter.(*Filter).updateNATSDropped(f, st)
  requires f.sub != nil && st != nil && statsok(st) && statsinj(st) && has(st.nameIndex, "nats_dropped")
  modifies ndrop, ndropok, st.counts.counts[st.nameIndex["nats_dropped"]], lastset(named(st, "nats_dropped"))
  ensures ndropok ==> st.counts.counts[st.nameIndex["nats_dropped"]] >= ndrop
  ensures lastset(named(st, "nats_dropped")) == old(lastset(named(st, "nats_dropped"))) || ndropok && lastset(named(st, "nats_dropped")) == ndrop

contract downsampler.(*Downsampler).updateNATSDropped(ds) (r)
  requires ds.statsNATSDropped != nil && len(ds.subscriptions) <= len(ds.statsNATSDropped.counts)
  requires forall j :: 0 <= j && j < len(ds.subscriptions) ==> ds.subscriptions[j] != nil
  diverges
  modifies ndrop, ndropok, ds.statsNATSDropped.counts[..], lastset
  ensures len(r) == len(ds.statsNATSDropped.counts) && (len(r) > 0 ==> fresh(r))
  ensures forall j :: 0 <= j && j < len(r) ==> old(ds.statsNATSDropped.counts[j]) <= r[j] && r[j] <= ds.statsNATSDropped.counts[j]
  invariant forall j :: 0 <= j && j < len(ds.statsNATSDropped.counts) ==> ds.statsNATSDropped.counts[j] >= old(ds.statsNATSDropped.counts[j])

contract listener.(*Listener).startStatistician(l)
  // one message with all counters
  each npub == old(npub) + 1 && snn == old(snn) + 1 && pdat[old(npub)] == sntext[old(snn)]
  diverges
  requires l.nc != nil && l.c != nil && l.stats != nil && statsok(l.stats)
  modifies snn, sntext, ctn, ctname, ctlab, ctval, cttext, clk, npub, psub, pdat, npubfail, l.stats.counts.counts[..], sortp, srt, heap("prometheus.Label")
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubjectMonitor
  invariant npub >= old(npub) && statsok(l.stats)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == l.c.NATSSubjectMonitor

// the count for each of the first n rules has been published from message p on,
// as recorded from c on
def rulelines(rules, n, p, c) = (forall k :: {pdat[k]} p <= k && k < p+n ==> pdat[k] == cttext[c+(k-p)])
   && forall k :: {ctname[k]} {ctlab[k]} c <= k && k < c+n ==> ctname[k] == "triggered" && ctlab[k] == rules.rules[k-c].subject

contract filter.(*Filter).startStatistician(f, st, ruleSt, rules)
  diverges
  requires f.wg != nil && f.nc != nil && f.c != nil && f.sub != nil && st != nil && statsok(st) && statsinj(st) && has(st.nameIndex, "nats_dropped")
  requires ruleSt != nil && rules != nil && len(ruleSt.counts) == len(rules.rules) && ref(ruleSt.counts) != ref(st.counts.counts)
  modifies snn, sntext, ctn, ctname, ctlab, ctval, cttext, clk, npub, psub, pdat, npubfail, st.counts.counts[..], ruleSt.counts[..], lastset, ndrop, ndropok, sortp, srt, heap("prometheus.Label")
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == f.c.NATSSubjectMonitor
  invariant npub >= old(npub) && statsok(st)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == f.c.NATSSubjectMonitor
  // one message with all counters, then one with the count of each rule
  each snn == old(snn) || npub == old(npub) + 1 + len(rules.rules) && ctn == old(ctn) + len(rules.rules)
  each snn == old(snn) || pdat[old(npub)] == sntext[old(snn)] && rulelines(rules, len(rules.rules), old(npub) + 1, old(ctn))
  each snn == old(snn) || (forall i :: {ruleSt.counts[i]} 0 <= i && i < len(rules.rules) && ruleSt.counts[i] < 9223372036854775808 ==> old(ruleSt.counts[i]) <= ctval[old(ctn)+i] && ctval[old(ctn)+i] <= ruleSt.counts[i])
  invariant npub == init(npub) + #i && ctn == init(ctn) + #i
  invariant rulelines(rules, #i, init(npub), init(ctn))
  invariant forall k :: {pdat[k]} k < init(npub) ==> pdat[k] == init(pdat[k])
  invariant forall k :: {ctval[k]} init(ctn) <= k && k < ctn ==> ruleCounts[k-init(ctn)] < 9223372036854775808 ==> ctval[k] == ruleCounts[k-init(ctn)]

def droplines(subjects, n, p, c) = (forall k :: {pdat[k]} p <= k && k < p+n ==> pdat[k] == cttext[c+(k-p)])
   && forall k :: {ctname[k]} {ctlab[k]} c <= k && k < c+n ==> ctname[k] == "nats_dropped" && ctlab[k] == subjects[k-c]

contract downsampler.(*Downsampler).startStatistician(ds)
  diverges
  requires ds.nc != nil && ds.c != nil && ds.stats != nil && statsok(ds.stats)
  requires ds.statsNATSDropped != nil && len(ds.subscriptions) <= len(ds.statsNATSDropped.counts) && len(ds.c.NATSSubject) <= len(ds.statsNATSDropped.counts)
  requires ref(ds.statsNATSDropped.counts) != ref(ds.stats.counts.counts)
  requires forall j :: 0 <= j && j < len(ds.subscriptions) ==> ds.subscriptions[j] != nil
  modifies snn, sntext, ctn, ctname, ctlab, ctval, cttext, clk, npub, psub, pdat, npubfail, ds.stats.counts.counts[..], ds.statsNATSDropped.counts[..], lastset, ndrop, ndropok, sortp, srt, heap("prometheus.Label")
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == ds.c.NATSSubjectMonitor
  invariant npub >= old(npub) && statsok(ds.stats)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == ds.c.NATSSubjectMonitor
  // one message with all counters, then one with the messages dropped for each subject
  each snn == old(snn) || npub == old(npub) + 1 + len(ds.c.NATSSubject) && ctn == old(ctn) + len(ds.c.NATSSubject)
  each snn == old(snn) || pdat[old(npub)] == sntext[old(snn)] && droplines(ds.c.NATSSubject, len(ds.c.NATSSubject), old(npub) + 1, old(ctn))
  each snn == old(snn) || (forall i :: {ds.statsNATSDropped.counts[i]} 0 <= i && i < len(ds.c.NATSSubject) && ds.statsNATSDropped.counts[i] < 9223372036854775808 ==> old(ds.statsNATSDropped.counts[i]) <= ctval[old(ctn)+i] && ctval[old(ctn)+i] <= ds.statsNATSDropped.counts[i])
  invariant npub == init(npub) + #i && ctn == init(ctn) + #i
  invariant droplines(ds.c.NATSSubject, #i, init(npub), init(ctn))
  invariant forall k :: {pdat[k]} k < init(npub) ==> pdat[k] == init(pdat[k])
  invariant forall k :: {ctval[k]} init(ctn) <= k && k < ctn ==> natsDrops[k-init(ctn)] < 9223372036854775808 ==> ctval[k] == natsDrops[k-init(ctn)]

contract writer.(*Writer).startStatistician(w, subs)
  diverges
  requires w.nc != nil && w.c != nil && w.stats != nil && statsok(w.stats)
  requires forall j :: 0 <= j && j < len(subs) ==> subs[j] != nil
  modifies snn, sntext, ctn, ctname, ctlab, ctval, cttext, clk, npub, psub, pdat, npubfail, w.stats.counts.counts[..], ndrop, ndropok, sortp, srt, heap("prometheus.Label")
  ensures forall k :: old(npub) <= k && k < npub ==> psub[k] == w.c.NATSSubjectMonitor
  invariant npub >= old(npub) && statsok(w.stats)
  invariant forall k :: old(npub) <= k && k < npub ==> psub[k] == w.c.NATSSubjectMonitor
  // one message with all counters, then one for each subscription whose count could be read
  each snn == old(snn) || npub - old(npub) == 1 + ctn - old(ctn) && ctn - old(ctn) <= len(subs)
  each snn == old(snn) || pdat[old(npub)] == sntext[old(snn)] && (forall k :: {pdat[k]} old(npub) < k && k < npub ==> pdat[k] == cttext[old(ctn)+(k-old(npub)-1)]) && forall k :: {ctname[k]} old(ctn) <= k && k < ctn ==> ctname[k] == "nats_dropped"
  // (in the loop over the subscriptions)
  each snn > old(snn) || (if ndropok then ctn == old(ctn) + 1 && ctval[old(ctn)] == ndrop && (exists j :: 0 <= j && j < len(subs) && ctlab[old(ctn)] == subs[j].Subject) else ctn == old(ctn))
  invariant npub - init(npub) == ctn - init(ctn) && init(ctn) <= ctn && ctn - init(ctn) <= #i
  invariant forall k :: {pdat[k]} init(npub) <= k && k < npub ==> pdat[k] == cttext[init(ctn)+(k-init(npub))]
  invariant forall k :: {ctname[k]} init(ctn) <= k && k < ctn ==> ctname[k] == "nats_dropped"
  invariant forall k :: {pdat[k]} k < init(npub) ==> pdat[k] == init(pdat[k])

property C23
  functions stats.SetHostname filter.(*Filter).updateNATSDropped downsampler.(*Downsampler).updateNATSDropped
  functions listener.(*Listener).startStatistician filter.(*Filter).startStatistician downsampler.(*Downsampler).startStatistician writer.(*Writer).startStatistician

property C26
  functions filter.(*Filter).updateNATSDropped downsampler.(*Downsampler).updateNATSDropped
  functions listener.(*Listener).startStatistician filter.(*Filter).startStatistician downsampler.(*Downsampler).startStatistician writer.(*Writer).startStatistician
