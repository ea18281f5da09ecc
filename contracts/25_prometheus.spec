package prometheus

// ---- bytes.Buffer: content is what has been written to it since it was last reset.
// The slice Bytes returns (lastout) is only valid until the buffer is next changed.
ghostfield content: S of bytes.Buffer
ghostfield lastout: Int of bytes.Buffer

extern bytes.(*Buffer).Write(b, p) (n, err)
  modifies content(b), lastout(b), row(ptr(lastout(b), 0, *byte))
  ensures content(b) == old(content(b)) + b(p) && lastout(b) == 0
  ensures n == len(p) && err == nil

extern bytes.(*Buffer).WriteString(b, s) (n, err)
  modifies content(b), lastout(b), row(ptr(lastout(b), 0, *byte))
  ensures content(b) == old(content(b)) + s && lastout(b) == 0
  ensures n == len(s) && err == nil

extern bytes.(*Buffer).WriteByte(b, c) (err)
  modifies content(b), lastout(b), row(ptr(lastout(b), 0, *byte))
  ensures content(b) == old(content(b)) + unit(c) && lastout(b) == 0
  ensures err == nil

extern bytes.(*Buffer).Reset(b)
  modifies content(b), lastout(b), row(ptr(lastout(b), 0, *byte))
  ensures content(b) == "" && lastout(b) == 0

extern bytes.(*Buffer).Grow(b, n)
  modifies lastout(b), row(ptr(lastout(b), 0, *byte))
  requires n >= 0
  ensures lastout(b) == 0

extern bytes.(*Buffer).Len(b) (n)
  ensures n == len(content(b))

extern bytes.(*Buffer).Bytes(b) (r)
  modifies lastout(b)
  ensures b(r) == content(b)
  ensures len(r) > 0 ==> fresh(r) && lastout(b) == ref(r)
  ensures len(r) == 0 ==> lastout(b) == 0

extern bytes.(*Buffer).String(b) (r)
  ensures r == content(b)

extern fmt.Fprintf(w, format, a) (n, err)
  modifies content(as(w, *bytes.Buffer)), lastout(as(w, *bytes.Buffer)), row(ptr(lastout(as(w, *bytes.Buffer)), 0, *byte))
  requires istype(w, *bytes.Buffer)
  ensures content(as(w, *bytes.Buffer)) == old(content(as(w, *bytes.Buffer))) + sprintf(format, a)
  ensures lastout(as(w, *bytes.Buffer)) == 0

extern fmt.Sprintf(format, a) (r)
  ensures r == sprintf(format, a)
  ensures format == "%s://%s:%d/write?db=%s" && len(a) == 4 && istype(a[0], string) && istype(a[1], string) && istype(a[2], int) && istype(a[3], string) ==> b(r) == as(a[0], string) + "://" + as(a[1], string) + ":" + itoa(as(a[2], int)) + "/write?db=" + as(a[3], string)

// ---- labels

def lkeys(l) = arr j :: b(l[j].Name)
def lvals(l) = arr j :: b(l[j].Value)

// the first n labels as text
rec labpart(K: [Int]S, V: [Int]S, n: Int): S = if n <= 0 then "" else labpart(K, V, n-1) + (if n > 1 then "," else "") + K[n-1] + "=\"" + V[n-1] + "\""
lemma labpart_same(K: [Int]S, V: [Int]S, L: [Int]S, W: [Int]S, n: Int)
  requires forall j :: {K[j]} {L[j]} 0 <= j && j < n ==> K[j] == L[j]
  requires forall j :: {V[j]} {W[j]} 0 <= j && j < n ==> V[j] == W[j]
  ensures labpart(K, V, n) == labpart(L, W, n)
  decreases n
  case n <= 0
  use labpart_same(K, V, L, W, n-1)
  trigger labpart(K, V, n), labpart(L, W, n)
  auto

rec labtext(K: [Int]S, V: [Int]S, n: Int): S = "{" + labpart(K, V, n) + "}"

// ordered by name, all names different
def lsorted(K, n) = forall i, j :: 0 <= i && i < j && j < n ==> sltlex(K[i], K[j])
def lwsorted(K, n) = forall i, j :: 0 <= i && i < j && j < n ==> !sltlex(K[j], K[i])

// sortp maps positions after sorting to positions before it
ghost sortp: [Int]Int

def sameperm(t, n) = forall j :: 0 <= j && j < n ==> 0 <= sortp[j] && sortp[j] < n && (let p = sortp[j] in t[j] == old(t[p]))
def inj(n) = forall i, j :: 0 <= i && i < j && j < n ==> sortp[i] != sortp[j]

contract prometheus.Labels.sort$1(i, j) (r)
  requires 0 <= i && i < len(*labels) && 0 <= j && j < len(*labels)
  ensures r <==> sltlex(b((*labels)[i].Name), b((*labels)[j].Name))

// What sorting labels does, given that less compares their names. A permutation of
// different names in order is unique, so sorting them again changes nothing.
extern sort.Slice(x, less)
  modifies as(x, prometheus.Labels)[..], sortp
  requires istype(x, prometheus.Labels)
  requires isfun(less, prometheus.Labels.sort$1) && of(less, Int, ref(*labels)) == ref(as(x, prometheus.Labels)) && of(less, Int, off(*labels)) == off(as(x, prometheus.Labels)) && of(less, Int, len(*labels)) == len(as(x, prometheus.Labels))
  ensures sameperm(as(x, prometheus.Labels), len(as(x, prometheus.Labels))) && inj(len(as(x, prometheus.Labels)))
  ensures lwsorted(lkeys(as(x, prometheus.Labels)), len(as(x, prometheus.Labels)))
  ensures old(lsorted(lkeys(as(x, prometheus.Labels)), len(as(x, prometheus.Labels)))) ==> forall j :: 0 <= j && j < len(as(x, prometheus.Labels)) ==> as(x, prometheus.Labels)[j] == old(as(x, prometheus.Labels)[j])

contract prometheus.Labels.sort(labels)
  modifies labels[..], sortp
  ensures sameperm(labels, len(labels)) && inj(len(labels))
  ensures lwsorted(lkeys(labels), len(labels))
  ensures old(lsorted(lkeys(labels), len(labels))) ==> forall j :: 0 <= j && j < len(labels) ==> labels[j] == old(labels[j])

contract prometheus.Labels.ToBytes(labels) (r)
  modifies labels[..], sortp
  ensures len(r) > 0 && fresh(r) && b(r) == labtext(lkeys(labels), lvals(labels), len(labels))
  ensures sameperm(labels, len(labels)) && inj(len(labels))
  ensures lwsorted(lkeys(labels), len(labels))
  ensures old(lsorted(lkeys(labels), len(labels))) ==> forall j :: 0 <= j && j < len(labels) ==> labels[j] == old(labels[j])
  invariant content(out) == "{" + labpart(lkeys(labels), lvals(labels), #i) + (if 0 < #i && #i < len(labels) then "," else "")
  invariant lastout(out) == 0

contract prometheus.Labels.With(labels, name, value) (out)
  requires len(labels) < 1000000000
  ensures fresh(out) && len(out) == len(labels) + 1
  ensures forall j :: 0 <= j && j < len(labels) ==> out[j] == labels[j]
  ensures b(out[len(labels)].Name) == name && b(out[len(labels)].Value) == value

contract prometheus.NewLabel(name, value) (l)
  ensures b(l.Name) == name && b(l.Value) == value

// ---- metrics

rec metrictext(name: S, K: [Int]S, V: [Int]S, n: Int, v: Int, ms: Int): S = name + (if n > 0 then labtext(K, V, n) else "") + " " + itoa(v) + (if ms > 0 then " " + itoa(ms) else "")
rec metkey(name: S, K: [Int]S, V: [Int]S, n: Int): S = name + labtext(K, V, n)

def keyof(m) = metkey(b(m.Name), lkeys(m.Labels), lvals(m.Labels), len(m.Labels))

contract prometheus.(*Metric).ToBytes(m) (r)
  requires m != nil
  modifies m.Labels[..], sortp
  ensures len(r) > 0 && fresh(r) && b(r) == metrictext(b(m.Name), lkeys(m.Labels), lvals(m.Labels), len(m.Labels), m.Value, m.Milliseconds)
  ensures lwsorted(lkeys(m.Labels), len(m.Labels))
  ensures len(m.Labels) > 0 ==> sameperm(m.Labels, len(m.Labels)) && inj(len(m.Labels))
  ensures old(lsorted(lkeys(m.Labels), len(m.Labels))) ==> forall j :: 0 <= j && j < len(m.Labels) ==> m.Labels[j] == old(m.Labels[j])

contract prometheus.metricKey(m) (r)
  requires m != nil
  modifies m.Labels[..], sortp
  ensures r == keyof(m)
  ensures lwsorted(lkeys(m.Labels), len(m.Labels))
  ensures sameperm(m.Labels, len(m.Labels)) && inj(len(m.Labels))
  ensures old(lsorted(lkeys(m.Labels), len(m.Labels))) ==> forall j :: 0 <= j && j < len(m.Labels) ==> m.Labels[j] == old(m.Labels[j])

def setok(s) = s != nil && s.metrics != nil && (forall k :S :: {has(s.metrics, k)} has(s.metrics, k) ==> s.metrics[k] != nil)

contract prometheus.NewMetricSet() (s)
  ensures fresh(s) && fresh(s.metrics) && forall k :S :: !has(s.metrics, k)

contract prometheus.(*MetricSet).All(set) (out)
  requires setok(set)
  ensures forall j :: 0 <= j && j < len(out) ==> out[j] != nil
  ensures len(out) == len(set.metrics) && (len(out) > 0 ==> fresh(out))
  ensures forall j :: 0 <= j && j < len(out) ==> exists k :S :: has(set.metrics, k) && set.metrics[k] == out[j]
  invariant forall j :: 0 <= j && j < len(out) ==> exists k :S :: has(set.metrics, k) && set.metrics[k] == out[j]
  invariant len(out) == nvisited(#it) && (len(out) == 0 || fresh(out))
  invariant forall j :: 0 <= j && j < len(out) ==> out[j] != nil

contract prometheus.(*MetricSet).Update(set, m)
  requires set != nil && set.metrics != nil && m != nil
  modifies m.Labels[..], sortp, entries(set.metrics)
  ensures has(set.metrics, keyof(m)) && set.metrics[keyof(m)] == m
  ensures forall k :S :: k != keyof(m) ==> (has(set.metrics, k) <==> old(has(set.metrics, k))) && set.metrics[k] == old(set.metrics[k])
  ensures lwsorted(lkeys(m.Labels), len(m.Labels))
  ensures sameperm(m.Labels, len(m.Labels)) && inj(len(m.Labels))
  ensures old(lsorted(lkeys(m.Labels), len(m.Labels))) ==> forall j :: 0 <= j && j < len(m.Labels) ==> m.Labels[j] == old(m.Labels[j])

// ---- parsing

// the first position from k on at which s has one of the characters of set
rec anyidx(s: S, set: S, k: Int): Int = if k >= len(s) then -1 else (if bhas(set, s[k]) then k else anyidx(s, set, k+1))

lemma anyidx_bound(s: S, set: S, k: Int)
  requires 0 <= k
  ensures anyidx(s, set, k) == -1 || k <= anyidx(s, set, k) && anyidx(s, set, k) < len(s) && bhas(set, s[anyidx(s, set, k)])
  decreases len(s) - k
  use anyidx_bound(s, set, k+1)
  trigger anyidx(s, set, k)
  auto
  case k >= len(s)

extern bytes.IndexAny(s, chars) (r)
  ensures r == anyidx(b(s), chars, 0)

// the first position of u in s, from k on
rec find(s: S, u: S, k: Int): Int = if k + len(u) > len(s) then -1 else (if s[k..k+len(u)] == u then k else find(s, u, k+1))

lemma find_bound(s: S, u: S, k: Int)
  requires 0 <= k
  ensures find(s, u, k) == -1 || k <= find(s, u, k) && find(s, u, k) + len(u) <= len(s)
  decreases len(s) - k
  case k + len(u) > len(s)
  use find_bound(s, u, k+1)
  trigger find(s, u, k)
  auto

extern bytes.Index(s, u) (r)
  ensures r == find(b(s), b(u), 0)

// labels: t starts at the name of a label
rec lbeq(t: S): Int = find(t, "=\"", 0)
rec lbq(t: S): Int = idx(t[lbeq(t)+2..], '"', 0) + lbeq(t) + 2
rec lbok(t: S): Bool = lbeq(t) >= 0 && lbq(t) >= lbeq(t) + 2 && lbq(t)+1 < len(t) && (t[lbq(t)+1] == '}' || t[lbq(t)+1] == ',')
rec lbrest(t: S): S = t[lbq(t)+2..]
rec lbname(t: S): S = t[..lbeq(t)]
rec lbval(t: S): S = t[lbeq(t)+2..lbq(t)]
// what follows the first n labels and the characters after them
rec lbafter(t: S, n: Int): S = if n <= 0 then t else lbrest(lbafter(t, n-1))
// the number of labels, -1 if they aren't well formed
rec lbcount(t: S): Int = if !lbok(t) then -1 else (if t[lbq(t)+1] == '}' then 1 else (if lbcount(lbrest(t)) >= 0 then 1 + lbcount(lbrest(t)) else -1))

lemma lbcount_bound(t: S)
  ensures lbcount(t) == -1 || lbcount(t) >= 1
  decreases len(t)
  case lbok(t)
  use lbcount_bound(lbrest(t))
  trigger lbcount(t)
  auto

// the label section, after the opening brace
rec labcount(s: S): Int = if len(s) == 0 then -1 else (if s[0] == '}' then 0 else lbcount(s))
rec labrest(s: S): S = if s[0] == '}' then s[1..] else lbafter(s, lbcount(s))

contract prometheus.parseLabels(s) (labels, n, err)
  hides idx idx_first find
  ensures err == nil <==> labcount(b(s)) >= 0
  ensures err == nil ==> len(labels) == labcount(b(s)) && 0 <= n && n <= len(s) && b(s)[n..] == labrest(b(s))
  ensures err == nil ==> labels == nil || fresh(labels)
  ensures err == nil ==> forall j :: 0 <= j && j < len(labels) ==> b(labels[j].Name) == lbname(lbafter(b(s), j)) && b(labels[j].Value) == lbval(lbafter(b(s), j))
  invariant 0 <= i && i <= len(s) && b(s)[i..] == lbafter(b(s), len(out))
  invariant fresh(out)
  invariant lbcount(b(s)) == (if lbcount(b(s)[i..]) < 0 then -1 else len(out) + lbcount(b(s)[i..]))
  invariant forall j :: 0 <= j && j < len(out) ==> b(out[j].Name) == lbname(lbafter(b(s), j)) && b(out[j].Value) == lbval(lbafter(b(s), j))
  decreases len(s) - i

// a metric
rec mname(s: S): Int = anyidx(s, " {", 0)
rec mlabs(s: S): S = s[mname(s)+1..]
// what follows the name and the labels
rec mrest(s: S): S = if s[mname(s)] == '{' then labrest(mlabs(s)) else s[mname(s)..]
// what follows the space after them
rec mval(s: S): S = mrest(s)[1..]
rec mvalend(s: S): Int = if idx(mval(s), ' ', 0) < 0 then len(mval(s)) else idx(mval(s), ' ', 0)
rec metricok(s: S): Bool = len(s) >= 3 && mname(s) >= 0 && (s[mname(s)] == '{' ==> labcount(mlabs(s)) >= 0) && len(mrest(s)) > 0 && mrest(s)[0] == ' ' && isint(mval(s)[..mvalend(s)]) && (mvalend(s) < len(mval(s)) ==> isint(mval(s)[mvalend(s)+1..]))

contract prometheus.ParseMetric(s) (m, err)
  hides idx idx_first find lbcount lbafter
  ensures err == nil <==> metricok(b(s))
  ensures err == nil ==> m != nil && fresh(m) && b(m.Name) == b(s)[..mname(b(s))]
  ensures err == nil ==> m.Value == intval(mval(b(s))[..mvalend(b(s))]) && m.Milliseconds == (if mvalend(b(s)) < len(mval(b(s))) then intval(mval(b(s))[mvalend(b(s))+1..]) else 0)
  ensures err == nil ==> len(m.Labels) == (if b(s)[mname(b(s))] == '{' then labcount(mlabs(b(s))) else 0) && (m.Labels == nil || fresh(m.Labels))
  ensures err == nil ==> forall j :: 0 <= j && j < len(m.Labels) ==> b(m.Labels[j].Name) == lbname(lbafter(mlabs(b(s)), j)) && b(m.Labels[j].Value) == lbval(lbafter(mlabs(b(s)), j))

def blank(s, j) = lnend(s, '\n', lst(s, '\n', j)) == lst(s, '\n', j)
def pline(s, j) = s[lst(s, '\n', j)..lnend(s, '\n', lst(s, '\n', j))]

contract prometheus.ParseMetrics(s) (set, err)
  hides metricok lst nlines lnend idx idx_first labcount
  modifies sortp
  ensures err == nil <==> forall j :: {lst(b(s), '\n', j)} 0 <= j && j < nlines(b(s), '\n', 0) ==> blank(b(s), j) || metricok(pline(b(s), j))
  ensures err == nil ==> setok(set) && fresh(set) && fresh(set.metrics)
  invariant setok(set)
  invariant forall j :: {lst(b(s), '\n', j)} 0 <= j && j < #i ==> blank(b(s), j) || metricok(pline(b(s), j))

// ---- sets of metrics


contract prometheus.(*MetricSet).UpdateFromSet(set, other)
  requires setok(set) && setok(other) && set.metrics != other.metrics
  modifies sortp, entries(set.metrics), heap("prometheus.Label")
  ensures setok(set)
  ensures forall k :S :: {has(set.metrics, k)} old(has(set.metrics, k)) ==> has(set.metrics, k)
  invariant setok(set)
  invariant forall k :S :: {has(set.metrics, k)} old(has(set.metrics, k)) ==> has(set.metrics, k)

// what was sorted last
ghost srt: [Int]S

extern sort.Strings(x)
  modifies x[..], sortp, srt
  ensures forall i :: {srt[i]} 0 <= i && i < len(x) ==> srt[i] == x[i]
  ensures forall i :: 0 <= i && i < len(x) ==> srt[i] == x[i]
  ensures sameperm(x, len(x)) && inj(len(x))
  ensures forall i, j :: 0 <= i && i < j && j < len(x) ==> !sltlex(x[j], x[i])

contract prometheus.(*MetricSet).ToBytes(set) (r)
  requires setok(set)
  modifies sortp, srt, heap("prometheus.Label")
  ensures len(r) > 0 ==> fresh(r)
  invariant forall j :: 0 <= j && j < len(keys) ==> has(set.metrics, keys[j])
  invariant fresh(keys) || len(keys) == 0
  invariant lastout(out) == 0

package stats

// times at which a 64 bit number of nanoseconds is exact: the years 1678 to 2261
def nstime(t) = -9223372036854775808 <= t && t <= 9223372036854775807

extern time.Time.UnixNano(t) (r)
  ensures nstime(t) ==> r == t

contract stats.timeToMillis(t) (r)
  requires nstime(t)
  ensures r == tdiv(t, 1000000)

// what was formatted: the counter's name and value, its last label's value, and the text
ghost ctn: Int
ghost ctname: [Int]S
ghost ctlab: [Int]S
ghost ctval: [Int]Int
ghost cttext: [Int]S

contract stats.CounterToPrometheus(name, value, now, labels) (r)
  requires nstime(now)
  modifies labels[..], sortp, ctn, ctname, ctlab, ctval, cttext
  set ctn = old(ctn) + 1
  set ctname = store(old(ctname), old(ctn), name)
  set ctlab = store(old(ctlab), old(ctn), old(if len(labels) > 0 then b(labels[len(labels)-1].Value) else ""))
  set ctval = store(old(ctval), old(ctn), value)
  set cttext = store(old(cttext), old(ctn), b(r))
  ensures ctn == old(ctn) + 1 && ctname == store(old(ctname), old(ctn), name) && ctval == store(old(ctval), old(ctn), value) && cttext == store(old(cttext), old(ctn), b(r))
  ensures ctlab == store(old(ctlab), old(ctn), old(if len(labels) > 0 then b(labels[len(labels)-1].Value) else ""))
  ensures fresh(r) && b(r) == metrictext(name, lkeys(labels), lvals(labels), len(labels), value, tdiv(now, 1000000))
  ensures lwsorted(lkeys(labels), len(labels))
  ensures len(labels) > 0 ==> sameperm(labels, len(labels)) && inj(len(labels))

// the texts of the snapshots formatted
ghost snn: Int
ghost sntext: [Int]S

contract stats.SnapshotToPrometheus(snap, now, labels) (r)
  requires nstime(now)
  modifies sortp, srt, heap("prometheus.Label"), snn, sntext
  set snn = old(snn) + 1
  set sntext = store(old(sntext), old(snn), b(r))
  ensures snn == old(snn) + 1 && sntext == store(old(sntext), old(snn), b(r))
  ensures len(r) > 0 ==> fresh(r)
  invariant setok(set) && fresh(set) && fresh(set.metrics)

contract stats.NewLabels(component, name) (r)
  ensures fresh(r) && len(r) == 3
  ensures b(r[0].Name) == "component" && b(r[0].Value) == component && b(r[1].Name) == "name" && b(r[1].Value) == name && b(r[2].Name) == "host" && b(r[2].Value) == stats.hostname

property C21
  functions prometheus.ParseMetric prometheus.parseLabels prometheus.ParseMetrics prometheus.NewMetricSet prometheus.(*MetricSet).All
  functions prometheus.(*MetricSet).Update prometheus.(*MetricSet).UpdateFromSet prometheus.metricKey prometheus.(*Metric).ToBytes prometheus.Labels.ToBytes prometheus.Labels.sort
  functions convert.ToInt
  functions monitor.(*Monitor).receiveMetrics
  bounded prometheus:TestC21 the set parsed from a message of several lines holds exactly the metrics in it (single metrics and well-formedness of messages are proved)
  bounded monitor:TestC21 effect of well formed messages on the monitor's metrics (that malformed ones have none is proved)

property C22
  functions prometheus.NewMetricSet prometheus.(*MetricSet).All prometheus.(*MetricSet).Update prometheus.(*MetricSet).UpdateFromSet prometheus.(*MetricSet).ToBytes
  functions prometheus.metricKey prometheus.(*Metric).ToBytes prometheus.Labels.ToBytes prometheus.Labels.sort prometheus.Labels.sort$1 prometheus.Labels.With prometheus.NewLabel
  bounded monitor:TestC22 what a running monitor serves
  bounded prometheus:TestC22 sequences of updates, merges and serialisations of whole sets
  note that different names and label sets have different keys is only checked bounded (values with quotes or braces may clash)

property C23
  functions stats.NewAnon stats.(*AnonStats).Get stats.(*AnonStats).Inc stats.(*AnonStats).Max stats.(*AnonStats).Snapshot
  functions stats.New stats.(*Stats).lookup stats.(*Stats).Inc stats.(*Stats).Get stats.(*Stats).Max stats.(*Stats).Snapshot
  functions stats.timeToMillis stats.CounterToPrometheus stats.SnapshotToPrometheus stats.NewLabels
  functions prometheus.(*Metric).ToBytes prometheus.Labels.ToBytes prometheus.Labels.sort
  bounded listener:TestC23 the counters a running listener publishes
  bounded writer:TestC23 the counters a running writer publishes
  bounded downsampler:TestC23 the counters a running downsampler publishes (the filter's: C14)
  bounded stats:TestC23 the text of whole snapshots; schedules of 8 goroutines
