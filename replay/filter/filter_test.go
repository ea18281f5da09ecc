package filter

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/stats"
)

// ---- oracle, written from the definitions only

func oIn(c byte, set string) bool { return strings.IndexByte(set, c) >= 0 }

func oUnescape(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && oIn(s[i+1], ",\" =") {
			i++
		}
		out = append(out, s[i])
	}
	return string(out)
}

func oTokenEnd(s string, until string) int {
	for i := 0; i < len(s); i++ {
		if oIn(s[i], until) && (i == 0 || s[i-1] != '\\') {
			return i
		}
	}
	return len(s)
}

type oTag struct{ key, value string }

type oLine struct {
	raw  string
	name string
	tags []oTag
	rest string
	ok   bool
}

func oParse(raw string) oLine {
	l := oLine{raw: raw}
	s := raw
	e := oTokenEnd(s, ", ")
	l.name, s = oUnescape(s[:e]), s[e:]
	for len(s) > 0 && s[0] == ',' {
		s = s[1:]
		e = oTokenEnd(s, "= ,")
		key := oUnescape(s[:e])
		if e == 0 || e == len(s) || s[e] != '=' {
			return l
		}
		s = s[e+1:]
		e = oTokenEnd(s, ", ")
		if e == 0 {
			return l
		}
		l.tags = append(l.tags, oTag{key, oUnescape(s[:e])})
		s = s[e:]
	}
	if len(s) > 0 {
		s = s[1:]
	}
	l.rest, l.ok = s, true
	return l
}

func (l oLine) sorted() bool {
	return sort.SliceIsSorted(l.tags, func(i, j int) bool { return l.tags[i].key < l.tags[j].key })
}

// multiset of tags
func (l oLine) bag() string {
	var ss []string
	for _, t := range l.tags {
		ss = append(ss, fmt.Sprintf("%q=%q", t.key, t.value))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// what is wrong with out as the line in with its tags sorted
func oSortedForm(in oLine, out string) string {
	if in.sorted() {
		if out != in.raw {
			return "line with ordered tags was changed"
		}
		return ""
	}
	o := oParse(out)
	switch {
	case !o.ok:
		return "result is malformed"
	case o.name != in.name:
		return "measurement changed"
	case !o.sorted():
		return "tags aren't ordered"
	case o.bag() != in.bag():
		return "tags changed"
	case o.rest != in.rest:
		return "fields or timestamp changed"
	}
	return ""
}

// lines for which the listed finding makes sorting change the tags
func oFinding(in oLine) bool {
	if in.sorted() {
		return false
	}
	bad := func(s string) bool { return strings.Contains(s, `\"`) }
	if bad(in.name) {
		return true
	}
	for i, t := range in.tags {
		if bad(t.key) || bad(t.value) || i == len(in.tags)-1 && strings.HasSuffix(strings.TrimSuffix(t.value, "\n"), `\`) {
			return true
		}
	}
	// a newline that belongs to the last tag moves with it
	return len(in.tags) > 0 && strings.Contains(in.tags[len(in.tags)-1].value, "\n")
}

func oRuleMatches(r config.Rule, in oLine, escaped string) bool {
	switch r.Rtype {
	case "basic":
		return in.name == r.Match
	case "tags":
		for _, want := range r.Tags {
			found := false
			for _, t := range in.tags {
				found = found || t.key == want[0] && t.value == want[1]
			}
			if !found {
				return false
			}
		}
		return true
	case "regex":
		return regexp.MustCompile(r.Match).MatchString(oUnescape(escaped))
	case "negregex":
		return !regexp.MustCompile(r.Match).MatchString(oUnescape(escaped))
	}
	panic(r.Rtype)
}

func oFirst(rules []config.Rule, in oLine, escaped string) int {
	for i, r := range rules {
		if oRuleMatches(r, in, escaped) {
			return i
		}
	}
	return -1
}

// timestamp of a line: the integer after the only space among its last 20 characters
// ok is false if the definition leaves open whether there is one.
func oTimestamp(line string) (ts int64, has, ok bool) {
	if len(line) <= 24 {
		return 0, false, true
	}
	line = strings.TrimSuffix(line, "\n")
	if strings.HasSuffix(line, "\n") {
		return 0, false, false
	}
	from := len(line) - 20
	tail := line[from:]
	switch strings.Count(tail, " ") {
	case 0:
		return 0, false, true
	case 1:
	default:
		// several spaces: only clear if what follows the last isn't a number
		last := tail[strings.LastIndexByte(tail, ' ')+1:]
		if _, err := strconv.ParseInt(last, 10, 64); err == nil {
			return 0, false, false
		}
		return 0, false, true
	}
	num := tail[strings.IndexByte(tail, ' ')+1:]
	if strings.HasPrefix(num, "+") || strings.Contains(num, "_") {
		return 0, false, true
	}
	n, err := strconv.ParseInt(num, 10, 64)
	return n, err == nil, true
}

// ---- the worker under test

type pub struct{ subject, data string }

type mockConn struct {
	pubs []pub
	fail func() bool
	nerr int
	mut  bool
}

func (c *mockConn) Publish(subject string, data []byte) error {
	c.pubs = append(c.pubs, pub{subject, string(data)})
	if c.fail != nil && c.fail() {
		c.nerr++
		return errors.New("publish failed")
	}
	return nil
}
func (c *mockConn) QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error) {
	return nil, errors.New("not used")
}
func (c *mockConn) Close() {}

type rig struct {
	w      *worker
	conn   *mockConn
	st     *stats.Stats
	ruleSt *stats.AnonStats
	rules  []config.Rule
	delta  time.Duration
}

func newRig(t *testing.T, rules []config.Rule, delta time.Duration) *rig {
	rs, err := RuleSetFromConfig(&config.Config{Rule: rules})
	if err != nil {
		t.Fatal(err)
	}
	r := &rig{conn: &mockConn{}, st: initStats(), ruleSt: stats.NewAnon(len(rules)), rules: rules, delta: delta}
	r.w, err = newWorker(delta, rs, r.st, r.ruleSt, false, func() (natsConn, error) { return r.conn, nil }, "junk")
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func (r *rig) counts() map[string]int {
	m := map[string]int{}
	for _, n := range []string{"passed", "processed", "rejected", "invalid_time", "failed_nats_publish", "nats_dropped"} {
		m[n] = int(r.st.Get(n))
	}
	for i := range r.rules {
		m[fmt.Sprintf("rule %d", i)] = int(r.ruleSt.Get(i))
	}
	return m
}

// ---- generating rules, lines and batches

func genName(s *vsearch) string {
	return s.pick("cpu", "mem", `a\ b`, `a\,b`, "disk", "0mgtxs", "12ii8yt", `q\"q`, "x", "", "cpu2")
}

func genTagPart(s *vsearch) string {
	return s.pick("a", "b", "host", "dc", "z", `a\ b`, `a\,b`, `a\=b`, `q\"`, "é", "0", "ab", "Host", "aa")
}

func genRule(s *vsearch, i int) config.Rule {
	r := config.Rule{Rtype: s.pick("basic", "tags", "regex", "negregex"), Subject: fmt.Sprintf("subj%d", i)}
	if s.Intn(8) == 0 {
		r.Subject = "subj0"
	}
	switch r.Rtype {
	case "basic":
		r.Match = oUnescape(genName(s))
	case "tags":
		for j := s.Intn(3); j >= 0; j-- {
			r.Tags = append(r.Tags, []string{oUnescape(genTagPart(s)), oUnescape(s.pick("1", "2", genTagPart(s)))})
		}
	default:
		r.Match = s.pick("^cpu", "host=a,", `a b`, `a,b`, "x=1", ".", "[0-9]$", `b=1,.*z=`, "^mem,a=1", "q\"", `\\`)
	}
	return r
}

func genLine(s *vsearch, now int64, delta time.Duration) string {
	l := genName(s)
	for n := s.Intn(4); n > 0; n-- {
		l += "," + genTagPart(s) + "=" + s.pick("1", "2", genTagPart(s))
	}
	if s.Intn(12) == 0 {
		l = s.pick("", ",", "cpu,", "cpu,a", "cpu,a=", "cpu,=1", "cpu,a=1,,", "\\", " ", "cpu,a b=1", "cpu,a=1,b ", `cpu,b=1,a="x" v=1`)
	}
	l += s.pick("", " ", " x=1", " value=12i", ` s="a b"`, ` s="\"a,b=c\""`, " x=1,y=2", " x=1  ", "  x=1")
	sec := int64(time.Second)
	d := int64(delta)
	ts := []int64{now, now + d - 20*sec, now + d + 20*sec, now - d + 20*sec, now - d - 20*sec, 0, -1, 1, -now, now / 1000, 9223372036854775807, -9223372036854775808, now + 2*d, now - 2*d}
	switch s.Intn(4) {
	case 0:
	case 1:
		l += " " + s.pick("12x", "99999999999999999999", "-", "+"+strconv.FormatInt(now, 10), "1e18", strconv.FormatInt(now, 10)+" ", strconv.FormatInt(now, 10)+"\r")
	default:
		l += " " + strconv.FormatInt(ts[s.Intn(len(ts))], 10)
	}
	return l
}

var _ = rand.Int
var _ = os.Getenv

// run sends a batch through the worker and compares with the oracle. The sorted forms
// of unsorted lines are taken from the output, as the order of equal keys is open.
func (r *rig) run(s *vsearch, batch string) (sorting, routing, timing, counting string) {
	before := r.counts()
	nerr := r.conn.nerr
	npubs := len(r.conn.pubs)
	data := []byte(batch)
	now := time.Now().UnixNano()
	r.w.processBatch(data)
	if time.Since(time.Unix(0, now)) > 5*time.Second {
		return // the clock moved too far for the expectations
	}
	pubs := r.conn.pubs[npubs:]
	after := r.counts()

	got := map[string]string{}
	for _, p := range pubs {
		got[p.subject] += p.data
	}
	type exp struct{ n, passed, rejected, invalid int }
	var e exp
	perRule := make([]int, len(r.rules))
	// the rules that share a subject are published one after another
	byRule := make([][]string, len(r.rules)+1)
	lines := strings.SplitAfter(batch, "\n")
	next := make([]int, len(r.rules)+1)
	_ = next
	type item struct {
		in   oLine
		to   int
		open bool
	}
	var items []item
	for _, raw := range lines {
		if raw == "" {
			continue
		}
		e.n++
		ts, has, ok := oTimestamp(raw)
		if !ok {
			return
		}
		if has && !(now-int64(r.delta) < ts && ts < now+int64(r.delta)) {
			e.invalid++
			continue
		}
		in := oParse(raw)
		if !in.ok {
			continue
		}
		if oFinding(in) {
			return // listed finding
		}
		items = append(items, item{in: in})
	}
	// rules see the sorted line: sort stably to know it; equal keys leave it open
	for i := range items {
		it := &items[i]
		esc := it.in.raw
		if !it.in.sorted() {
			keys := map[string]bool{}
			for _, t := range it.in.tags {
				if keys[t.key] {
					it.open = true
				}
				keys[t.key] = true
			}
			tags := append([]oTag(nil), it.in.tags...)
			sort.SliceStable(tags, func(i, j int) bool { return tags[i].key < tags[j].key })
			esc = oEsc(it.in.name, ", ")
			for _, t := range tags {
				esc += "," + oEsc(t.key, ",= ") + "=" + oEsc(t.value, ",= ")
			}
			if it.in.rest != "" {
				esc += " " + it.in.rest
			}
			if it.open {
				return // the order of equal keys is open
			}
		}
		it.to = oFirst(r.rules, it.in, esc)
		if it.to < 0 {
			e.rejected++
			byRule[len(r.rules)] = append(byRule[len(r.rules)], esc)
		} else {
			e.passed++
			perRule[it.to]++
			byRule[it.to] = append(byRule[it.to], esc)
		}
	}
	// publications: at most one per rule, in order, then the junkyard
	want := map[string]string{}
	for i, rule := range r.rules {
		want[rule.Subject] += strings.Join(byRule[i], "")
	}
	want["junk"] += strings.Join(byRule[len(r.rules)], "")
	all := map[string]bool{}
	for k := range want {
		all[k] = true
	}
	for k := range got {
		all[k] = true
	}
	for k := range all {
		if got[k] != want[k] {
			routing = fmt.Sprintf("published on %q: %q, expected %q", k, got[k], want[k])
		}
	}
	if string(data) != batch {
		routing = "the received batch was modified"
	}
	if d := after["invalid_time"] - before["invalid_time"]; d != e.invalid {
		timing = fmt.Sprintf("%d lines dropped for their time, expected %d", d, e.invalid)
	}
	if routing != "" && timing != "" {
		timing += "; " + routing
	}
	// compare each line of each stream with the line it came from
	for i, it := range items {
		_ = i
		if it.to >= 0 {
			sorting += r.findSorted(got[r.rules[it.to].Subject], it.in)
		} else {
			sorting += r.findSorted(got["junk"], it.in)
		}
	}
	exps := map[string]int{"processed": e.n, "passed": e.passed, "rejected": e.rejected, "invalid_time": e.invalid, "failed_nats_publish": r.conn.nerr - nerr, "nats_dropped": 0}
	for i, n := range perRule {
		exps[fmt.Sprintf("rule %d", i)] = n
	}
	for k, n := range exps {
		if after[k]-before[k] != n {
			counting = fmt.Sprintf("counter %s grew by %d, expected %d", k, after[k]-before[k], n)
		}
	}
	return
}

func oEsc(s, set string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if oIn(s[i], set) {
			out = append(out, '\\')
		}
		out = append(out, s[i])
	}
	return string(out)
}

// findSorted looks for a line of the stream that is the line with its tags sorted.
func (r *rig) findSorted(stream string, in oLine) string {
	for _, l := range strings.SplitAfter(stream, "\n") {
		if oSortedForm(in, l) == "" {
			return ""
		}
	}
	if !strings.HasSuffix(in.raw, "\n") && strings.HasSuffix(stream, in.raw) {
		return ""
	}
	return fmt.Sprintf("no line published in %q says the same as %q with its tags ordered; ", stream, in.raw)
}

func filterSearch(t *testing.T, what int) {
	s := vnew(t)
	fixed := [][]config.Rule{
		nil,
		{{Rtype: "basic", Match: "cpu", Subject: "subj0"}},
		{{Rtype: "basic", Match: "cpu", Subject: "subj0"}, {Rtype: "basic", Match: "cpu", Subject: "subj1"}, {Rtype: "negregex", Match: "^x", Subject: "subj2"}},
		{{Rtype: "basic", Match: "0mgtxs", Subject: "subj0"}, {Rtype: "basic", Match: "12ii8yt", Subject: "subj1"}},
	}
	for s.more(200000) {
		var rules []config.Rule
		if s.n <= len(fixed) {
			rules = fixed[s.n-1]
		} else {
			for i := s.Intn(5); i > 0; i-- {
				rules = append(rules, genRule(s, len(rules)))
			}
		}
		delta := time.Duration(1+s.Intn(3)) * 30 * time.Minute
		r := newRig(t, rules, delta)
		if s.Intn(3) == 0 {
			p := 1 + s.Intn(3)
			r.conn.fail = func() bool { return s.Intn(p) == 0 }
		}
		for b := s.Intn(3); b >= 0; b-- {
			now := time.Now().UnixNano()
			batch := ""
			for n := s.Intn(6); n > 0; n-- {
				batch += genLine(s, now, delta) + "\n"
				if s.Intn(15) == 0 {
					batch += "\n"
				}
			}
			// (what follows a line without newline can't be told from it)
			if what != 0 && s.Intn(5) == 0 {
				batch = strings.TrimSuffix(batch, "\n")
			}
			sorting, routing, timing, counting := r.run(s, batch)
			msg := []string{sorting, routing, timing, counting}[what]
			if msg != "" {
				t.Fatalf("rules %+v\nbatch %q (window %v)\n%s", rules, batch, delta, msg)
			}
		}
	}
}

func TestC10Sorting(t *testing.T)  { filterSearch(t, 0) }
func TestC11Routing(t *testing.T)  { filterSearch(t, 1) }
func TestC13Window(t *testing.T)   { filterSearch(t, 2) }
func TestC14Counters(t *testing.T) { filterSearch(t, 3) }

// TestF16SortEscapes is the listed finding: a backslash in front of a double quote in an
// unescaped tag is lost when the line is written again.
func TestF16SortEscapes(t *testing.T) {
	r := newRig(t, nil, time.Hour)
	raw := "cpu,z=1,a=x" + `\\"` + "y v=1\n"
	r.w.processBatch([]byte(raw))
	if len(r.conn.pubs) != 1 {
		t.Fatalf("%v", r.conn.pubs)
	}
	if msg := oSortedForm(oParse(raw), r.conn.pubs[0].data); msg != "" {
		t.Fatalf("%q leaves the filter as %q: %s", raw, r.conn.pubs[0].data, msg)
	}
}

// one line and one rule
func TestC12Rules(t *testing.T) {
	s := vnew(t)
	now := time.Now().UnixNano()
	for s.more(400000) {
		var rules []config.Rule
		for i := s.Intn(4); i >= 0; i-- {
			rules = append(rules, genRule(s, len(rules)))
		}
		rs, err := RuleSetFromConfig(&config.Config{Rule: rules})
		if err != nil {
			t.Fatal(err)
		}
		if subs := rs.Subjects(); len(subs) != len(rules) {
			t.Fatalf("%d rules in effect for %+v", len(subs), rules)
		} else {
			for i := range subs {
				if subs[i] != rules[i].Subject {
					t.Fatalf("rule %d of %+v has subject %q", i, rules, subs[i])
				}
			}
		}
		for k := 0; k < 4; k++ {
			line := genLine(s, now, time.Hour)
			in := oParse(line)
			want := -1
			if in.ok {
				want = oFirst(rules, in, line)
			}
			b := []byte(line)
			got := rs.Lookup(b)
			if got != want {
				t.Fatalf("rules %+v\nline %q: rule %d, expected %d", rules, line, got, want)
			}
			if !bytes.Equal(b, []byte(line)) {
				t.Fatalf("rules %+v\nline %q was modified", rules, line)
			}
		}
	}
	if _, err := RuleSetFromConfig(&config.Config{Rule: []config.Rule{{Rtype: "other", Match: "x", Subject: "y"}}}); err == nil {
		t.Fatal("rule of unknown type accepted")
	}
}

// ---- the whole component, on a stand-in for the bus

// filterWhole starts the filter from a configuration, publishes batches for it and
// compares what it publishes: on the rules' subjects and the junkyard (what 0), for
// lines around the ends of the window (what 1), on the monitoring subject (what 2).
func filterWhole(t *testing.T, what int) {
	s := vnew(t)
	for s.more(400) {
		bus := vbus(t, 1<<20)
		in, junk, mon := fmt.Sprintf("in%d", s.Intn(1000)), fmt.Sprintf("junk%d", s.Intn(1000)), fmt.Sprintf("mon%d", s.Intn(1000))
		conf := &config.Config{
			Name: fmt.Sprintf("n%d", s.Intn(1000)), Mode: "filter", NATSAddress: bus.url,
			NATSSubject: []string{in}, NATSSubjectJunkyard: junk, NATSSubjectMonitor: mon,
			NATSMaxPendingSize: 32 << 20, Workers: 1 + s.Intn(4),
			MaxTimeDelta:  config.Duration{Duration: time.Duration(1+s.Intn(600)) * time.Minute},
			StatsInterval: config.Duration{Duration: 5 * time.Millisecond},
		}
		first := s.Intn(100)
		for i := s.Intn(5); i > 0; i-- {
			r := genRule(s, len(conf.Rule))
			r.Subject = fmt.Sprintf("subj%d", first+len(conf.Rule)*(1+s.Intn(2)))
			dup := false
			for _, o := range conf.Rule {
				dup = dup || o.Subject == r.Subject
			}
			if !dup {
				conf.Rule = append(conf.Rule, r)
			}
		}
		begun := time.Now()
		f, err := StartFilter(conf)
		if err != nil {
			t.Fatalf("config %+v: %v", conf, err)
		}
		bus.subscribed(in)

		want := map[string][]string{}
		counts := map[string]int{"passed": 0, "processed": 0, "rejected": 0, "invalid_time": 0, "failed_nats_publish": 0, "nats_dropped": 0}
		for _, r := range conf.Rule {
			counts["triggered,rule=\""+r.Subject+"\""] = 0
		}
		var batches []string
		delta := conf.MaxTimeDelta.Duration
		now := time.Now()
		for b := s.Intn(8); b >= 0; b-- {
			batch := ""
			out := map[string]string{}
			for n := s.Intn(8); n >= 0; n-- {
				name := s.pick("cpu", "mem", "disk", "x", "cpu2", "0mgtxs", "12ii8yt")
				esc := name
				var tags []string
				for _, k := range []string{"Host", "a", "ab", "b", "dc", "host", "z"} {
					if s.Intn(3) == 0 {
						tags = append(tags, k+"="+s.pick("1", "2", "a", "b"))
						esc += "," + tags[len(tags)-1]
					}
				}
				s.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
				raw := strings.Join(append([]string{name}, tags...), ",")
				rest := " " + s.pick("x=1", "value=12i", `s="a b"`)
				sec := time.Second
				d := []time.Duration{0, delta - 20*sec, delta + 20*sec, 20*sec - delta, -20*sec - delta, 2 * delta, delta / 2}[s.Intn(7)]
				valid := d < delta && d > -delta
				if s.Intn(4) == 0 {
					valid = true
				} else {
					rest += " " + strconv.FormatInt(now.Add(d).UnixNano(), 10)
				}
				batch += raw + rest + "\n"
				counts["processed"]++
				if !valid {
					counts["invalid_time"]++
					continue
				}
				l := oParse(raw + rest + "\n")
				if to := oFirst(conf.Rule, l, esc+rest+"\n"); to < 0 {
					counts["rejected"]++
					out[junk] += esc + rest + "\n"
				} else {
					counts["passed"]++
					counts["triggered,rule=\""+conf.Rule[to].Subject+"\""]++
					out[conf.Rule[to].Subject] += esc + rest + "\n"
				}
			}
			for k, v := range out {
				want[k] = append(want[k], v)
			}
			batches = append(batches, batch)
			bus.publish(in, batch)
		}
		// until all is there, or for long enough
		var routing, counting string
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
			got := map[string][]string{}
			seen, bad := bus.stats(mon, map[string]string{"component": "filter", "name": conf.Name}, begun)
			bus.mu.Lock()
			for _, m := range bus.msgs {
				if m.subject != in && m.subject != mon {
					got[m.subject] = append(got[m.subject], m.data)
				}
			}
			bus.mu.Unlock()
			routing, counting = "", ""
			for k := range got {
				sort.Strings(got[k])
			}
			for k := range want {
				sort.Strings(want[k])
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				routing = fmt.Sprintf("published %q, expected %q", got, want)
			}
			if fmt.Sprint(seen) != fmt.Sprint(counts) || bad != "" {
				counting = fmt.Sprintf("reported %v, expected %v %s", seen, counts, bad)
			}
			if what == 2 && counting == "" || what != 2 && routing == "" || time.Now().After(end) {
				break
			}
		}
		f.Stop()
		bus.stop()
		if msg := []string{routing, routing, counting}[what]; msg != "" {
			t.Fatalf("config %+v\nbatches %q\n%s", conf, batches, msg)
		}
	}
}

func TestC11WholeFilter(t *testing.T) { filterWhole(t, 0) }
func TestC13WholeFilter(t *testing.T) { filterWhole(t, 1) }
func TestC14WholeFilter(t *testing.T) { filterWhole(t, 2) }
