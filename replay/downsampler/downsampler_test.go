package downsampler

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// ---- windows

type vclock struct{ now time.Time }

func (c *vclock) Now() time.Time { return c.now }

// vbucket keeps the lines it gets.
type vbucket struct {
	end     time.Time
	lines   []string
	emitted int
	errs    int
}

func (b *vbucket) AddLine(l []byte) []error {
	b.lines = append(b.lines, string(l))
	if bytes.HasPrefix(l, []byte("bad")) {
		b.errs++
		return []error{fmt.Errorf("bad"), fmt.Errorf("worse")}
	}
	return nil
}
func (b *vbucket) Bytes() []byte {
	b.emitted++
	return []byte("[" + strings.Join(b.lines, "\n") + "]" + strconv.FormatInt(b.end.UnixNano(), 10))
}
func (b *vbucket) EndTime() time.Time { return b.end }

// vfloor is the last multiple of d, counted from the zero time, not after t.
func vfloor(t time.Time, d time.Duration) time.Time {
	n := new(big.Int).Mul(big.NewInt(62135596800), big.NewInt(1000000000))
	n.Add(n, big.NewInt(t.UnixNano()))
	m := new(big.Int).Mod(n, big.NewInt(int64(d)))
	return t.Add(-time.Duration(m.Int64()))
}

func TestC15Windows(t *testing.T) {
	s := vnew(t)
	periods := []time.Duration{time.Nanosecond * 7, time.Millisecond, time.Second, 7 * time.Second, 10 * time.Second, time.Minute, 7 * time.Minute, time.Hour, 24 * time.Hour}
	for s.more(100000) {
		period := periods[s.Intn(len(periods))]
		now := time.Unix(1500000000+int64(s.Intn(100000000)), int64(s.Intn(1000000000)))
		if s.Intn(3) == 0 {
			now = vfloor(now, period)
		}
		clock := &vclock{now}
		trace := fmt.Sprintf("period %v, started at %d", period, now.UnixNano())
		a := newAssigner(period, func(end time.Time) bucket { return &vbucket{end: end} }, clock)
		end := vfloor(now, period).Add(period) // of the current window
		want := map[int64][]string{}           // end -> lines
		fail := func(f string, x ...interface{}) {
			t.Fatalf("%s\n%s", trace, fmt.Sprintf(f, x...))
		}
		for i := 0; i < 12; i++ {
			switch s.Intn(4) {
			case 0, 1: // lines
				var text, when []string
				wantTS, wantOther := 0, 0
				for j := s.Intn(5); j >= 0; j-- {
					name := s.pick("m", "m", "bad")
					l := fmt.Sprintf("%s%d,t=a f=%di", name, i*10+j, s.Intn(5))
					var at time.Time
					switch s.Intn(7) {
					case 0: // none: now
						at = clock.now
						text = append(text, l)
					case 1:
						at = clock.now
						l += s.pick(" 12x", " -", " +", " 99999999999999999999")
						text = append(text, l)
					case 2: // on a boundary
						at = end.Add(time.Duration(s.Intn(6)-4) * period)
						text = append(text, fmt.Sprintf("%s %d", l, at.UnixNano()))
					case 3: // next to one
						at = end.Add(time.Duration(s.Intn(6)-4) * period).Add(time.Duration(s.Intn(3) - 1))
						text = append(text, fmt.Sprintf("%s %d", l, at.UnixNano()))
					case 4: // far away
						at = time.Unix(0, []int64{0, 1, -1, 100000000000000000, 9000000000000000000, -9000000000000000000}[s.Intn(6)])
						if at.UnixNano() < -999999999999999999 {
							at = time.Unix(0, -999999999999999999)
						}
						text = append(text, fmt.Sprintf("%s %d", l, at.UnixNano()))
					default:
						at = end.Add(-2 * period).Add(time.Duration(s.Int63n(3 * int64(period))))
						text = append(text, fmt.Sprintf("%s %d", l, at.UnixNano()))
					}
					when = append(when, strconv.FormatInt(at.UnixNano(), 10))
					if s.Intn(5) == 0 {
						text = append(text, "")
					}
					e := vfloor(at, period).Add(period)
					d := e.Sub(end)
					if at.UnixNano() < end.Add(-3*period).UnixNano() || at.UnixNano() > end.Add(2*period).UnixNano() || d < -period || d > period {
						wantTS++
						continue
					}
					want[e.UnixNano()] = append(want[e.UnixNano()], l)
					if name == "bad" {
						wantOther += 2
					}
				}
				msg := strings.Join(text, "\n")
				if s.Intn(3) > 0 {
					msg += "\n"
				}
				trace += fmt.Sprintf("\nUpdate(%q) (times %v)", msg, when)
				gotTS, gotOther := 0, 0
				for _, err := range a.Update([]byte(msg)) {
					if isTimestampError(err) {
						gotTS++
					} else {
						gotOther++
					}
				}
				if gotTS != wantTS || gotOther != wantOther {
					fail("%d timestamp errors and %d others reported, not %d and %d", gotTS, gotOther, wantTS, wantOther)
				}
			case 2:
				var d time.Duration
				switch s.Intn(4) {
				case 0:
					d = end.Sub(clock.now) // to the end of the current window
				case 1:
					d = end.Sub(clock.now) - 1
				case 2:
					d = time.Duration(s.Int63n(int64(period) + 1))
				case 3:
					d = time.Duration(s.Int63n(3*int64(period) + 1))
				}
				if d > 0 {
					clock.now = clock.now.Add(d)
					trace += fmt.Sprintf("\nat %d", clock.now.UnixNano())
				}
				continue
			}
			due := end.Sub(clock.now)
			if due < 0 {
				due = 0
			}
			if u := a.UntilNext(); u != due {
				fail("UntilNext is %v, but the current window ends in %v", u, due)
			}
			got := a.Bytes()
			trace += "\nBytes()"
			if clock.now.Before(end) {
				if len(got) != 0 {
					fail("%q emitted at %d, before the end of the current window %d", got, clock.now.UnixNano(), end.UnixNano())
				}
				continue
			}
			e := end.Add(-period).UnixNano()
			w := "[" + strings.Join(want[e], "\n") + "]" + strconv.FormatInt(e, 10)
			if string(got) != w {
				fail("emitted %q instead of %q", got, w)
			}
			delete(want, e)
			end = end.Add(period)
			i--
		}
	}
}

// The worker, over a message bus.
func TestC15Worker(t *testing.T) {
	s := vnew(t)
	log.SetOutput(ioutil.Discard)
	nats := vbus(t, 1<<20)
	defer nats.stop()
	for round := 0; round < 2; round++ {
		period := []time.Duration{400 * time.Millisecond, 700 * time.Millisecond}[round]
		c := &config.Config{Name: "ds", Mode: "downsampler", NATSAddress: nats.url, NATSSubject: []string{fmt.Sprintf("in%d", round), fmt.Sprintf("more%d", round)},
			NATSSubjectMonitor: "mon", NATSMaxPendingSize: 200 << 20, DownsampleSuffix: s.pick("-archive", ".x")}
		c.DownsamplePeriod.Duration = period
		c.StatsInterval.Duration = 300 * time.Millisecond
		ds, err := StartDownsampler(c)
		if err != nil {
			t.Fatal(err)
		}
		for _, sub := range c.NATSSubject {
			nats.subscribed(sub)
		}
		out := map[string][]string{}
		mon := ""
		gather := func() {
			nats.mu.Lock()
			for _, m := range nats.msgs {
				if m.subject == "mon" {
					mon += m.data
				} else if !strings.HasPrefix(m.subject, "in") && !strings.HasPrefix(m.subject, "more") || strings.HasSuffix(m.subject, c.DownsampleSuffix) {
					out[m.subject] = append(out[m.subject], m.data)
				}
			}
			nats.msgs = nil
			nats.mu.Unlock()
		}
		want := map[string]int64{} // series -> end of window
		seen := map[string]int{}
		fuzzy := map[string]bool{}
		id, received, old, malformed := 0, 0, 0, 0
		pad := strings.Repeat("x", 400)
		start := time.Now()
		for time.Since(start) < 3*period {
			for _, sub := range c.NATSSubject {
				var msg []string
				for i := s.Intn(8); i >= 0; i-- {
					key := fmt.Sprintf("m,sub=%s,id=%d", sub, id)
					id++
					switch s.Intn(8) {
					case 0:
						msg = append(msg, fmt.Sprintf("%s f=1i %d", key, time.Now().Add(-time.Hour).UnixNano()))
						old++
					case 1:
						msg = append(msg, fmt.Sprintf("%s f=1i %d", key, time.Now().Add(time.Hour).UnixNano()))
						old++
					case 2:
						msg = append(msg, fmt.Sprintf("%s f %d", key, time.Now().UnixNano()))
						malformed++
					case 3:
						msg = append(msg, key+" f=1i")
						want[key], fuzzy[key] = vfloor(time.Now(), period).Add(period).UnixNano(), true
					default:
						at := time.Now()
						msg = append(msg, fmt.Sprintf("%s f=1i,p=\"%s\" %d", key, pad, at.UnixNano()))
						want[key] = vfloor(at, period).Add(period).UnixNano()
					}
				}
				if s.Intn(4) == 0 { // many, so that the window doesn't fit a message
					at := time.Now()
					for i := 0; i < 2000; i++ {
						key := fmt.Sprintf("m,sub=%s,id=%d", sub, id)
						id++
						msg = append(msg, fmt.Sprintf("%s f=1i,p=\"%s\" %d", key, pad, at.UnixNano()))
						want[key] = vfloor(at, period).Add(period).UnixNano()
						if i%100 == 99 {
							nats.publish(sub, strings.Join(msg, "\n")+"\n")
							msg = nil
							received++
						}
					}
				}
				if len(msg) > 0 {
					nats.publish(sub, strings.Join(msg, "\n")+"\n")
					received++
				}
			}
			time.Sleep(time.Duration(5+s.Intn(10)) * time.Millisecond)
			gather()
		}
		time.Sleep(2*period + 700*time.Millisecond)
		gather()
		ds.Stop()
		for sub, msgs := range out {
			if sub != c.NATSSubject[0]+c.DownsampleSuffix && sub != c.NATSSubject[1]+c.DownsampleSuffix {
				t.Fatalf("messages on subject %q", sub)
			}
			last := int64(math.MinInt64)
			for _, m := range msgs {
				if len(m) > 1<<20 || len(m) == 0 || m[len(m)-1] != '\n' {
					t.Fatalf("message of %d bytes published, ending in %q", len(m), m[len(m)-1:])
				}
				for _, l := range strings.Split(strings.TrimSuffix(m, "\n"), "\n") {
					f := strings.Split(l, " ")
					if len(f) != 3 || f[1] != "f=1i" && f[1] != "f=1i,p=\""+pad+"\"" {
						t.Fatalf("line %q on %s", l, sub)
					}
					ts, _ := strconv.ParseInt(f[2], 10, 64)
					if !vfloor(time.Unix(0, ts), period).Equal(time.Unix(0, ts)) {
						t.Fatalf("window of %v ends at %d", period, ts)
					}
					if ts < last {
						t.Fatalf("window ending at %d emitted after the one ending at %d", ts, last)
					}
					last = ts
					if !strings.HasPrefix(f[0], "m,sub="+strings.TrimSuffix(sub, c.DownsampleSuffix)+",") {
						t.Fatalf("%q on %s", f[0], sub)
					}
					w, ok := want[f[0]]
					if !ok {
						t.Fatalf("line %q, which belongs to no window", l)
					}
					if ts != w && !(fuzzy[f[0]] && ts >= w) {
						t.Fatalf("%q emitted with window %d instead of %d", f[0], ts, w)
					}
					seen[f[0]]++
				}
			}
		}
		missing := 0
		for key := range want {
			if seen[key] > 1 {
				t.Fatalf("%q emitted %d times", key, seen[key])
			}
			if seen[key] == 0 {
				missing++
			}
		}
		// (the machine may have been too busy for a line to arrive in time)
		late := -1
		for _, w := range []struct {
			name string
			n    int
		}{{"received", received}, {"invalid_lines", malformed}, {"invalid_timestamps", old + missing}} {
			i := strings.LastIndex(mon, "\n"+w.name+"{")
			if i < 0 {
				t.Fatalf("no %s metric in %q", w.name, mon)
			}
			f := strings.Fields(mon[i+1 : i+1+strings.IndexByte(mon[i+1:], '\n')])
			n, _ := strconv.Atoi(f[len(f)-2])
			if n != w.n {
				t.Fatalf("%s is %d instead of %d (%d lines missing)", w.name, n, w.n, missing)
			}
			late = n
		}
		_ = late
		if missing > len(want)/4 {
			t.Fatalf("%d of %d lines missing", missing, len(want))
		}
	}
}

// ---- aggregates

type vfield struct {
	kind rune // i, f, s, r
	sum  *big.Int
	n    int64
	last string
	val  float64
}

func (f *vfield) String() string {
	switch f.kind {
	case 'i':
		return new(big.Int).Quo(f.sum, big.NewInt(f.n)).String() + "i"
	case 'f':
		return strconv.FormatFloat(f.val, 'g', -1, 64)
	}
	return f.last
}

// vsplit cuts the output into lines (string values hold no newline here).
func vcheck(t *testing.T, trace, out string, end int64, want map[string]map[string]*vfield) {
	lines := map[string]string{}
	if out != "" {
		if !strings.HasSuffix(out, "\n") {
			t.Fatalf("%s\noutput %q doesn't end in a newline", trace, out)
		}
		for _, l := range strings.Split(out[:len(out)-1], "\n") {
			i := 0
			for i < len(l) && l[i] != ' ' {
				if l[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(l) {
				t.Fatalf("%s\nline %q", trace, l)
			}
			if _, ok := lines[l[:i]]; ok {
				t.Fatalf("%s\nseries %q twice in %q", trace, l[:i], out)
			}
			lines[l[:i]] = l
		}
	}
	for key, l := range lines {
		if want[key] == nil {
			t.Fatalf("%s\nline %q of a series that wasn't added", trace, l)
		}
	}
	for key, fields := range want {
		var names []string
		for n := range fields {
			names = append(names, n)
		}
		sort.Strings(names)
		w := key + " "
		for i, n := range names {
			if i > 0 {
				w += ","
			}
			w += n + "=" + fields[n].String()
		}
		w += " " + strconv.FormatInt(end, 10)
		if lines[key] != w {
			t.Fatalf("%s\nseries %q: %q instead of %q", trace, key, lines[key], w)
		}
	}
}

func (s *vsearch) vint() int64 {
	switch s.Intn(6) {
	case 0:
		return math.MaxInt64 - int64(s.Intn(2))
	case 1:
		return math.MinInt64 + int64(s.Intn(2))
	case 2:
		return int64(s.Uint64())
	}
	return int64(s.Intn(7) - 3)
}

// One field: every kind of value.
func TestC16Values(t *testing.T) {
	s := vnew(t)
	for s.more(200000) {
		b := newAvgBucket(time.Unix(0, 42))
		// the fields of one series
		var fs []*vfield
		var konst []float64
		for i := s.Intn(4); i >= 0; i-- {
			fs = append(fs, &vfield{sum: new(big.Int), kind: []rune("iiifsrr")[s.Intn(7)]})
			konst = append(konst, []float64{1, -2.5, 1e300, 0, 3}[s.Intn(5)])
		}
		want := map[string]*vfield{}
		trace := ""
		for i := s.Intn(5); i >= 0; i-- {
			// a message: the lines are parts of it
			var msg []byte
			var ends []int
			var bads []bool
			var snaps []map[string]*vfield
			for j := s.Intn(4); j >= 0; j-- {
				line, bad := "m,t=1", false
				sep := " "
				all := s.Intn(2) == 0
				for k, f := range fs {
					if !all && s.Intn(2) == 0 && !(k == len(fs)-1 && sep == " ") {
						continue
					}
					v, wrong := vvalue(s, f, konst[k])
					bad = bad || wrong
					name := string(rune('a' + k))
					line += sep + name + "=" + v
					sep = ","
					want[name] = f
				}
				msg = append(msg, line...)
				ends = append(ends, len(msg))
				msg = append(msg, '\n')
				bads = append(bads, bad)
				snap := map[string]*vfield{}
				for n, f := range want {
					g := *f
					g.sum = new(big.Int).Set(f.sum)
					snap[n] = &g
				}
				snaps = append(snaps, snap)
			}
			trace += string(msg) + "--\n"
			from := 0
			for j, end := range ends {
				errs := b.AddLine(msg[from:end])
				from = end + 1
				if bads[j] != (len(errs) > 0) {
					t.Fatalf("%sline %d: errors %v", trace, j, errs)
				}
				vcheck(t, trace, string(b.Bytes()), 42, map[string]map[string]*vfield{"m,t=1": snaps[j]})
			}
		}
	}
}

// vvalue makes up a value for a field and says whether its type is wrong.
func vvalue(s *vsearch, f *vfield, konst float64) (v string, bad bool) {
	switch f.kind {
	case 'i':
		if f.n > 0 && s.Intn(4) == 0 {
			return s.pick("5", "x", "i", "12xi", "true", "1.5i", "9223372036854775808i", "-9223372036854775809i", "-i", "\"1i\"", "1.0", "--1i"), true
		}
		n := s.vint()
		v = strconv.FormatInt(n, 10) + "i"
		f.sum.Add(f.sum, big.NewInt(n))
	case 'f':
		if f.n > 0 && s.Intn(4) == 0 {
			return s.pick("5i", "x", "true", "1e", "1.5.2", "\"s\""), true
		}
		v = strconv.FormatFloat(konst, 'g', -1, 64)
		f.val = konst
	case 's':
		v = `"`
		for j := s.Intn(5); j > 0; j-- {
			v += s.pick("a", " ", ",", "=", `\"`, `\\`, "b", `\n`)
		}
		v += `"`
		f.last = v
	case 'r':
		v = s.pick("true", "t", "F", "False", "x", "1ii", "i", "-i", "1.2.3", "9223372036854775808i", "-i", "+5i")
		f.last = v
	}
	f.n++
	return v, false
}

// Many series and fields, and malformed lines.
func TestC17Series(t *testing.T) {
	s := vnew(t)
	keys := []string{"m", "m,t=1", "m,t=2", `m\ x,t=1`, `m\,t=1`, "m,t=1,u=2", `m\\x`, "é,a=b"}
	names := []string{"f", "g", `h\ `, `a\=b`, `c\,d`, "é", "F", "f1"}
	kinds := []rune("ifsrisri")
	for s.more(100000) {
		end := s.vint()
		b := newAvgBucket(time.Unix(0, end))
		want := map[string]map[string]*vfield{}
		tainted := map[string]bool{}
		trace := ""
		for i := 1 + s.Intn(15); i > 0; i-- {
			key := keys[s.Intn(len(keys))]
			var parts []string
			upd := map[string]vfield{}
			for j := s.Intn(3); j >= 0; j-- {
				k := s.Intn(len(names))
				n := names[k]
				if _, ok := upd[n]; ok {
					continue
				}
				f := vfield{kind: kinds[k], n: 1}
				switch kinds[k] {
				case 'i':
					v := s.vint()
					f.sum = big.NewInt(v)
					f.last = strconv.FormatInt(v, 10) + "i"
				case 'f':
					f.val, f.last = 1.5, "1.5"
				case 's':
					f.last = `"` + s.pick("", "a b", `say \"hi\"`, "x,y=z") + `"`
				case 'r':
					f.last = s.pick("true", "false", "T", "f")
				}
				upd[n] = f
				parts = append(parts, n+"="+f.last)
			}
			line := key + " " + strings.Join(parts, ",")
			bad := false
			if s.Intn(4) == 0 {
				bad = true
				line += s.pick(",", ",x", ",=1", ",x=", `,x="abc`, `,x="`)
			}
			trace += line + "\n"
			errs := b.AddLine([]byte(line))
			if bad != (len(errs) > 0) {
				t.Fatalf("%serrors %v", trace, errs)
			}
			if bad {
				// what the fields before the malformed one did to a series
				// that existed is left open
				if want[key] != nil {
					tainted[key] = true
				}
			} else {
				if want[key] == nil {
					want[key] = map[string]*vfield{}
				}
				for n, u := range upd {
					u := u
					f := want[key][n]
					if f == nil {
						want[key][n] = &u
						continue
					}
					if u.kind == 'i' {
						f.sum.Add(f.sum, u.sum)
					}
					f.n++
					f.last, f.val = u.last, u.val
				}
			}
			out := string(b.Bytes())
			if len(tainted) == 0 {
				vcheck(t, trace, out, end, want)
				continue
			}
			// without the tainted ones
			rest := ""
			w := map[string]map[string]*vfield{}
			for k, v := range want {
				if !tainted[k] {
					w[k] = v
				}
			}
			seen := map[string]int{}
			for _, l := range strings.SplitAfter(out, "\n") {
				hit := false
				for k := range tainted {
					if strings.HasPrefix(l, k+" ") {
						hit = true
						seen[k]++
					}
				}
				if !hit {
					rest += l
				}
			}
			for k := range tainted {
				if seen[k] != 1 {
					t.Fatalf("%s%d lines of series %q in %q", trace, seen[k], k, out)
				}
			}
			vcheck(t, trace, rest, end, w)
		}
	}
}

// Averages of floating point fields, against exact arithmetic.
func TestC29Floats(t *testing.T) {
	s := vnew(t)
	for s.more(60000) {
		b := newAvgBucket(time.Unix(0, 42))
		sum, max := new(big.Float).SetPrec(2400), 0.0
		scale := s.Intn(5)
		trace := ""
		for n := 1; n <= 1+s.Intn(30); n++ {
			v := s.NormFloat64()
			switch scale {
			case 1:
				v = float64(s.Intn(2000)-1000) / 4
			case 2:
				v = math.Ldexp(v, s.Intn(200)-100)
			case 3:
				v = math.Ldexp(v, s.Intn(1800)-900)
			case 4:
				v = math.Ldexp(float64(s.Intn(31)-15), 1020)
			}
			text := strconv.FormatFloat(v, "gefg"[s.Intn(4)], -1, 64)
			if i, err := strconv.Atoi(text); err == nil && s.Intn(2) == 0 {
				text = strconv.Itoa(i) + ".0"
			}
			line := "m f=" + text
			trace += line + "\n"
			if errs := b.AddLine([]byte(line)); len(errs) > 0 {
				t.Fatalf("%serrors %v", trace, errs)
			}
			if s.Intn(8) == 0 {
				bad := "m f=" + s.pick("5i", "x", "true", `"1.5"`, "1e", "0..1")
				trace += bad + "\n"
				if errs := b.AddLine([]byte(bad)); len(errs) == 0 {
					t.Fatalf("%sno error", trace)
				}
			}
			sum.Add(sum, big.NewFloat(v))
			max = math.Max(max, math.Abs(v))
			out := strings.TrimSuffix(string(b.Bytes()), " 42\n")
			got, err := strconv.ParseFloat(strings.TrimPrefix(out, "m f="), 64)
			if err != nil {
				t.Fatalf("%soutput %q", trace, out)
			}
			want, _ := new(big.Float).Quo(sum, big.NewFloat(float64(n))).Float64()
			if math.Abs(got-want) > max*1e-15*float64(n)+1e-300 {
				t.Fatalf("%sgot %v, the average is %v", trace, got, want)
			}
		}
	}
}
