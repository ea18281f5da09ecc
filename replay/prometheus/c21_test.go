package prometheus

import (
	"strings"
	"testing"
)

func TestC21Parse(t *testing.T) {
	one := func(in string) {
		b := append(append(make([]byte, 0, len(in)+8), in...), "9 9}\" 9"...)[:len(in)]
		m, err := ParseMetric(b)
		want, ok := vParse(in)
		if (err == nil) != ok {
			t.Fatalf("ParseMetric(%q): error %v, well formed %v", in, err, ok)
		}
		if string(b) != in {
			t.Fatalf("ParseMetric(%q) modified its input", in)
		}
		if !ok {
			return
		}
		got := vFrom(m)
		same := got.name == want.name && got.value == want.value && got.ms == want.ms && len(got.labels) == len(want.labels)
		for i := 0; same && i < len(got.labels); i++ {
			same = got.labels[i] == want.labels[i]
		}
		if !same {
			t.Fatalf("ParseMetric(%q) = %+v, want %+v", in, got, want)
		}
	}
	many := func(in string) {
		set, err := ParseMetrics([]byte(in))
		model, good := vModel{}, true
		for _, l := range strings.Split(in, "\n") {
			if l == "" {
				continue
			}
			m, ok := vParse(l)
			if !ok {
				good = false
				break
			}
			model[m.key()] = m
		}
		if (err == nil) != good {
			t.Fatalf("ParseMetrics(%q): error %v, well formed %v", in, err, good)
		}
		if !good {
			return
		}
		all := set.All()
		if len(all) != len(model) {
			t.Fatalf("ParseMetrics(%q) gives %d metrics, want %d", in, len(all), len(model))
		}
		for _, m := range all {
			g := vFrom(m)
			if w, ok := model[g.key()]; !ok || !vSame(g, w) {
				t.Fatalf("ParseMetrics(%q) has %+v, want %+v", in, g, w)
			}
		}
	}
	venum("a {}=\",1", 5, func(b []byte) { one(string(b)) })
	for _, pre := range []string{"m{a=\"", "m{", "m{a=\"b\",", "m{a=\"b\"}", "m{} ", "m ", "m 1", "m 1 "} {
		venum("a =\",}-1", 4, func(b []byte) { one(pre + string(b)) })
	}
	s := vnew(t)
	for s.more(120000) {
		var ls []string
		for n := s.Intn(5); n >= 0; n-- {
			m := s.metric()
			l := m.text()
			if s.Intn(3) == 0 { // labels in another order, empty braces
				l = m.name
				if len(m.labels) > 0 || s.Intn(2) == 0 {
					l += "{"
					for i, x := range m.labels {
						if i > 0 {
							l += ","
						}
						l += x[0] + `="` + x[1] + `"`
					}
					l += "}"
				}
				l += " " + s.pick("5", "0", "-12", "9223372036854775807", "9223372036854775808") + s.pick("", " 7", " 1536000000000", " -1")
			}
			if s.Intn(6) == 0 && len(l) > 0 {
				b := []byte(l)
				switch i := s.Intn(len(b)); s.Intn(3) {
				case 0:
					b[i] = " {}=\",-0a\n"[s.Intn(10)]
				case 1:
					b = append(b[:i], b[i+1:]...)
				default:
					b = b[:i]
				}
				l = string(b)
			}
			ls = append(ls, l)
			one(l)
			if s.Intn(5) == 0 {
				ls = append(ls, "")
			}
		}
		many(strings.Join(ls, "\n") + s.pick("", "\n", "\n\n"))
	}
}
