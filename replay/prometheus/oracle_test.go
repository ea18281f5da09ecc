package prometheus

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
)

type vMetric struct {
	name   string
	labels [][2]string
	value  int64
	ms     int64
}

func vNum(s string) (int64, bool) {
	d := s
	if len(d) > 0 && d[0] == '-' {
		d = d[1:]
	}
	if len(d) == 0 {
		return 0, false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

// vParse parses a metric: name, optional labels in braces, a space, the
// value and optionally another space and the time.
func vParse(s string) (m vMetric, ok bool) {
	if len(s) < 3 {
		return m, false
	}
	i := 0
	for i < len(s) && s[i] != ' ' && s[i] != '{' {
		i++
	}
	if i == len(s) {
		return m, false
	}
	m.name = s[:i]
	if s[i] == '{' {
		i++
		if i < len(s) && s[i] == '}' {
			i++
		} else {
			for {
				st := i
				for {
					if i+1 >= len(s) {
						return m, false
					}
					if s[i] == '=' && s[i+1] == '"' {
						break
					}
					i++
				}
				n := s[st:i]
				i += 2
				st = i
				for i < len(s) && s[i] != '"' {
					i++
				}
				if i+1 >= len(s) {
					return m, false
				}
				m.labels = append(m.labels, [2]string{n, s[st:i]})
				i++
				c := s[i]
				i++
				if c == '}' {
					break
				}
				if c != ',' {
					return m, false
				}
			}
		}
	}
	if i >= len(s) || s[i] != ' ' {
		return m, false
	}
	rest := s[i+1:]
	ts := ""
	hasTS := false
	for j := 0; j < len(rest); j++ {
		if rest[j] == ' ' {
			rest, ts, hasTS = rest[:j], rest[j+1:], true
			break
		}
	}
	if m.value, ok = vNum(rest); !ok {
		return m, false
	}
	if hasTS {
		if m.ms, ok = vNum(ts); !ok {
			return m, false
		}
	}
	return m, true
}

// key identifies the name and the set of labels.
func (m vMetric) key() string {
	l := append([][2]string(nil), m.labels...)
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return fmt.Sprintf("%q %q", m.name, l)
}

// text is the metric as it is serialised, labels ordered by name.
func (m vMetric) text() string {
	l := append([][2]string(nil), m.labels...)
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	out := m.name
	for i, x := range l {
		if i == 0 {
			out += "{"
		} else {
			out += ","
		}
		out += x[0] + `="` + x[1] + `"`
	}
	if len(l) > 0 {
		out += "}"
	}
	out += " " + big.NewInt(m.value).String()
	if m.ms > 0 {
		out += " " + big.NewInt(m.ms).String()
	}
	return out
}

func vFrom(m *Metric) vMetric {
	o := vMetric{name: string(m.Name), value: m.Value, ms: m.Milliseconds}
	for _, l := range m.Labels {
		o.labels = append(o.labels, [2]string{string(l.Name), string(l.Value)})
	}
	return o
}

// vTo builds a metric whose parts lie in memory followed by other data.
func vTo(m vMetric) *Metric {
	in := func(s string) []byte { return append(append(make([]byte, 0, len(s)+40), s...), "#tail after the part#"...)[:len(s)] }
	o := &Metric{Name: in(m.name), Value: m.value, Milliseconds: m.ms}
	for _, l := range m.labels {
		o.Labels = append(o.Labels, Label{Name: in(l[0]), Value: in(l[1])})
	}
	return o
}

func vSame(a, b vMetric) bool { return a.key() == b.key() && a.value == b.value && a.ms == b.ms }

// vModel is what a metric set has to hold.
type vModel map[string]vMetric

func (s vModel) text() string {
	var ls []string
	for _, m := range s {
		ls = append(ls, m.text())
	}
	sort.Strings(ls)
	return fmt.Sprint(ls)
}

func vLines(b []byte) string {
	var ls []string
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) > 0 {
			ls = append(ls, string(l))
		}
	}
	sort.Strings(ls)
	return fmt.Sprint(ls)
}

func (s *vsearch) metric() vMetric {
	m := vMetric{name: s.pick("a", "b", "up", "spout_x", "a_b"), value: s.num(), ms: s.num()}
	if s.Intn(3) == 0 {
		m.ms = int64(s.Intn(3)) - 1
	}
	names := []string{"host", "name", "component", "h", "subject", "z9"}
	s.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names[:s.Intn(4)*s.Intn(3)/2+s.Intn(2)] {
		m.labels = append(m.labels, [2]string{n, s.pick("", "x", "y", "db 1", "a.b", "h{}", "p,q", "a=b")})
	}
	return m
}

func (s *vsearch) num() int64 {
	switch s.Intn(4) {
	case 0:
		return int64(s.Intn(12)) - 2
	case 1:
		return s.Int63()
	case 2:
		return -s.Int63() - 1
	}
	return int64(s.Intn(1000000))
}
