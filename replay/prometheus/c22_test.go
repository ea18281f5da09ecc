package prometheus

import (
	"bytes"
	"fmt"
	"testing"
)

// vTails checks that the memory behind the parts of metrics is untouched.
func vTails(ms []*Metric) string {
	at := func(b []byte) bool { return cap(b) < len(b)+21 || string(b[len(b):len(b)+21]) == "#tail after the part#" }
	for _, m := range ms {
		ok := at(m.Name)
		for _, l := range m.Labels {
			ok = ok && at(l.Name) && at(l.Value)
		}
		if !ok {
			return fmt.Sprintf("memory following the parts of %+v changed", vFrom(m))
		}
	}
	return ""
}

func TestC22Sets(t *testing.T) {
	s := vnew(t)
	for s.more(60000) {
		set, model := NewMetricSet(), vModel{}
		var log []string
		var all []*Metric
		other, omodel := NewMetricSet(), vModel{}
		for n := s.Intn(12) + 1; n > 0; n-- {
			v := s.metric()
			if len(all) > 0 && s.Intn(2) == 0 { // same series again, labels in another order
				w := vFrom(all[s.Intn(len(all))])
				v.name, v.labels = w.name, w.labels
				s.Shuffle(len(v.labels), func(i, j int) { v.labels[i], v.labels[j] = v.labels[j], v.labels[i] })
				if len(v.labels) > 0 && s.Intn(3) == 0 {
					v.labels[0][1] += "'"
				}
			}
			m := vTo(v)
			all = append(all, m)
			log = append(log, fmt.Sprintf("%+v", v))
			if s.Intn(4) == 0 {
				other.Update(m)
				omodel[v.key()] = v
			} else {
				set.Update(m)
				model[v.key()] = v
			}
			if s.Intn(5) == 0 {
				set.UpdateFromSet(other)
				for k, v := range omodel {
					model[k] = v
				}
				log = append(log, "merge")
			}
			if s.Intn(3) == 0 || n == 1 {
				a := append([]byte(nil), set.ToBytes()...)
				log = append(log, "serialise")
				if got, want := vLines(a), model.text(); got != want || len(a) > 0 && a[len(a)-1] != '\n' {
					t.Fatalf("after %q the set is %q, want %s", log, a, want)
				}
				if b := set.ToBytes(); !bytes.Equal(a, b) {
					t.Fatalf("after %q the set is written as %q and then as %q", log, a, b)
				}
			}
			got := vModel{}
			for _, m := range set.All() {
				g := vFrom(m)
				if _, dup := got[g.key()]; dup {
					t.Fatalf("after %q %s is in the set twice", log, g.key())
				}
				got[g.key()] = g
			}
			if len(got) != len(model) {
				t.Fatalf("after %q the set has %d metrics, want %d", log, len(got), len(model))
			}
			for k, g := range got {
				if !vSame(g, model[k]) {
					t.Fatalf("after %q the set has %+v, want %+v", log, g, model[k])
				}
			}
			if e := vTails(all); e != "" {
				t.Fatalf("after %q: %s", log, e)
			}
		}
	}
}

func TestC22Metric(t *testing.T) {
	s := vnew(t)
	for s.more(100000) {
		v := s.metric()
		m := vTo(v)
		own := []*Metric{m}
		if s.Intn(2) == 0 { // a metric parsed from a message: its parts share memory
			p, err := ParseMetrics([]byte(v.text() + "\nnext 1\n"))
			if err != nil {
				t.Fatalf("%q: %v", v.text(), err)
			}
			for _, x := range p.All() {
				if w := vFrom(x); w.name != "next" {
					m, own = x, nil
				}
			}
			if v.ms < 0 {
				v.ms = 0
			}
		}
		if s.Intn(2) == 0 {
			_ = m.Labels.ToBytes()
		}
		a := append([]byte(nil), m.ToBytes()...)
		if string(a) != v.text() {
			t.Fatalf("%+v is written as %q, want %q", v, a, v.text())
		}
		if g := vFrom(m); !vSame(g, v) {
			t.Fatalf("writing %+v changed it to %+v", v, g)
		}
		if b := m.ToBytes(); !bytes.Equal(a, b) {
			t.Fatalf("%+v is written as %q and then as %q", v, a, b)
		}
		if e := vTails(own); e != "" {
			t.Fatalf("writing %+v: %s", v, e)
		}
	}
}

func TestC22With(t *testing.T) {
	s := vnew(t)
	for s.more(60000) {
		type one struct {
			l    Labels
			want [][2]string
		}
		base := one{}
		for n := s.Intn(4); n > 0; n-- {
			k, v := s.pick("b", "m", "z")+fmt.Sprint(n), s.pick("", "x")
			base.l = append(base.l, NewLabel(k, v))
			base.want = append(base.want, [2]string{k, v})
		}
		if s.Intn(2) == 0 { // with room behind
			base.l = append(make(Labels, 0, len(base.l)+s.Intn(4)), base.l...)
		}
		sets := []one{base}
		for n := s.Intn(6) + 1; n > 0; n-- {
			from := sets[s.Intn(len(sets))]
			if s.Intn(3) == 0 {
				_ = from.l.ToBytes()
			}
			k, v := s.pick("a", "c", "n", "zz")+fmt.Sprint(n)+"w", s.pick("1", "2", "")
			sets = append(sets, one{from.l.With(k, v), append(append([][2]string(nil), from.want...), [2]string{k, v})})
			for i, o := range sets {
				got := vMetric{labels: vFrom(&Metric{Labels: o.l}).labels}
				if want := (vMetric{labels: o.want}); got.key() != want.key() {
					t.Fatalf("after adding %s=%q to label set of %v, label set %d is %v, want %v", k, v, from.want, i, got.labels, want.labels)
				}
			}
		}
		for i, o := range sets {
			w := vMetric{labels: o.want}.text()
			w = w[:len(w)-2]
			if len(o.want) == 0 {
				w = "{}"
			}
			if got := string(o.l.ToBytes()); got != w {
				t.Fatalf("label set %d is written as %s, want %s", i, got, w)
			}
		}
	}
}
