package stats

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/prometheus"
)

func TestC23Sequential(t *testing.T) {
	s := vnew(t)
	for s.more(40000) {
		var names []string
		for n := s.Intn(5) + 1; n > 0; n-- {
			names = append(names, s.pick("a", "b", "received", "x")+fmt.Sprint(n))
		}
		st, an := New(names...), NewAnon(len(names))
		want := make([]uint64, len(names))
		var log []string
		for n := s.Intn(20); n > 0; n-- {
			i := s.Intn(len(names))
			var r, r2 uint64
			switch s.Intn(3) {
			case 0:
				want[i]++
				r, r2 = st.Inc(names[i]), an.Inc(i)
				log = append(log, "inc "+names[i])
			default:
				v := uint64(s.Intn(12))
				if s.Intn(4) == 0 {
					v = s.Uint64() >> uint(s.Intn(64))
				}
				if v == 1<<64-1 {
					v--
				}
				if v > want[i] {
					want[i] = v
				}
				r, r2 = st.Max(names[i], v), an.Max(i, v)
				log = append(log, fmt.Sprintf("max %s %d", names[i], v))
			}
			if r != want[i] || r2 != want[i] {
				t.Fatalf("after %v the result is %d / %d, want %d", log, r, r2, want[i])
			}
			for j, k := range names {
				if st.Get(k) != want[j] || an.Get(j) != want[j] {
					t.Fatalf("after %v counter %s is %d / %d, want %d", log, k, st.Get(k), an.Get(j), want[j])
				}
			}
		}
		as := an.Snapshot()
		snap := st.Snapshot()
		seen := map[string]uint64{}
		for _, p := range snap {
			if _, ok := seen[p.Name]; ok {
				t.Fatalf("%s is in the snapshot twice", p.Name)
			}
			seen[p.Name] = p.Value
		}
		if len(seen) != len(names) || len(as) != len(names) {
			t.Fatalf("snapshots have %d and %d of %d counters", len(seen), len(as), len(names))
		}
		for j, k := range names {
			if v, ok := seen[k]; !ok || v != want[j] || as[j] != want[j] {
				t.Fatalf("after %v the snapshots have %d / %d for %s, want %d", log, v, as[j], k, want[j])
			}
		}
		now := time.Unix(s.Int63n(4000000000), s.Int63n(1000000000))
		if s.Intn(5) == 0 {
			now = time.Unix(0, s.Int63n(5000000))
		}
		var labels prometheus.Labels
		var ls []string
		for n := s.Intn(3); n > 0; n-- {
			k, v := fmt.Sprint("l", n), s.pick("x", "", "y z")
			labels = append(labels, prometheus.NewLabel(k, v))
			ls = append([]string{k + `="` + v + `"`}, ls...)
		}
		sort.Strings(ls)
		lt, ms := "", ""
		if len(ls) > 0 {
			lt = "{" + strings.Join(ls, ",") + "}"
		}
		if n := now.UnixNano() / 1000000; n > 0 {
			ms = fmt.Sprint(" ", n)
		}
		var exp []string
		for j, k := range names {
			exp = append(exp, fmt.Sprint(k, lt, " ", int64(want[j]), ms))
		}
		sort.Strings(exp)
		out := string(SnapshotToPrometheus(snap, now, labels))
		got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(exp, "\n") {
			t.Fatalf("the snapshot %v with labels %v at %v is exported as %q, want %q", snap, ls, now, got, exp)
		}
		v := s.Int()
		if o, w := string(CounterToPrometheus("n1", v, now, labels)), fmt.Sprint("n1", lt, " ", v, ms); o != w {
			t.Fatalf("counter n1 %d is exported as %q, want %q", v, o, w)
		}
		SetHostname("hh")
		if o, w := string(NewLabels("c", "n").ToBytes()), `{component="c",host="hh",name="n"}`; o != w {
			t.Fatalf("NewLabels gives %s, want %s", o, w)
		}
	}
}

func TestC23Concurrent(t *testing.T) {
	s := vnew(t)
	for s.more(400) {
		const G, N = 8, 2500
		st := New("a", "b", "m")
		var wg sync.WaitGroup
		stop := make(chan bool)
		bad := make(chan string, 100)
		watch := make(chan bool)
		go func() {
			defer close(watch)
			last := map[string]uint64{}
			for {
				for _, p := range st.Snapshot() {
					if p.Value < last[p.Name] {
						bad <- fmt.Sprintf("counter %s went from %d to %d", p.Name, last[p.Name], p.Value)
						return
					}
					last[p.Name] = p.Value
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		for g := 0; g < G; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < N; i++ {
					st.Inc("a")
					if i%2 == 0 {
						st.Inc("b")
					}
					v := uint64(i*G + (g*7+i)%G)
					if r := st.Max("m", v); r < v {
						bad <- fmt.Sprintf("Max(%d) returned %d", v, r)
						return
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		<-watch
		select {
		case e := <-bad:
			t.Fatal(e)
		default:
		}
		max := uint64(0)
		for g := 0; g < G; g++ {
			if v := uint64((N-1)*G + (g*7+N-1)%G); v > max {
				max = v
			}
		}
		if a, b, m := st.Get("a"), st.Get("b"), st.Get("m"); a != G*N || b != G*N/2 || m != max {
			t.Fatalf("%d goroutines: counters are %d, %d, %d, want %d, %d, %d", G, a, b, m, G*N, G*N/2, max)
		}
	}
}
