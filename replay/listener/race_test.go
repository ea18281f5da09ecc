package listener

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// TestC27Race sends requests concurrently: none may be lost or torn.
func TestC27Race(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1048576)
	defer n.stop()
	for round := 0; round < 6 && s.more(6); round++ {
		l := vlistener(t, n, s.Intn(20)+1, 1048576, time.Duration(s.Intn(5)+1)*time.Millisecond)
		l.setupHTTP()
		var wg sync.WaitGroup
		var want []string
		for g := 0; g < 8; g++ {
			for k := 0; k < 40; k++ {
				want = append(want, fmt.Sprintf("m%d_%d f=1 7000000000", g, k))
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 40; k += 2 {
					ts, q := "7000000000", ""
					if g%2 == 1 {
						ts, q = "7", "?precision=s"
					}
					body := fmt.Sprintf("m%d_%d f=1 %s\nm%d_%d f=1 %s", g, k, ts, g, k+1, ts)
					if k%4 == 0 {
						body += "\n"
					}
					vpost(l, q, &vbody{[]byte(body), 7, nil})
				}
			}(g)
		}
		done := make(chan bool)
		go func() {
			wg.Wait()
			// what's left is sent for its age
			for i := 0; i < 5000; i++ {
				l.mu.Lock()
				size := l.batch.Size()
				l.mu.Unlock()
				if size == 0 {
					break
				}
				time.Sleep(time.Millisecond)
			}
			l.Stop()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			t.Fatal("requests hang: a lock is not released")
		}
		time.Sleep(20 * time.Millisecond)
		var got []string
		for _, m := range n.take("out") {
			got = append(got, strings.Split(strings.TrimSuffix(m, "\n"), "\n")...)
		}
		sort.Strings(got)
		sort.Strings(want)
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i >= len(want) || got[i] != want[i] {
				g, w := "nothing", "nothing"
				if i < len(got) {
					g = got[i]
				}
				if i < len(want) {
					w = want[i]
				}
				t.Fatalf("concurrent requests: sent %q where %q is expected (%d and %d lines)", g, w, len(got), len(want))
			}
		}
	}
}
