package probes

import (
	"fmt"
	"net"
	"net/http"
	"strings"
	"testing"
	"time"
)

func vfree(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback network:", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// TestC25Probes sets states in every order and asks for them.
func TestC25Probes(t *testing.T) {
	s := vnew(t)
	for s.more(30) {
		port := vfree(t)
		p := Listen(port)
		c := &http.Client{Timeout: 10 * time.Second}
		get := func(path string) int {
			for i := 0; ; i++ {
				r, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d%s", port, path))
				if err == nil {
					r.Body.Close()
					return r.StatusCode
				}
				if i > 100 {
					t.Skip("no answer:", err)
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		status := map[bool]int{true: 200, false: 503}
		alive, ready := true, false
		var log []string
		for i := 0; i < 40; i++ {
			for _, path := range []string{"/healthz", "/readyz"} {
				want := status[alive]
				if path == "/readyz" {
					want = status[ready]
				}
				if got := get(path); got != want {
					t.Fatalf("port %d: %s answers %d, expected %d, after %s", port, path, got, want, strings.Join(log, ", "))
				}
			}
			v := s.Intn(2) == 0
			if s.Intn(2) == 0 {
				p.SetAlive(v)
				alive = v
				log = append(log, fmt.Sprintf("SetAlive(%v)", v))
			} else {
				p.SetReady(v)
				ready = v
				log = append(log, fmt.Sprintf("SetReady(%v)", v))
			}
		}
		p.Close()
	}
	time.Sleep(50 * time.Millisecond)
	for _, port := range []int{0, -1, -40000} {
		p := Listen(port)
		p.SetAlive(false)
		p.SetReady(true)
		p.SetAlive(true)
		time.Sleep(20 * time.Millisecond)
		for _, l := range vlistening() {
			t.Fatalf("Listen(%d) listens on port %d", port, l)
		}
		p.Close()
	}
}
