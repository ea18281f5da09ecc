package monitor

import (
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/probes"
	"github.com/jumptrading/influx-spout/v2/prometheus"
)

// TestC27Race receives messages while being scraped: what is scraped is never
// part of a message.
func TestC27Race(t *testing.T) {
	s := vnew(t)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback network:", err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	ln.Close()
	m := &Monitor{
		c:       &config.Config{Port: port},
		stop:    make(chan struct{}),
		probes:  probes.Listen(0),
		metrics: prometheus.NewMetricSet(),
	}
	m.wg.Add(1)
	go m.serveHTTP()
	get := func() (string, error) {
		r, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", port))
		if err != nil {
			return "", err
		}
		defer r.Body.Close()
		b, err := ioutil.ReadAll(r.Body)
		return string(b), err
	}
	up := false
	for i := 0; i < 500 && !up; i++ {
		_, err := get()
		up = err == nil
		time.Sleep(10 * time.Millisecond)
	}
	if !up {
		t.Skip("no answer on the loopback network")
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	const rounds = 400
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for i := 1; i <= rounds; i++ {
				msg := ""
				for k := 0; k < 6; k++ {
					msg += fmt.Sprintf("m%d{k=\"%d\"} %d\n", g, k, i)
				}
				if i%10 == 3 {
					m.receiveMetrics(&nats.Msg{Data: []byte(msg + "junk")})
				}
				m.receiveMetrics(&nats.Msg{Data: []byte(msg)})
			}
		}(g)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				b, err := get()
				if err != nil {
					continue
				}
				seen := map[string]string{}
				for _, l := range strings.Split(strings.TrimSpace(b), "\n") {
					f := strings.Fields(l)
					if len(f) != 2 {
						continue
					}
					name := f[0][:strings.IndexByte(f[0], '{')]
					if v, ok := seen[name]; ok && v != f[1] {
						mu.Lock()
						bad = b
						mu.Unlock()
					}
					seen[name] = f[1]
				}
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("messages or scrapes hang: a lock is not released")
	}
	if bad != "" {
		t.Fatalf("a scrape shows part of a message:\n%s", bad)
	}
	b, err := get()
	if err == nil && strings.Count(b, fmt.Sprintf(" %d\n", rounds)) != 24 {
		t.Fatalf("after all messages the metrics are\n%s", b)
	}
	close(m.stop)
	m.wg.Wait()
	_ = s
}
