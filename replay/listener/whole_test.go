package listener

import (
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

// listenerWhole starts a listener from a configuration, sends it payloads over the
// loopback network and looks at what it publishes: the bytes (what 0), how they are
// cut into messages (what 1), the counters (what 2).
func listenerWhole(t *testing.T, what int) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(160) {
		bus := vbus(t, 1<<20)
		udp := what == 1 || s.Intn(2) == 0
		out, mon := fmt.Sprintf("out%d", s.Intn(1000)), fmt.Sprintf("mon%d", s.Intn(1000))
		count := 1 + s.Intn(4)
		conf := &config.Config{
			Name: fmt.Sprintf("n%d", s.Intn(1000)), NATSAddress: bus.url, NATSSubject: []string{out}, NATSSubjectMonitor: mon,
			BatchMaxCount: count, BatchMaxSize: datasize.ByteSize(1<<20 - s.Intn(1<<19)), BatchMaxAge: config.NewDuration(time.Hour),
			ReadBufferSize: 4 * datasize.MB, StatsInterval: config.NewDuration(5 * time.Millisecond),
			Port: vport(s),
		}
		var l *Listener
		var err error
		begun := time.Now()
		if udp {
			conf.Mode = "listener"
			l, err = StartListener(conf)
		} else {
			conf.Mode = "listener_http"
			conf.BatchMaxAge = config.NewDuration(20 * time.Millisecond)
			l, err = StartHTTPListener(conf)
		}
		if err != nil {
			bus.stop()
			continue
		}
		c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
		if err != nil {
			t.Skip(err)
		}
		var payloads, expected []string
		want := ""
		for k := count * (1 + s.Intn(6)); k > 0; k-- {
			p, e := "", ""
			prec := s.pick("", "", "ns", "s", "ms")
			if udp {
				prec = ""
			}
			for n := s.Intn(20); n >= 0; n-- {
				line := fmt.Sprintf("m%d,a=%d v=%di", s.Intn(10), s.Intn(10), s.Intn(1000))
				ts := 1500000000 + s.Intn(1000)
				switch {
				case s.Intn(3) == 0:
					p += line + "\n"
					e += line + "\n"
				case prec == "s":
					p += fmt.Sprintf("%s %d\n", line, ts)
					e += fmt.Sprintf("%s %d000000000\n", line, ts)
				case prec == "ms":
					p += fmt.Sprintf("%s %d123\n", line, ts)
					e += fmt.Sprintf("%s %d123000000\n", line, ts)
				default:
					p += fmt.Sprintf("%s %d123456789\n", line, ts)
					e += fmt.Sprintf("%s %d123456789\n", line, ts)
				}
			}
			if s.Intn(3) == 0 && (prec == "" || prec == "ns") {
				p = strings.TrimSuffix(p, "\n")
			}
			payloads = append(payloads, prec+": "+p)
			expected = append(expected, e)
			want += e
			if udp {
				if _, err := c.Write([]byte(p)); err != nil {
					t.Skip(err)
				}
				continue
			}
			u := fmt.Sprintf("http://127.0.0.1:%d/write?db=x", conf.Port)
			if prec != "" {
				u += "&precision=" + prec
			}
			var resp *http.Response
			for i := 0; i < 2000; i++ { // (the server starts in the background)
				if resp, err = http.Post(u, "text/plain", strings.NewReader(p)); err == nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			if err != nil {
				t.Fatalf("config %+v: no answer: %v", conf, err)
			}
			resp.Body.Close()
			if resp.StatusCode != 204 {
				t.Fatalf("config %+v: status %d", conf, resp.StatusCode)
			}
		}
		bad := ""
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
			seen, wrong := bus.stats(mon, map[string]string{"component": "listener", "name": conf.Name}, begun)
			var msgs []string
			other := ""
			bus.mu.Lock()
			for _, m := range bus.msgs {
				if m.subject == out {
					msgs = append(msgs, m.data)
				} else if m.subject != mon {
					other = fmt.Sprintf("message on %q", m.subject)
				}
			}
			bus.mu.Unlock()
			bad = ""
			switch what {
			case 0:
				got := strings.Join(msgs, "")
				if !udp { // (the last newline of a message may be missing)
					got = ""
					for _, m := range msgs {
						got += strings.TrimSuffix(m, "\n") + "\n"
					}
				}
				if got != want {
					bad = vdiff(got, want)
				}
			case 1:
				var cut []string
				for i := 0; i < len(expected); i += count {
					cut = append(cut, strings.Join(expected[i:i+count], ""))
				}
				if fmt.Sprintf("%q", msgs) != fmt.Sprintf("%q", cut) {
					bad = fmt.Sprintf("messages %.2000q instead of %.2000q", msgs, cut)
				}
			case 2:
				counts := map[string]int{"received": len(payloads), "sent": len(msgs), "read_errors": 0, "failed_nats_publish": 0}
				if fmt.Sprint(seen) != fmt.Sprint(counts) || wrong != "" || len(msgs) == 0 {
					bad = fmt.Sprintf("reported %v instead of %v %s", seen, counts, wrong)
				}
			}
			if bad == "" {
				bad = other
			}
			if bad == "" || time.Now().After(end) {
				break
			}
		}
		done := make(chan bool)
		go func() {
			l.Stop()
			close(done)
		}()
		for stopped := false; !stopped; {
			c.Write([]byte("end\n")) // a listener waiting for a datagram notices that it is stopped
			select {
			case <-done:
				stopped = true
			case <-time.After(2 * time.Millisecond):
			}
		}
		c.Close()
		bus.stop()
		if bad != "" {
			t.Fatalf("config %+v\npayloads %.3000q\n%s", conf, payloads, bad)
		}
	}
}

func TestC01WholeListener(t *testing.T) { listenerWhole(t, 0) }
func TestC05WholeListener(t *testing.T) { listenerWhole(t, 1) }
func TestC23WholeListener(t *testing.T) { listenerWhole(t, 2) }
func TestC06WholeListener(t *testing.T) { listenerWhole(t, 0) }
