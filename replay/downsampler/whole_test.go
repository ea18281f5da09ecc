package downsampler

import (
	"fmt"
	"io/ioutil"
	"log"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// TestC23WholeDownsampler compares the counters a downsampler publishes with what it
// received and published.
func TestC23WholeDownsampler(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(8) {
		n := vbus(t, 1<<20)
		c := &config.Config{
			Name: fmt.Sprintf("n%d", s.Intn(1000)), Mode: "downsampler", NATSAddress: n.url,
			NATSSubject:        []string{fmt.Sprintf("in%d", s.Intn(100)), fmt.Sprintf("more%d", s.Intn(100))}[:1+s.Intn(2)],
			NATSSubjectMonitor: fmt.Sprintf("mon%d", s.Intn(100)), NATSMaxPendingSize: 200 << 20, DownsampleSuffix: "-x",
			DownsamplePeriod: config.NewDuration(time.Duration(800+s.Intn(3)*100) * time.Millisecond), StatsInterval: config.NewDuration(5 * time.Millisecond),
		}
		begun := time.Now()
		d, err := StartDownsampler(c)
		if err != nil {
			t.Fatalf("config %+v: %v", c, err)
		}
		want := map[string]int{"received": 0, "sent": 0, "invalid_lines": 0, "invalid_timestamps": 0, "failed_nats_publish": 0}
		for _, sub := range c.NATSSubject {
			n.subscribed(sub)
			want[`nats_dropped,subject="`+sub+`"`] = 0
			for k := s.Intn(20); k >= 0; k-- {
				m := fmt.Sprintf("cpu,a=%d v=%di\n", s.Intn(5), s.Intn(100))
				for s.Intn(4) == 0 {
					m += "cpu v\n"
					want["invalid_lines"]++
				}
				for s.Intn(4) == 0 {
					m += fmt.Sprintf("cpu v=1i %d\n", time.Now().Add(time.Hour*time.Duration(1-s.Intn(2)*2)).UnixNano())
					want["invalid_timestamps"]++
				}
				n.publish(sub, m)
				want["received"]++
			}
		}
		bad := ""
		least := time.Now().Add(c.DownsamplePeriod.Duration)
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
			seen, wrong := n.stats(c.NATSSubjectMonitor, map[string]string{"component": "downsampler", "name": c.Name}, begun)
			want["sent"] = 0
			n.mu.Lock()
			for _, m := range n.msgs {
				for _, sub := range c.NATSSubject {
					if m.subject == sub+c.DownsampleSuffix {
						want["sent"]++
					}
				}
			}
			n.mu.Unlock()
			bad = ""
			if fmt.Sprint(seen) != fmt.Sprint(want) || wrong != "" || want["sent"] == 0 {
				bad = fmt.Sprintf("reported %v instead of %v %s", seen, want, wrong)
			}
			if bad == "" && time.Now().After(least) || time.Now().After(end) {
				break
			}
		}
		d.Stop()
		n.stop()
		if bad != "" {
			t.Fatalf("config %+v\n%s", c, bad)
		}
	}
}
