package monitor

import (
	"testing"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/prometheus"
)

// TestC21Messages checks that the monitor only takes over messages all
// of whose lines are well formed.
func TestC21Messages(t *testing.T) {
	s := vnew(t)
	for s.more(20000) {
		m := &Monitor{metrics: prometheus.NewMetricSet()}
		want := map[string]string{}
		show := func() map[string]string {
			got := map[string]string{}
			for _, x := range m.metrics.All() {
				b := string(x.ToBytes())
				got[string(x.Name)] = b
			}
			return got
		}
		var log []string
		for n := s.Intn(5) + 1; n > 0; n-- {
			msg, upd, good := "", map[string]string{}, true
			for k := s.Intn(4); k >= 0; k-- {
				name := s.pick("a", "b", "c")
				l := name + `{h="x"} ` + s.pick("1", "2", "-3", "44")
				if s.Intn(5) == 0 {
					l = s.pick("junk", "a", "a ", "a x", "a{ 1", `a{h="x} 1`, `a{h="x"}1`, "a 1 b", "a 99999999999999999999", `a{h="x"};1`)
					good = false
				} else {
					upd[name] = l
				}
				msg += l + s.pick("\n", "\n\n")
			}
			log = append(log, msg)
			m.receiveMetrics(&nats.Msg{Data: []byte(msg)})
			if good {
				for k, v := range upd {
					want[k] = v
				}
			}
			got := show()
			same := len(got) == len(want)
			for k, v := range want {
				same = same && got[k] == v
			}
			if !same {
				t.Fatalf("after messages %q the monitor has %q, want %q", log, got, want)
			}
		}
	}
}
