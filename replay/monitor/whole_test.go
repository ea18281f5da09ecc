package monitor

import (
	"fmt"
	"io/ioutil"
	"log"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// TestC22WholeMonitor publishes metrics for a running monitor and compares what it
// serves with the latest of each.
func TestC22WholeMonitor(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(100) {
		n := vbus(t, 1<<20)
		c := &config.Config{
			Name: fmt.Sprintf("n%d", s.Intn(1000)), Mode: "monitor", NATSAddress: n.url,
			NATSSubject: []string{"in"}, NATSSubjectMonitor: fmt.Sprintf("mon%d", s.Intn(100)), NATSMaxPendingSize: 200 << 20,
			Port: vport(s),
		}
		m, err := Start(c)
		if err != nil {
			t.Fatalf("config %+v: %v", c, err)
		}
		n.subscribed(c.NATSSubjectMonitor)
		latest := map[string]string{}
		var msgs []string
		for k := s.Intn(30); k >= 0; k-- {
			msg, good := "", true
			upd := map[string]string{}
			for j := s.Intn(5); j >= 0; j-- {
				key := s.pick("a", "b", "received")
				labels := map[string]string{}
				for _, l := range []string{"component", "host", "name"} {
					if s.Intn(2) == 0 {
						labels[l] = s.pick("x", "y", "")
					}
				}
				var in, out []string
				for l, v := range labels { // in any order
					in = append(in, l+`="`+v+`"`)
				}
				out = append(out, in...)
				sort.Strings(out)
				raw, full := key, key
				if len(in) > 0 {
					raw += "{" + strings.Join(in, ",") + "}"
					full += "{" + strings.Join(out, ",") + "}"
				}
				val := fmt.Sprintf(" %d", s.Intn(100)-20)
				if s.Intn(2) == 0 {
					val += fmt.Sprintf(" %d", 1+s.Intn(1000))
				}
				upd[full] = full + val
				msg += raw + val + "\n"
			}
			if s.Intn(8) == 0 {
				msg += s.pick("junk", "a{ 1\n", `a{h="x} 1`, "a 1 b\n")
				good = false
			}
			msgs = append(msgs, msg)
			n.publish(c.NATSSubjectMonitor, msg)
			n.publish("in", "other 5\n")
			if good {
				for k, v := range upd {
					latest[k] = v
				}
			}
		}
		last := `end{x="y"} 1`
		latest["end"] = last
		n.publish(c.NATSSubjectMonitor, last+"\n")
		var want []string
		for _, v := range latest {
			want = append(want, v)
		}
		sort.Strings(want)
		bad := ""
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(2 * time.Millisecond) {
			resp, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", c.Port))
			if err != nil {
				bad = err.Error()
			} else {
				b, _ := ioutil.ReadAll(resp.Body)
				resp.Body.Close()
				got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
				sort.Strings(got)
				bad = ""
				if resp.StatusCode != 200 || strings.Join(got, "\n") != strings.Join(want, "\n") {
					bad = fmt.Sprintf("serves (%d) %q instead of %q", resp.StatusCode, got, want)
				}
			}
			if bad == "" || time.Now().After(end) {
				break
			}
		}
		m.Stop()
		n.stop()
		if bad != "" {
			t.Fatalf("config %+v\nmessages %q\n%s", c, msgs, bad)
		}
	}
}
