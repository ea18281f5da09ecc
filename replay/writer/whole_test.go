package writer

import (
	"fmt"
	"io/ioutil"
	"log"
	"strconv"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// TestC23WholeWriter compares the counters a writer publishes with what it received
// and requested.
func TestC23WholeWriter(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(200) {
		n := vbus(t, 1<<20)
		p := 1 + s.Intn(4)
		f := vinfluxd(func(i int, body string) int {
			if i%p == 0 {
				return 204
			}
			return []int{500, 400, 503}[i%3]
		})
		c := f.conf(n)
		c.Name = fmt.Sprintf("n%d", s.Intn(1000))
		c.DBName = fmt.Sprintf("db%d", s.Intn(1000))
		c.NATSSubject = []string{fmt.Sprintf("in%d", s.Intn(100)), fmt.Sprintf("more%d", s.Intn(100))}[:1+s.Intn(2)]
		c.NATSSubjectMonitor = fmt.Sprintf("mon%d", s.Intn(100))
		c.StatsInterval = config.NewDuration(5 * time.Millisecond)
		c.Workers = 1 + s.Intn(3)
		if s.Intn(3) == 0 {
			c.QueueGroup = "group"
		}
		begun := time.Now()
		w, err := StartWriter(c)
		if err != nil {
			t.Skip("writer does not start:", err)
		}
		sent := 0
		for _, sub := range c.NATSSubject {
			n.subscribed(sub)
			for k := s.Intn(20); k >= 0; k-- {
				n.publish(sub, "cpu v="+strconv.Itoa(s.Intn(100))+"i\n")
				sent++
			}
		}
		bad := ""
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
			reqs := f.all()
			seen, wrong := n.stats(c.NATSSubjectMonitor, map[string]string{"component": "writer", "name": c.Name,
				"influxdb_address": c.InfluxDBAddress, "influxdb_port": strconv.Itoa(c.InfluxDBPort), "influxdb_dbname": c.DBName}, begun)
			want := map[string]int{"received": sent, "write_requests": sent, "failed_writes": 0}
			for _, r := range reqs {
				if r.status/100 != 2 {
					want["failed_writes"]++
				}
			}
			for _, sub := range c.NATSSubject {
				want[`nats_dropped,subject="`+sub+`"`] = 0
			}
			bad = ""
			if len(reqs) != sent || fmt.Sprint(seen) != fmt.Sprint(want) || wrong != "" {
				bad = fmt.Sprintf("%d requests, reported %v instead of %v %s", len(reqs), seen, want, wrong)
			}
			if bad == "" || time.Now().After(end) {
				break
			}
		}
		w.Stop()
		f.srv.Close()
		n.stop()
		if bad != "" {
			t.Fatalf("config %+v\n%s", c, bad)
		}
	}
}
