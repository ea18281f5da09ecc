package writer

import (
	"io/ioutil"
	"log"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
)

func TestC26Bytes(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	n := vbus(t, 1<<20)
	defer n.stop()
	for s.more(200) {
		f := vinfluxd(func(i int, body string) int { return []int{204, 204, 204, 500, 400, 0}[i%6] })
		c := f.conf(n)
		switch s.Intn(4) {
		case 0:
			c.Rule = []config.Rule{{Rtype: "basic", Match: "cpu"}, {Rtype: "tags", Tags: [][]string{{"a", "1"}, {"b", "1"}}}}
		case 1:
			c.Rule = []config.Rule{{Rtype: "negregex", Match: "b=1"}, {Rtype: "tags", Tags: [][]string{{"host", "a"}}}}
		case 2:
			c.Rule = []config.Rule{{Rtype: "regex", Match: "^cpu,.*=1"}}
		}
		c.BatchMaxCount = 1 + s.Intn(6)
		c.BatchMaxSize = datasize.ByteSize(1 + s.Intn(150))
		c.WriterRetryBatches = s.Intn(4)
		c.WriterRetryInterval = config.NewDuration(time.Millisecond)
		c.WriterRetryTimeout = config.NewDuration(50 * time.Millisecond)
		w, err := StartWriter(c)
		if err != nil {
			t.Skip("writer does not start:", err)
		}
		// a panic in the worker's goroutine ends the test
		for i := 0; i < 150; i++ {
			n.publish("in", string(s.junk(25)))
		}
		for i := 0; i < 20; i++ {
			n.publish("in", "cpu,a=1,b=1,host=a done=1\ncpu,a=1 done=1\n")
		}
		for i := 0; i < 500; i++ {
			done := false
			for _, r := range f.all() {
				done = done || strings.Contains(r.body, "done=1")
			}
			if done {
				break
			}
			time.Sleep(time.Millisecond)
		}
		w.Stop()
		n.take("monitor")
		f.srv.Close()
	}
}
