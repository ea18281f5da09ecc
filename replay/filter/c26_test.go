package filter

import (
	"io/ioutil"
	"log"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

func TestC26Bytes(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(200000) {
		var rules []config.Rule
		for i := s.Intn(5); i > 0; i-- {
			rules = append(rules, genRule(s, len(rules)))
		}
		r := newRig(t, rules, time.Duration(1+s.Intn(3))*30*time.Minute)
		r.conn.fail = func() bool { return s.Intn(5) == 0 }
		var all []string
		for n := s.Intn(6); n >= 0; n-- {
			b := s.junk(25)
			all = append(all, string(b))
			s.calm(all, func() { r.w.processBatch(b) })
		}
		r.conn.pubs = nil
	}
}
