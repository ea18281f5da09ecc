package monitor

import (
	"io/ioutil"
	"log"
	"testing"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/prometheus"
)

func TestC26Bytes(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	for s.more(100000) {
		m := &Monitor{metrics: prometheus.NewMetricSet()}
		var all []string
		for n := s.Intn(4); n >= 0; n-- {
			b := s.junk(10)
			all = append(all, string(b))
			s.calm(all, func() {
				m.receiveMetrics(&nats.Msg{Data: b})
				m.metrics.ToBytes()
			})
		}
	}
}
