package downsampler

import (
	"testing"
	"time"
)

func TestC26Bytes(t *testing.T) {
	s := vnew(t)
	for s.more(200000) {
		c := &vclock{time.Now()}
		a := newAssigner([]time.Duration{time.Second, time.Minute, time.Hour}[s.Intn(3)], newAvgBucket, c)
		var all []string
		for n := s.Intn(8); n >= 0; n-- {
			b := s.junk(25)
			all = append(all, string(b))
			s.calm(all, func() {
				for _, err := range a.Update(b) {
					_ = err.Error()
				}
				c.now = c.now.Add(time.Duration(s.Intn(int(a.period))))
				a.Bytes()
			})
		}
		s.calm(all, func() {
			for i := 0; i < 3; i++ {
				c.now = c.now.Add(a.period)
				a.Bytes()
			}
		})
	}
}
