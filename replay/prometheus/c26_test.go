package prometheus

import "testing"

func TestC26Bytes(t *testing.T) {
	s := vnew(t)
	for s.more(2000000) {
		b := s.junk(10)
		s.calm(b, func() {
			ParseMetric(b)
			set, err := ParseMetrics(b)
			if err == nil {
				set.UpdateFromSet(set)
				set.ToBytes()
			}
		})
	}
}
