package influx

import "testing"

func TestC26Bytes(t *testing.T) {
	s := vnew(t)
	for s.more(3000000) {
		b := s.junk(12)
		until := []byte(s.pick(" ", "=", ", ", ",= ", ",", ""))
		s.calm(b, func() {
			Token(b, until)
			TokenEscaped(b, until)
			QuotedString(b)
			Unescape(b)
			Escape(b, until)
			EscapeTagPart(b)
			EscapeMeasurement(b)
			EscapeQuotedString(b)
			ExtractNanos(b)
			if ts, off := ExtractTimestamp(b); off >= 0 {
				SafeCalcTime(ts, s.pick("n", "u", "ms", "s", "m", "h", "", "x"))
			}
			if _, tags, _, err := ParseTags(b); err == nil {
				tags.Bytes()
				tags.SubsetOf(tags)
				if len(tags) > 1 {
					tags.SubsetOf(tags[1:])
					tags[1:].SubsetOf(tags)
				}
			}
		})
	}
}
