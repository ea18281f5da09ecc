package influx

import (
	"bytes"
	"testing"
)

// oTimestamp is the integer after the last space of a line without its newline.
func oTimestamp(line []byte) (ts int64, off int, spaces int) {
	if len(line) < 6 {
		return -1, -1, 1
	}
	l := line
	if l[len(l)-1] == '\n' {
		l = l[:len(l)-1]
	}
	from := len(l) - 20
	if from < 0 {
		from = 0
	}
	spaces = bytes.Count(l[from:], []byte(" "))
	p := bytes.LastIndexByte(l, ' ')
	if p < from {
		return -1, -1, spaces
	}
	n, ok := oInt(l[p+1:])
	if !ok {
		return -1, -1, spaces
	}
	return n, p + 1, spaces
}

func vCheckTimestamp(t *testing.T, line []byte) {
	orig := string(line)
	wts, woff, spaces := oTimestamp([]byte(orig))
	ts, off := ExtractTimestamp(line)
	if off != woff || ts != wts {
		t.Fatalf("ExtractTimestamp(%q) = %d, %d; expected %d, %d", orig, ts, off, wts, woff)
	}
	if spaces <= 1 {
		ts, off = ExtractNanos(line)
		if off != woff || ts != wts {
			t.Fatalf("ExtractNanos(%q) = %d, %d; expected %d, %d", orig, ts, off, wts, woff)
		}
	}
	if string(line) != orig {
		t.Fatalf("the line %q was modified", orig)
	}
}

func TestC07Timestamp(t *testing.T) {
	if MaxTsLen != 19 {
		t.Fatalf("MaxTsLen is %d", MaxTsLen)
	}
	venum("1 -\nx", 8, func(b []byte) { vCheckTimestamp(t, b) })
	s := vnew(t)
	for s.more(300000) {
		var l []byte
		l = append(l, s.bytes("ab=, ,1", 30)...)
		if s.Intn(4) > 0 {
			l = append(l, ' ')
		}
		switch s.Intn(5) {
		case 0:
			l = append(l, s.bytes("0123456789", 22)...)
		case 1:
			l = append(l, s.bytes("0123456789-", 22)...)
		case 2:
			l = append(l, s.bytes("0123456789-+. x", 22)...)
		case 3:
			n := s.pick("9223372036854775807", "9223372036854775808", "9999999999999999999", "-922337203685477580", "-9223372036854775808", "0", "-0", "-", "+1", "1500000000000000000", "00000000000000000001", "0000000000000000001", "1e5", "1.5", "0x1")
			l = append(l, n...)
		}
		for i := s.Intn(5); i > 3; i-- {
			l = append(l, '\n')
		}
		if s.Intn(3) == 0 {
			l = append(l, s.pick("\n", "\n\n", "\r\n", " \n", " ")...)
		}
		vCheckTimestamp(t, l)
	}
}
