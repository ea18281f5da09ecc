package batchsplitter

import (
	"bytes"
	"testing"
	"time"
)

func vCheckSplit(t *testing.T, in []byte, size int) {
	orig := string(in)
	done := make(chan string, 1)
	go func() { done <- vSplit(in, orig, size) }()
	select {
	case e := <-done:
		if e != "" {
			t.Fatalf("batch %q, chunk size %d: %s", orig, size, e)
		}
	case <-time.After(10 * time.Second):
		t.Fatalf("batch %q, chunk size %d: splitting doesn't end", orig, size)
	}
}

func vSplit(in []byte, orig string, size int) string {
	s := New(in, size)
	rest := []byte(orig)
	for i := 0; s.Next(); i++ {
		c := s.Chunk()
		if len(c) == 0 || len(c) > size {
			return "chunk of bad length " + string(c)
		}
		if !bytes.HasPrefix(rest, c) {
			return "chunk isn't what follows: " + string(c)
		}
		want := len(rest)
		if want > size {
			want = bytes.LastIndexByte(rest[:size], '\n') + 1
			if want == 0 {
				want = size
			}
		}
		if len(c) != want {
			return "chunk ends in the wrong place: " + string(c)
		}
		rest = rest[len(c):]
	}
	if len(rest) > 0 {
		return "lost " + string(rest)
	}
	if s.Next() {
		return "Next is true after the end"
	}
	if string(in) != orig {
		return "the batch was modified"
	}
	return ""
}

func TestC02(t *testing.T) {
	venum("a\n", 8, func(b []byte) {
		for size := 1; size <= 10; size++ {
			vCheckSplit(t, append([]byte(nil), b...), size)
		}
	})
	s := vnew(t)
	for s.more(30000) {
		vCheckSplit(t, s.bytes("abc\n", 200), 1+s.Intn(220))
	}
}
