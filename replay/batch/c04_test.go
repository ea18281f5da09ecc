package batch

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"
)

// vReader delivers prepared datagrams, one for each call of Read.
type vReader struct {
	parts [][]byte
	small int // the smallest buffer it was given
	errs  bool
}

func (r *vReader) Read(p []byte) (int, error) {
	if r.small < 0 || len(p) < r.small {
		r.small = len(p)
	}
	if len(r.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.parts[0])
	r.parts[0] = r.parts[0][n:]
	if len(r.parts[0]) == 0 {
		r.parts = r.parts[1:]
	}
	if r.errs {
		return n, errors.New("some error")
	}
	return n, nil
}

type vClock struct{ now time.Time }

func (c *vClock) Now() time.Time                  { return c.now }
func (c *vClock) Since(t time.Time) time.Duration { return c.now.Sub(t) }

func TestC04(t *testing.T) {
	s := vnew(t)
	clk := &vClock{time.Unix(1000, 0)}
	clock = clk
	for s.more(6000) {
		capac := []int{0, 1, 5, 100, 65535, 65536, 65537, 70000, 140000}[s.Intn(9)]
		b := New(capac)
		var want []byte
		writes := 0
		first := clk.now
		hist := fmt.Sprintf("New(%d)", capac)
		fail := func(f string, a ...interface{}) { t.Fatalf("%s: %s", hist, fmt.Sprintf(f, a...)) }
		type copied struct{ got, want []byte }
		var copies []copied
		check := func() {
			if !bytes.Equal(b.Bytes(), want) {
				g := b.Bytes()
				i := 0
				for i < len(g) && i < len(want) && g[i] == want[i] {
					i++
				}
				fail("contents are wrong from byte %d on, %d bytes instead of %d", i, len(g), len(want))
			}
			if b.Size() != len(want) || b.Writes() != writes {
				fail("size %d writes %d, expected %d and %d", b.Size(), b.Writes(), len(want), writes)
			}
			if b.Remaining() < 0 || b.Remaining() != cap(b.Bytes())-len(want) {
				fail("remaining is %d", b.Remaining())
			}
			age := time.Duration(0)
			if writes > 0 {
				age = clk.now.Sub(first)
			}
			if b.Age() != age {
				fail("age is %v, expected %v", b.Age(), age)
			}
			for _, c := range copies {
				if !bytes.Equal(c.got, c.want) {
					fail("an earlier copy of the contents changed")
				}
			}
		}
		count := func() {
			if writes == 0 {
				first = clk.now
			}
			writes++
		}
		data := func() []byte {
			n := []int{0, 1, 3, 10, 1000, 65535, 65536, 70000, 200000}[s.Intn(9)]
			if s.Intn(3) > 0 {
				n = s.Intn(2000)
			}
			d := make([]byte, n)
			s.Read(d)
			if n > 0 && s.Intn(2) == 0 {
				d[n-1] = '\n'
			}
			return d
		}
		ops := s.Intn(12)
		for k := 0; k < ops; k++ {
			clk.now = clk.now.Add(time.Duration(s.Intn(1000)) * time.Millisecond)
			switch s.Intn(8) {
			case 0, 1:
				d := data()
				hist += fmt.Sprintf(", Append(%d bytes)", len(d))
				orig := append([]byte(nil), d...)
				b.Append(d)
				if !bytes.Equal(d, orig) {
					fail("Append modified its argument")
				}
				want = append(want, d...)
				count()
				for i := range d {
					d[i] = 'Z' // the batch must not share memory with it
				}
			case 2, 3:
				d := data()
				if len(d) > 65536 {
					d = d[:65536]
				}
				r := &vReader{parts: [][]byte{append([]byte(nil), d...)}, small: -1, errs: s.Intn(4) == 0}
				hist += fmt.Sprintf(", ReadOnceFrom(%d bytes)", len(d))
				if len(d) == 0 {
					r.parts = nil
				}
				n, err := b.ReadOnceFrom(r)
				if n != len(d) {
					fail("%d bytes read", n)
				}
				if r.small < 65536 {
					fail("read into a buffer of %d bytes", r.small)
				}
				if len(d) > 0 && (err != nil) != r.errs {
					fail("error %v", err)
				}
				want = append(want, d...)
				if len(d) > 0 {
					count()
				}
			case 4:
				r := &vReader{small: -1}
				var all []byte
				for i := s.Intn(5); i >= 0; i-- {
					d := data()
					if len(d) > 0 {
						r.parts = append(r.parts, append([]byte(nil), d...))
						all = append(all, d...)
					}
				}
				hist += fmt.Sprintf(", ReadFrom(%d bytes in %d parts)", len(all), len(r.parts))
				n, err := b.ReadFrom(r)
				if n != int64(len(all)) || err != nil {
					fail("ReadFrom returns %d, %v", n, err)
				}
				if r.small < 65536 {
					fail("read into a buffer of %d bytes", r.small)
				}
				want = append(want, all...)
				if len(all) > 0 {
					count()
				}
			case 5:
				hist += ", EnsureNewline"
				b.EnsureNewline()
				if len(want) > 0 && want[len(want)-1] != '\n' {
					want = append(want, '\n')
				}
			case 6:
				hist += ", CopyBytes"
				c := b.CopyBytes()
				copies = append(copies, copied{c, append([]byte(nil), want...)})
				if !bytes.Equal(c, want) {
					fail("copy is wrong")
				}
			case 7:
				if s.Intn(3) == 0 {
					hist += ", Reset"
					b.Reset()
					want, writes = nil, 0
				}
			}
			check()
			if s.Intn(3) == 0 {
				clk.now = clk.now.Add(time.Duration(s.Intn(1000)) * time.Millisecond)
				check()
			}
		}
	}
}
