package listener

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math"
	"math/big"
	"net"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

func vlistener(t *testing.T, n *vnats, count int, size int64, age time.Duration) *Listener {
	log.SetOutput(ioutil.Discard)
	l, err := newListener(&config.Config{
		Mode: "listener", Name: "v", NATSAddress: n.url,
		NATSSubject: []string{"out", "other"}, NATSSubjectMonitor: "monitor",
		BatchMaxCount: count, BatchMaxSize: datasize.ByteSize(size), BatchMaxAge: config.NewDuration(age),
		ReadBufferSize: datasize.MB, StatsInterval: config.NewDuration(time.Hour),
	})
	if err != nil {
		t.Fatal(err)
	}
	return l
}

func vflush(t *testing.T, l *Listener) {
	if err := l.nc.FlushTimeout(10 * time.Second); err != nil {
		t.Skip("bus does not answer:", err)
	}
}

func vcut(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...%q (%d bytes)", s[:60], s[len(s)-60:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// vdiff describes where two strings differ.
func vdiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, different from byte %d on:\n got ...%s\nwant ...%s", len(got), len(want), i, vcut(got[i:]), vcut(want[i:]))
}

// body yields its content in pieces, then an error if there is one.
type vbody struct {
	data []byte
	step int
	err  error
}

func (b *vbody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := b.step
	if n > len(b.data) {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}
func (b *vbody) Close() error { return nil }

func vpost(l *Listener, query string, body io.ReadCloser) {
	r := httptest.NewRequest("POST", "/write"+query, nil)
	r.Body = body
	l.handleHTTPWrite(httptest.NewRecorder(), r)
}

// vlines is text of about n bytes, in lines of very different lengths.
func vlines(s *vsearch, n int) []byte {
	var b []byte
	max := []int{3, 40, 3000, 70000, 2000000}[s.Intn(5)]
	for len(b) < n {
		k := s.Intn(max) + 1
		if k > n-len(b) {
			k = n - len(b)
		}
		for ; k > 0; k-- {
			b = append(b, "abcdefghijklmnopqrstuvwxyz ,=0123456789"[s.Intn(39)])
		}
		b = append(b, '\n')
	}
	if len(b) > 0 && s.Intn(3) == 0 {
		b = b[:len(b)-1]
	}
	return b
}

// TestC01Send checks that what is published is what was in the batch, with
// batches of all sizes and messages which can't be published.
func TestC01Send(t *testing.T) {
	s := vnew(t)
	const mib = 1048576
	for _, payload := range []int{mib, mib - 1, 0} {
		n := vbus(t, mib)
		if payload != mib {
			n.stop()
			n = vbus(t, 400000)
		}
		l := vlistener(t, n, 1000, mib, time.Hour)
		for i := 0; i < 60 && s.more(1000); i++ {
			size := []int{0, 1, s.Intn(100), s.Intn(5000), mib - 2 + s.Intn(5), s.Intn(3 * mib), 2*mib - 2 + s.Intn(5), 3*mib + s.Intn(9)}[s.Intn(8)]
			if payload == 0 && i == 20 {
				l.nc.Close()
			}
			text := vlines(s, size)
			if size == 0 {
				text = nil
			}
			want := string(text)
			for len(text) > 0 {
				k := s.Intn(len(text)) + 1
				if s.Intn(3) == 0 {
					k = len(text)
				}
				l.batch.Append(text[:k])
				text = text[k:]
			}
			l.sendBatch()
			if l.batch.Size() != 0 {
				t.Fatalf("batch of %d bytes: %d bytes still in it after sending", len(want), l.batch.Size())
			}
			if l.nc.IsClosed() {
				continue
			}
			vflush(t, l)
			got := n.take("out")
			if payload == mib {
				for _, m := range got {
					if len(m) > mib || len(m) == 0 {
						t.Fatalf("batch %s: message of %d bytes", vcut(want), len(m))
					}
				}
				if all := strings.Join(got, ""); all != want {
					t.Fatalf("batch %s: %s", vcut(want), vdiff(all, want))
				}
			} else {
				// What can't be published is skipped once: the rest must come in order.
				rest := want
				for _, m := range got {
					j := strings.Index(rest, m)
					if j < 0 {
						t.Fatalf("batch %s, publishing more than 400000 bytes fails: message %s repeated, out of order or altered", vcut(want), vcut(m))
					}
					rest = rest[j+len(m):]
				}
				if len(want) <= 400000 && rest != "" || len(want) <= mib && len(want) > 400000 && rest != want {
					t.Fatalf("batch %s, publishing more than 400000 bytes fails: bytes lost", vcut(want))
				}
				if last := vlast(want); len(want) > mib && len(last) <= 400000 && (len(got) == 0 || !strings.HasSuffix(want, got[len(got)-1])) {
					t.Fatalf("batch %s, publishing more than 400000 bytes fails: the last %d bytes are lost", vcut(want), len(last))
				}
			}
		}
		if !l.nc.IsClosed() {
			l.nc.Close()
		}
		n.stop()
	}
}

// vlast is the last chunk of at most 1 MiB, by the documented rule.
func vlast(s string) string {
	for len(s) > 1048576 {
		k := strings.LastIndexByte(s[:1048576], '\n') + 1
		if k == 0 {
			k = 1048576
		}
		s = s[k:]
	}
	return s
}

// TestC03HTTP checks that payloads are kept apart and otherwise unaltered.
func TestC03HTTP(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1048576)
	defer n.stop()
	for s.more(4000) {
		count := s.Intn(5) + 1
		l := vlistener(t, n, count, 1048576, time.Hour)
		var log []string
		var want string
		for k := s.Intn(8) + 1; k > 0; k-- {
			p := s.bytes("ab \n", 12)
			if s.Intn(30) == 0 {
				p = vlines(s, s.Intn(200000))
			}
			step := s.Intn(6) + 1
			if len(p) > 100 {
				step = s.Intn(100000) + 1
			}
			query := s.pick("", "?precision=ns", "?precision=s", "?precision=ms")
			var rerr error
			if s.Intn(5) == 0 {
				rerr = io.ErrUnexpectedEOF
			}
			if strings.Contains(query, "s") && query != "?precision=ns" {
				// lines without timestamps
				p = bytes.TrimLeft(bytes.ReplaceAll(bytes.ReplaceAll(p, []byte("\n\n"), []byte("\n")), []byte("\n\n"), []byte("\n")), "\n")
				p = bytes.ReplaceAll(bytes.ReplaceAll(p, []byte("\n"), []byte("x\n")), []byte("\n\n"), []byte("\n"))
				if len(p) == 1 {
					p = append(p, 'x')
				}
				p = bytes.ReplaceAll(p, []byte(" "), []byte("_"))
				if len(p) > 60000 {
					continue
				}
				for _, x := range bytes.SplitAfter(p, []byte("\n")) {
					if len(x) == 1 {
						p = nil // lines of one byte are left out
					}
				}
				rerr = nil
			}
			log = append(log, fmt.Sprintf("%s %s in steps of %d, then %v", query, vcut(string(p)), step, rerr))
			vpost(l, query, &vbody{append([]byte(nil), p...), step, rerr})
			if len(p) > 0 {
				if want != "" && !strings.HasSuffix(want, "\n") {
					want += "\n"
				}
				want += string(p)
			}
		}
		left := string(l.batch.Bytes())
		vflush(t, l)
		parts := append(n.take("out"), left)
		// The newline between payloads may be missing where one message ends.
		got := ""
		for _, x := range parts {
			if got != "" && !strings.HasSuffix(got, "\n") && x != "" {
				got += "\n"
			}
			got += x
		}
		if strings.TrimSuffix(got, "\n") != strings.TrimSuffix(want, "\n") {
			t.Fatalf("batches of %d, requests:\n%s\n%s", count, strings.Join(log, "\n"), vdiff(got, want))
		}
		l.nc.Close()
	}
}

// TestC03UDP does the same with datagrams, and checks that nothing is lost.
func TestC03UDP(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1048576)
	defer n.stop()
	var wg sync.WaitGroup
	defer wg.Wait()
	strikes := 0
	for round := 0; round < 40 && s.more(40); round++ {
		count := s.Intn(4) + 1
		l := vlistener(t, n, count, []int64{1048576, 1048576, 100, 40000}[s.Intn(4)], time.Hour)
		sc, err := l.setupUDP(1 << 20)
		if err != nil {
			t.Skip("no loopback network:", err)
		}
		l.wg.Add(1)
		go l.listenUDP(sc)
		conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", sc.LocalAddr().(*net.UDPAddr).Port))
		if err != nil {
			t.Skip("no loopback network:", err)
		}
		var want string
		var log []string
		got := ""
		lost := false
		for k := s.Intn(12) + 1; k > 0 && !lost; k-- {
			// as many datagrams as make a batch
			for j := 0; j < count; j++ {
				p := s.bytes("ab \n", 12)
				if s.Intn(8) == 0 {
					p = vlines(s, s.Intn(15000))
				}
				if j == 0 && s.Intn(6) == 0 {
					p = vlines(s, 65500-s.Intn(40000))
				}
				if len(p) == 0 {
					p = []byte("x")
				}
				log = append(log, vcut(string(p)))
				conn.Write(p)
				want += string(p)
				if !strings.HasSuffix(want, "\n") {
					want += "\n"
				}
			}
			for i := 0; i < 3000 && len(got) < len(want); i++ {
				time.Sleep(time.Millisecond)
				got += strings.Join(n.take("out"), "")
			}
			lost = len(got) < len(want)
		}
		if got != want {
			// a datagram the system lost is not the listener's fault
			if strikes++; lost && strikes < 3 {
				continue
			}
			t.Fatalf("batches of %d, datagrams:\n%s\n%s", count, strings.Join(log, "\n"), vdiff(got, want))
		}
		conn.Close()
		wg.Add(1)
		go func() { l.Stop(); wg.Done() }()
	}
}

// TestC05Limits checks when batches are sent.
func TestC05Limits(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1048576)
	defer n.stop()
	for s.more(600) {
		count := s.Intn(6) + 1
		size := int64([]int{1048576, 200000, 65537, 65536, 70000, 1}[s.Intn(6)])
		age := []time.Duration{time.Hour, time.Hour, time.Hour, 20 * time.Millisecond, time.Nanosecond}[s.Intn(5)]
		l := vlistener(t, n, count, size, age)
		var t0, t1 time.Time
		writes, have := 0, 0
		var log []string
		for k := 0; k < 12; k++ {
			p := []byte("m f=1")
			if s.Intn(3) == 0 {
				p = bytes.Repeat([]byte("x"), []int{1, 4463, 4464, 4465, 134463, 134464, 134465, 60000}[s.Intn(8)])
			}
			p = append(p, '\n')
			if have > 0 && s.Intn(2) == 0 && age < time.Hour {
				time.Sleep(time.Duration(s.Intn(25)) * time.Millisecond)
			}
			http := s.Intn(2) == 0
			b0 := time.Now()
			if http {
				vpost(l, "", &vbody{append([]byte(nil), p...), len(p), nil})
			} else {
				l.batch.Append(p)
			}
			if writes == 0 {
				t0, t1 = b0, time.Now()
			}
			writes++
			have += len(p)
			if !http {
				l.maybeSendBatch()
			}
			lo, hi := time.Since(t1), time.Since(t0)
			if http || lo < 0 {
				lo = 0
			}
			sent := l.batch.Size() == 0
			if writes > 1 && !http {
				lo = b0.Sub(t1)
			}
			log = append(log, fmt.Sprintf("%d bytes (http %v), batch of %d writes and %d bytes, between %v and %v old: sent %v", len(p), http, writes, have, lo, hi, sent))
			must := writes >= count || size-int64(have) <= 65536 || lo >= age
			may := must || hi >= age
			if sent && !may || !sent && must {
				t.Fatalf("limits: %d writes, %d bytes, age %v:\n%s", count, size, age, strings.Join(log, "\n"))
			}
			if sent {
				writes, have = 0, 0
			}
		}
		l.nc.Close()
	}
	// An old batch is sent without any further request, but not before its time.
	l := vlistener(t, n, 1000, 1048576, 300*time.Millisecond)
	l.setupHTTP()
	for k := 0; k < 2; k++ {
		n.take("out")
		b0 := time.Now()
		vpost(l, "", &vbody{[]byte("m f=1\n"), 10, nil})
		var got []string
		for i := 0; i < 10000 && len(got) == 0; i++ {
			time.Sleep(time.Millisecond)
			got = n.take("out")
		}
		if d := time.Since(b0); len(got) != 1 || got[0] != "m f=1\n" || d < 300*time.Millisecond {
			t.Fatalf("batch age limit 300ms: %q sent after %v", got, d)
		}
	}
	l.Stop()
}

// vconverted is a line with its timestamp in nanoseconds.
func vconverted(line, precision string) string {
	mult, ok := map[string]int64{"u": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}[precision]
	if !ok {
		mult = 1
	}
	l := strings.TrimSuffix(line, "\n")
	i := strings.LastIndexByte(l, ' ')
	if len(line) < 6 || i < 0 || len(l)-i > 20 {
		return line
	}
	d := l[i+1:]
	digits := strings.TrimPrefix(d, "-")
	if digits == "" || strings.Trim(digits, "0123456789") != "" {
		return line
	}
	v, _ := new(big.Int).SetString(d, 10)
	if !v.IsInt64() {
		return line
	}
	v.Mul(v, big.NewInt(mult))
	if v.Cmp(big.NewInt(math.MinInt64+2)) < 0 || v.Cmp(big.NewInt(math.MaxInt64-1)) > 0 {
		return line
	}
	return l[:i+1] + v.String() + "\n"
}

// TestC06Precision compares conversions with an independent definition.
func TestC06Precision(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1048576)
	defer n.stop()
	l := vlistener(t, n, 1<<30, 1<<24, time.Hour)
	defer l.nc.Close()
	num := func() string {
		switch s.Intn(6) {
		case 0:
			return string(s.bytes("0123456789-+ .x", 20))
		case 1:
			return fmt.Sprint(s.Int63() >> uint(s.Intn(63)))
		case 2:
			return fmt.Sprint(-(s.Int63() >> uint(s.Intn(63))))
		case 3:
			m := []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[s.Intn(6)]
			return fmt.Sprint((math.MaxInt64-int64(s.Intn(3)))/m + int64(s.Intn(5)-2))
		case 4:
			m := []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[s.Intn(6)]
			return fmt.Sprint((math.MinInt64+int64(s.Intn(4)))/m + int64(s.Intn(5)-2))
		}
		return fmt.Sprint(s.Intn(2000) - 5)
	}
	for s.more(200000) {
		precision := s.pick("u", "ms", "s", "m", "h", "u", "ms", "s", "m", "h", "x", "S")
		body, want := "", ""
		for k := s.Intn(3) + 1; k > 0; k-- {
			line := s.pick("m f=1", "m,t=v f=2,g=\"a b\"", "cpu", "m f=1 1", "a,b\\ c=d f=1i") + s.pick(" ", " ", " ", " ", "  ", ",", "\t") + num()
			if s.Intn(10) == 0 {
				line = string(s.bytes("m f1-", 9))
			}
			line = strings.ReplaceAll(line, "\n", "")
			if len(line) < 2 {
				line = "abc"
			}
			if k > 1 || s.Intn(2) == 0 {
				line += "\n"
			}
			body += line
			want += vconverted(line, precision)
		}
		l.batch.Reset()
		vpost(l, "?db=x&precision="+precision, &vbody{[]byte(body), s.Intn(40) + 1, nil})
		if got := string(l.batch.Bytes()); got != want {
			t.Fatalf("precision %q, body %q: batch %q, want %q", precision, body, got, want)
		}
	}
}
