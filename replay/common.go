// Package common is shared by the searches for failing inputs: it is compiled
// into the package under test.
package common

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vsearch struct {
	*rand.Rand
	t        *testing.T
	deadline time.Time
	n        int
}

// vnew starts a search: a deterministic random source, bounded in time.
func vnew(t *testing.T) *vsearch {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		budget = 5
	}
	return &vsearch{Rand: rand.New(rand.NewSource(seed)), t: t, deadline: time.Now().Add(time.Duration(budget) * time.Second)}
}

// more reports whether to try another case; max bounds their number.
func (s *vsearch) more(max int) bool {
	s.n++
	if s.n > max || s.n%16 == 0 && time.Now().After(s.deadline) {
		s.t.Logf("%d cases tried", s.n-1)
		return false
	}
	return true
}

// bytes is a random string over an alphabet.
func (s *vsearch) bytes(alphabet string, maxLen int) []byte {
	b := make([]byte, s.Intn(maxLen+1))
	for i := range b {
		b[i] = alphabet[s.Intn(len(alphabet))]
	}
	return b
}

func (s *vsearch) pick(xs ...string) string { return xs[s.Intn(len(xs))] }

// junk is input of all kinds for code that must not panic, whatever it reads.
func (s *vsearch) junk(n int) []byte {
	var b []byte
	for k := s.Intn(n + 1); k > 0; k-- {
		switch s.Intn(12) {
		case 0:
			b = append(b, byte(s.Intn(256)))
		case 1:
			d := strconv.FormatInt(time.Now().UnixNano()/[]int64{1, 1000, 1000000000}[s.Intn(3)]+int64(s.Intn(1000)), 10)
			b = append(b, d[:s.Intn(len(d)+1)]...)
		case 2:
			b = append(b, s.pick("9223372036854775807", "-9223372036854775808", "9223372036854775808", "-1", "0", "99999999999999999999", "-", "i", "1i", "-i", "1e400", "NaN", "0x1p-2")...)
		case 3:
			b = append(b, s.pick("cpu,host=a value=1i 1500000000000000000", `m,b=1,a=2 s="x y" 1`, `a{b="c"} 5 7`, `a{b="c",d=""} -5`)...)
		case 4:
			if len(b) > 0 {
				b = b[:s.Intn(len(b))]
			}
		case 5:
			b = append(b, '\n')
		default:
			b = append(b, s.pick("cpu", "a", "b", ",", "=", " ", "\\", "\"", "{", "}", "=\"", "\",", "\"}", "b=1", ",z=1", ",a=1", " f=", "\r")...)
		}
	}
	return b[:len(b):len(b)]
}

// calm runs f, which must not panic on the input.
func (s *vsearch) calm(input interface{}, f func()) {
	defer func() {
		if e := recover(); e != nil {
			s.t.Fatalf("panic: %v\ninput: %q\n%s", e, input, debug.Stack())
		}
	}()
	f()
}

// venum calls f with every string over the alphabet up to a length.
func venum(alphabet string, maxLen int, f func(b []byte)) {
	var rec func(b []byte)
	rec = func(b []byte) {
		f(append([]byte(nil), b...))
		if len(b) == maxLen {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			rec(append(b, alphabet[i]))
		}
	}
	rec(nil)
}

// vmsg is a message published on the bus.
type vmsg struct{ subject, data string }

// vnats is a stand-in for the message bus, which records what is published and
// delivers it to its subscribers.
type vnats struct {
	l     net.Listener
	url   string
	mu    sync.Mutex
	msgs  []vmsg
	conns []*vconn
}

type vconn struct {
	c    net.Conn
	subs [][2]string // subject, sid
}

// vbus starts one on a free port of the loopback interface. Messages longer
// than maxPayload can't be published.
func vbus(t *testing.T, maxPayload int) *vnats {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback network:", err)
	}
	n := &vnats{l: l, url: "nats://" + l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go n.serve(c, maxPayload)
		}
	}()
	return n
}

func (n *vnats) serve(c net.Conn, maxPayload int) {
	defer c.Close()
	fmt.Fprintf(c, "INFO {\"server_id\":\"v\",\"version\":\"2.1.7\",\"proto\":1,\"max_payload\":%d}\r\n", maxPayload)
	vc := &vconn{c: c}
	n.mu.Lock()
	n.conns = append(n.conns, vc)
	n.mu.Unlock()
	r := bufio.NewReaderSize(c, 1<<16)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "PING":
			n.mu.Lock()
			io.WriteString(c, "PONG\r\n")
			n.mu.Unlock()
		case "SUB":
			n.mu.Lock()
			vc.subs = append(vc.subs, [2]string{f[1], f[len(f)-1]})
			n.mu.Unlock()
		case "PUB":
			size, _ := strconv.Atoi(f[len(f)-1])
			data := make([]byte, size+2)
			if _, err := io.ReadFull(r, data); err != nil {
				return
			}
			n.publish(f[1], string(data[:size]))
		}
	}
}

func (n *vnats) publish(subject, data string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.msgs = append(n.msgs, vmsg{subject, data})
	for _, c := range n.conns {
		for _, s := range c.subs {
			if s[0] == subject {
				fmt.Fprintf(c.c, "MSG %s %s %d\r\n%s\r\n", subject, s[1], len(data), data)
			}
		}
	}
}

// take returns the messages published on the subject, in order, and forgets all.
func (n *vnats) take(subject string) []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []string
	for _, m := range n.msgs {
		if m.subject == subject {
			out = append(out, m.data)
		}
	}
	n.msgs = nil
	return out
}

// subscribed waits until someone listens to the subject.
func (n *vnats) subscribed(subject string) {
	for i := 0; i < 2000; i++ {
		n.mu.Lock()
		for _, c := range n.conns {
			for _, s := range c.subs {
				if s[0] == subject {
					n.mu.Unlock()
					return
				}
			}
		}
		n.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
}

func (n *vnats) stop() {
	n.l.Close()
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, c := range n.conns {
		c.c.Close()
	}
}

var vstat = regexp.MustCompile(`^([a-z_]+)\{(.*)\} (-?[0-9]+) ([0-9]+)$`)
var vlabel = regexp.MustCompile(`([a-z_]+)="([^"]*)"`)

// stats reads the counters published for monitoring, by name and additional
// labels. bad describes what is wrong with them, if something is.
func (n *vnats) stats(subject string, labels map[string]string, begun time.Time) (seen map[string]int, bad string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	seen = map[string]int{}
	for _, m := range n.msgs {
		if m.subject != subject {
			continue
		}
		for _, l := range strings.Split(strings.TrimSuffix(m.data, "\n"), "\n") {
			p := vstat.FindStringSubmatch(l)
			if p == nil {
				bad = "unexpected " + l
				continue
			}
			key := p[1]
			found := 0
			again := ""
			for _, f := range vlabel.FindAllStringSubmatch(p[2], -1) {
				again += "," + f[0]
				if want, ok := labels[f[1]]; ok && f[2] == want || f[1] == "host" && f[2] != "" {
					found++
				} else {
					key += "," + f[0]
				}
			}
			if again != ","+p[2] || found != len(labels)+1 {
				bad = fmt.Sprintf("labels of %s (expected %v)", l, labels)
			}
			n, _ := strconv.Atoi(p[3])
			if ts, _ := strconv.ParseInt(p[4], 10, 64); ts < begun.UnixNano()/1e6 || ts > time.Now().UnixNano()/1e6 {
				bad = "not the time: " + l
			}
			if n < seen[key] {
				bad = "decreased: " + l
			}
			seen[key] = n
		}
	}
	return
}

// vport finds a free port which no outgoing connection will take.
func vport(s *vsearch) int {
	for {
		p := 20000 + rand.Intn(12000)
		l, err := net.Listen("tcp", ":"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		l.Close()
		c, err := net.ListenPacket("udp", ":"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		c.Close()
		return p
	}
}
