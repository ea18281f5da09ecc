package listener

import (
	"errors"
	"fmt"
	"net"
	"testing"
	"time"
)

func TestC26Bytes(t *testing.T) {
	s := vnew(t)
	n := vbus(t, 1<<20)
	defer n.stop()
	l := vlistener(t, n, 50, 3000, time.Hour)
	defer l.Stop()
	for s.more(20000) {
		b := s.junk(40)
		if s.Intn(20) == 0 {
			b = append(b, vlines(s, s.Intn(100000))...)
		}
		var err error
		if s.Intn(4) == 0 {
			err = errors.New("broken")
		}
		q := s.pick("", "?precision=ns", "?precision=u", "?precision=ms", "?precision=s", "?precision=m", "?precision=h", "?precision=x", "?db=a&precision=s")
		s.calm(string(b), func() { vpost(l, q, &vbody{b, s.Intn(100) + 1, err}) })
		if s.n%50 == 0 {
			n.take("out")
		}
	}
	// datagrams: a panic in the listener's goroutine ends the test
	u := vlistener(t, n, 50, 3000, time.Hour)
	sc, err := u.setupUDP(1 << 20)
	if err != nil {
		t.Skip("no loopback network:", err)
	}
	u.wg.Add(1)
	go u.listenUDP(sc)
	conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", sc.LocalAddr().(*net.UDPAddr).Port))
	if err != nil {
		t.Skip("no loopback network:", err)
	}
	for i := 0; i < 1000; i++ {
		b := s.junk(40)
		if s.Intn(20) == 0 {
			b = vlines(s, s.Intn(65000))
		}
		conn.Write(b)
		time.Sleep(20 * time.Microsecond)
	}
	time.Sleep(50 * time.Millisecond)
	conn.Close()
	u.Stop()
}
