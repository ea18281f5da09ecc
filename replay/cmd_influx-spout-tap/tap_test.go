package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
)

type vout struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *vout) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *vout) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// TestC28Tap runs the command and compares what it prints with the lines of the
// messages that match.
func TestC28Tap(t *testing.T) {
	s := vnew(t)
	dir, err := ioutil.TempDir("", "vtap")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "tap")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Skipf("can't build the command: %v %s", err, out)
	}
	for _, rx := range []string{"", "cpu", "^mem,a=", "v=1[0-4]?\n$", "(?s)^.$", "^[a-z, =0-9]*\n$", "x*"} {
		n := vbus(t, 1<<20)
		args := []string{"-h", n.url, "-s", "data"}
		if rx != "" {
			args = append(args, "-e", rx)
		}
		cmd := exec.Command(bin, args...)
		out := new(vout)
		cmd.Stdout = out
		if err := cmd.Start(); err != nil {
			t.Skip(err)
		}
		n.subscribed("data")
		match := func(string) bool { return true }
		if rx != "" {
			re := regexp.MustCompile(rx)
			match = re.MatchString
		}
		want := ""
		var msgs []string
		for i := 0; i < 300; i++ {
			m := ""
			for j := s.Intn(4); j >= 0; j-- {
				switch s.Intn(6) {
				case 0:
					m += string(s.bytes("cpu \n%v=1\x00\xff\\\"", 12))
				case 1:
					m += "\n"
				default:
					m += s.pick("cpu", "mem", "x%d") + s.pick("", ",a=1", ",b=%s") + fmt.Sprintf(" v=%d\n", s.Intn(20))
				}
			}
			if s.Intn(5) == 0 {
				m = strings.TrimSuffix(m, "\n")
			}
			msgs = append(msgs, m)
			n.publish("data", m)
			for len(m) > 0 {
				l := m
				if k := strings.IndexByte(m, '\n'); k >= 0 {
					l = m[:k+1]
				}
				if match(l) {
					want += l
				}
				m = m[len(l):]
			}
		}
		for i := 0; i < 600 && len(out.String()) < len(want); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(30 * time.Millisecond)
		got := out.String()
		cmd.Process.Kill()
		cmd.Wait()
		n.stop()
		if got != want {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			from := i - 60
			if from < 0 {
				from = 0
			}
			cut := func(s string) string {
				s = s[from:]
				if len(s) > 300 {
					s = s[:300]
				}
				return s
			}
			t.Fatalf("expression %q: from byte %d on, %q is printed, not %q\nmessages %.3000q", rx, i, cut(got), cut(want), msgs)
		}
	}
}
