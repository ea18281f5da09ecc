package writer

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

// vinflux records the requests it gets and answers them as told.
type vinflux struct {
	mu     sync.Mutex
	reqs   []vreq
	srv    *httptest.Server
	answer func(i int, body string) int // the status; 0 breaks the connection
}

type vreq struct {
	method, url, body, user, pass string
	auth                          bool
	status                        int
	at                            time.Time
}

func vinfluxd(answer func(i int, body string) int) *vinflux {
	f := &vinflux{answer: answer}
	f.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		q := vreq{method: r.Method, url: r.URL.String(), body: string(b), at: time.Now()}
		q.user, q.pass, q.auth = r.BasicAuth()
		f.mu.Lock()
		q.status = f.answer(len(f.reqs), q.body)
		f.reqs = append(f.reqs, q)
		f.mu.Unlock()
		if q.status == 0 {
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
			return
		}
		w.WriteHeader(q.status)
	}))
	f.srv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	return f
}

func (f *vinflux) all() []vreq {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]vreq(nil), f.reqs...)
}

func (f *vinflux) conf(n *vnats) *config.Config {
	host, port, _ := net.SplitHostPort(f.srv.Listener.Addr().String())
	p, _ := strconv.Atoi(port)
	c := &config.Config{
		Name: "v", Mode: "writer", NATSSubject: []string{"in"}, NATSSubjectMonitor: "monitor",
		InfluxDBProtocol: "http", InfluxDBAddress: host, InfluxDBPort: p, DBName: "db",
		BatchMaxCount: 1, BatchMaxSize: 10 * datasize.MB, BatchMaxAge: config.NewDuration(time.Hour),
		WriteTimeout: config.NewDuration(20 * time.Second), Workers: 1, NATSMaxPendingSize: 100 * datasize.MB,
		StatsInterval: config.NewDuration(time.Hour),
	}
	if n != nil {
		c.NATSAddress = n.url
	}
	return c
}

func vcut(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...%q (%d bytes)", s[:100], s[len(s)-80:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func vbodies(rs []vreq) string {
	out := ""
	for i, r := range rs {
		out += fmt.Sprintf("  request %d: status %d, body %s\n", i, r.status, vcut(r.body))
	}
	return out
}

// TestC18Worker runs a writer on a series of messages. What must be requested
// follows from the configuration: batches of accepted lines, in order.
func TestC18Worker(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	n := vbus(t, 1<<20)
	defer n.stop()
	for s.more(1200) {
		vworkerCase(t, s, n)
	}
}

func vworkerCase(t *testing.T, s *vsearch, n *vnats) {
	var rules []config.Rule
	var accept func(line string) bool
	rx := ""
	switch s.Intn(4) {
	case 0:
		rules = []config.Rule{{Rtype: "basic", Match: "hello", Subject: "x"}, {Rtype: "basic", Match: "cpu", Subject: "y"}}
		accept = func(l string) bool {
			m := l[:strings.IndexAny(l, ", ")]
			return m == "hello" || m == "cpu"
		}
	case 1:
		rx = "a=1[0-5]"
		rules = []config.Rule{{Rtype: "regex", Match: rx, Subject: "x"}}
		re := regexp.MustCompile(rx)
		accept = func(l string) bool { return re.MatchString(l) }
	}
	// what the database says: to which requests, and how
	var statuses []int
	for i := 0; i < 3; i++ {
		statuses = append(statuses, []int{204, 204, 200, 500, 503, 400, 404, 0}[s.Intn(8)])
	}
	seen := map[string]int{}
	f := vinfluxd(func(i int, body string) int {
		seen[body]++
		if seen[body] > 1 {
			return 204
		}
		return statuses[i%len(statuses)]
	})
	defer f.srv.Close()
	c := f.conf(n)
	c.Rule = rules
	c.BatchMaxCount = 1 + s.Intn(6)
	c.BatchMaxSize = datasize.ByteSize(30 + s.Intn(150))
	if s.Intn(3) == 0 {
		c.BatchMaxSize = 5 * datasize.KB
	}
	if s.Intn(2) == 0 {
		c.WriterRetryBatches = 1000
		c.WriterRetryInterval = config.NewDuration(time.Millisecond)
		c.WriterRetryTimeout = config.NewDuration(time.Hour)
	}
	// the messages, and the batches expected of them
	var msgs, batches []string
	batch, writes := "", 0
	line := func(i, j int) string {
		l := s.pick("hello", "cpu", "x", "mem") + s.pick(",a=1", ",b=x,a=2", "") + fmt.Sprintf("%d v=%d.%di", s.Intn(10), i, j)
		if s.Intn(6) == 0 {
			l += " s="
			for k := s.Intn(60); k >= 0; k-- {
				l += strconv.Itoa(s.Intn(10000))
			}
		}
		if s.Intn(10) == 0 {
			l = s.pick("hello", ",", "cpu,a", "\\", " ") + fmt.Sprintf("%d_%d", i, j)
			if accept != nil && s.Intn(3) == 0 {
				l = ""
			}
		}
		return l + "\n"
	}
	for i := 0; i < 40 && len(batches) < 4; i++ {
		m := ""
		for j := s.Intn(5); j >= 0; j-- {
			m += line(i, j)
		}
		if accept == nil && s.Intn(4) == 0 {
			m = strings.TrimSuffix(m, "\n")
		}
		if m == "" {
			continue
		}
		msgs = append(msgs, m)
		if accept == nil {
			batch += m
			writes++
		} else {
			for _, l := range strings.SplitAfter(m, "\n") {
				// lines with a malformed measurement or tags match nothing; they are
				// not made to match here
				if l != "" && vwellFormed(l) && accept(l) {
					batch += l
					writes++
				}
			}
		}
		if writes >= c.BatchMaxCount || len(batch) >= int(c.BatchMaxSize) {
			batches = append(batches, batch)
			batch, writes = "", 0
		}
	}
	w, err := StartWriter(c)
	if err != nil {
		t.Skip("writer does not start:", err)
	}
	for _, m := range msgs {
		n.publish("in", m)
	}
	total := strings.Join(batches, "")
	// A request is for the bytes that come next, or for a chunk that failed before.
	const (
		waiting = iota
		complete
		unclear
		wrong
	)
	var first []vreq
	why := ""
	state := func() int {
		first = nil
		failed := map[string]int{}
		at, nfailed := 0, 0
		for i, r := range f.all() {
			isNext := r.body != "" && strings.HasPrefix(total[at:], r.body)
			isRetry := failed[r.body] > 0
			switch {
			case isNext && isRetry:
				return unclear
			case isRetry:
				failed[r.body]--
				nfailed--
			case isNext:
				first = append(first, r)
				at += len(r.body)
				if r.status/100 != 2 && c.WriterRetryBatches > 0 {
					failed[r.body]++
					nfailed++
				}
			default:
				why = fmt.Sprintf("request %d, %s, is neither for what comes next, %s, nor a retry", i, vcut(r.body), vcut(total[at:]))
				return wrong
			}
		}
		if at < len(total) {
			why = "not everything is written: " + vcut(total[at:]) + " is missing"
			return waiting
		}
		if nfailed > 0 {
			why = fmt.Sprintf("chunks that failed aren't retried: %q", failed)
			return waiting
		}
		return complete
	}
	st := waiting
	for i := 0; i < 1000 && st == waiting; i++ {
		if st = state(); st == waiting {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if st == complete {
		time.Sleep(3 * time.Millisecond) // for more than there should be
		st = state()
	}
	all := f.all()
	w.Stop()
	n.take("monitor")
	desc := fmt.Sprintf("rules %v, at most %d writes and %d bytes in a batch, retries %v, answers %v\nmessages %.2000q\nbatches to be written %.2000q\n%s",
		rules, c.BatchMaxCount, c.BatchMaxSize, c.WriterRetryBatches > 0, statuses, msgs, batches, vbodies(all))
	if st == unclear {
		return
	}
	if st != complete {
		t.Fatalf("%s\n%s", why, desc)
	}
	at, next := 0, 0
	end := 0
	for _, r := range first {
		if len(r.body) > int(c.BatchMaxSize) {
			t.Fatalf("a request of %d bytes, more than the limit of %d\n%s", len(r.body), c.BatchMaxSize, desc)
		}
		if at == end && next < len(batches) {
			end += len(batches[next])
			next++
			if len(batches[next-1]) <= int(c.BatchMaxSize) && at+len(r.body) != end {
				t.Fatalf("batch %d isn't written at once\n%s", next-1, desc)
			}
		}
		at += len(r.body)
		if at > end {
			t.Fatalf("a request has bytes of two batches\n%s", desc)
		}
	}
}

func vwellFormed(l string) bool {
	i := strings.IndexByte(l, ' ')
	if i <= 0 || l[0] == ',' || strings.Contains(l, "\\") {
		return false
	}
	for k, tag := range strings.Split(l[:i], ",") {
		if k > 0 && strings.Count(tag, "=") != 1 {
			return false
		}
	}
	return true
}

// TestC05Writer: a batch isn't written before it has the configured age, and is
// written once it has, counted from its first write.
func TestC05Writer(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	n := vbus(t, 1<<20)
	defer n.stop()
	const age = 1500 * time.Millisecond
	type wcase struct {
		size  int
		count int
	}
	var wg sync.WaitGroup
	for k, wc := range []wcase{{1 << 20, 1000}, {1 << 20, 3}, {40, 1000}} {
		wg.Add(1)
		go func(k int, wc wcase) {
			defer wg.Done()
			f := vinfluxd(func(int, string) int { return 204 })
			defer f.srv.Close()
			c := f.conf(n)
			subject := fmt.Sprintf("in%d", k)
			c.NATSSubject = []string{subject}
			c.BatchMaxAge = config.NewDuration(age)
			c.BatchMaxCount = wc.count
			c.BatchMaxSize = datasize.ByteSize(wc.size)
			w, err := StartWriter(c)
			if err != nil {
				t.Log("writer does not start:", err)
				return
			}
			defer w.Stop()
			const m = "cpu v=123456789\n" // 16 bytes
			time.Sleep(700 * time.Millisecond)
			for round := 0; round < 2; round++ {
				before := len(f.all())
				start := time.Now()
				n.publish(subject, m)
				time.Sleep(300 * time.Millisecond)
				n.publish(subject, m)
				for i := 0; i < 1200 && len(f.all()) == before; i++ {
					time.Sleep(5 * time.Millisecond)
				}
				rs := f.all()[before:]
				if len(rs) == 0 {
					t.Errorf("age limit %s: the batch isn't written %s after its first write (limits: %d writes, %d bytes)", age, time.Since(start), wc.count, wc.size)
					return
				}
				if d := rs[0].at.Sub(start); d < age {
					t.Errorf("age limit %s: the batch is written %s after its first write with %d bytes (limits: %d writes, %d bytes)", age, d, len(rs[0].body), wc.count, wc.size)
					return
				}
				if rs[0].body != m+m {
					t.Errorf("two messages of %q are written as %q", m, rs[0].body)
					return
				}
				if k > 0 {
					// now one that reaches its other limit
					before := len(f.all())
					start := time.Now()
					for i := 0; i < 3; i++ {
						n.publish(subject, m)
					}
					for i := 0; i < 1000 && len(f.all()) == before; i++ {
						time.Sleep(5 * time.Millisecond)
					}
					time.Sleep(20 * time.Millisecond)
					rs := f.all()[before:]
					got := ""
					for _, r := range rs {
						got += r.body
					}
					if got != m+m+m {
						t.Errorf("limits of %d writes and %d bytes: three messages of %d bytes give requests %q after %s", wc.count, wc.size, len(m), got, time.Since(start))
						return
					}
				}
			}
		}(k, wc)
	}
	wg.Wait()
}

// ---- the retry worker

type vdb struct {
	calls  chan string
	answer chan error
}

func (d *vdb) Write(b []byte) error {
	d.calls <- string(b)
	return <-d.answer
}

// TestC19Queue drives a retry worker: batches are added and attempts answered in
// every order; a list says which batch is to be attempted next.
func TestC19Queue(t *testing.T) {
	s := vnew(t)
	for s.more(3000) {
		max := 1 + s.Intn(5)
		in := make(chan []byte)
		db := &vdb{make(chan string), make(chan error)}
		w := newRetryWorker(in, db, &config.Config{
			WriterRetryBatches:  max,
			WriterRetryInterval: config.NewDuration(time.Duration(1+s.Intn(3)) * time.Millisecond),
			WriterRetryTimeout:  config.NewDuration(time.Hour),
		})
		type el struct {
			body string
			n    int
		}
		var model []el
		var log []string
		bad := ""
		steps := 5 + s.Intn(40)
		nadd := 0
		kept := map[int][]byte{}
		for step := 0; step < steps && bad == ""; step++ {
			var add chan []byte
			var buf []byte
			if s.Intn(3) > 0 || len(model) == 0 {
				add = in
				buf = []byte(fmt.Sprintf("batch %d%s", nadd, strings.Repeat(".", s.Intn(20))))
			}
			select {
			case add <- buf:
				log = append(log, "add "+string(buf))
				if len(model) >= max {
					old := 0
					for i := range model {
						if model[i].n < model[old].n {
							old = i
						}
					}
					model = append(model[:old:old], model[old+1:]...)
				}
				model = append(model, el{string(buf), nadd})
				kept[nadd] = buf
				nadd++
			case got := <-db.calls:
				var err error
				what := "success"
				r := s.Intn(4)
				switch r {
				case 0:
					err, what = newClientError("no", true), "permanent error"
				case 1:
					err, what = newClientError("not now", false), "temporary error"
				case 2:
					err, what = errors.New("not now"), "other error"
				}
				log = append(log, fmt.Sprintf("write %q: %s", got, what))
				if len(model) == 0 {
					bad = "a write although the queue is empty"
				} else if model[0].body != got {
					bad = fmt.Sprintf("a write of %q, expected %q", got, model[0].body)
				} else {
					e := model[0]
					model = model[1:]
					if r == 1 || r == 2 {
						model = append(model[:len(model):len(model)], e)
					}
				}
				db.answer <- err
			case <-time.After(5 * time.Second):
				bad = "nothing happens"
			}
		}
		// what is left comes out in order
		for bad == "" && len(model) > 0 {
			select {
			case got := <-db.calls:
				log = append(log, fmt.Sprintf("write %q: success", got))
				if got != model[0].body {
					bad = fmt.Sprintf("a write of %q, expected %q", got, model[0].body)
				}
				model = model[1:]
				db.answer <- nil
			case <-time.After(5 * time.Second):
				bad = fmt.Sprintf("%q isn't written", model[0].body)
			}
		}
		if bad == "" && s.Intn(20) == 0 {
			select {
			case got := <-db.calls:
				log = append(log, fmt.Sprintf("write %q", got))
				bad = "a write although the queue is empty"
				db.answer <- nil
			case <-time.After(15 * time.Millisecond):
			}
		}
		if bad != "" {
			t.Fatalf("a retry queue of at most %d batches: %s\n%s", max, bad, strings.Join(log, "\n"))
		}
		w.Stop()
	}
}

// TestC19Expiry: batches aren't sent once their time has passed, and are while it
// has not. What is tolerated is the delay of a slow machine.
func TestC19Expiry(t *testing.T) {
	for _, ttl := range []time.Duration{60 * time.Millisecond, 300 * time.Millisecond} {
		in := make(chan []byte)
		db := &vdb{make(chan string), make(chan error)}
		w := newRetryWorker(in, db, &config.Config{
			WriterRetryBatches:  10,
			WriterRetryInterval: config.NewDuration(10 * time.Millisecond),
			WriterRetryTimeout:  config.NewDuration(ttl),
		})
		added := map[string]time.Time{}
		n := map[string]int{}
		start := time.Now()
		next := 0
		end := start.Add(1500 * time.Millisecond)
		for time.Now().Before(end) {
			var add chan []byte
			name := fmt.Sprintf("batch %d", next)
			if next < 4 && time.Since(start) > time.Duration(next)*70*time.Millisecond {
				add = in
			}
			select {
			case add <- []byte(name):
				added[name] = time.Now()
				next++
			case got := <-db.calls:
				n[got]++
				if d := time.Since(added[got]); d > ttl+600*time.Millisecond {
					t.Fatalf("retry timeout %s: %q is sent %s after it was added", ttl, got, d)
				}
				db.answer <- newClientError("not now", false)
			case <-time.After(time.Millisecond):
			}
		}
		w.Stop()
		if ttl > 200*time.Millisecond && n["batch 0"] == 0 {
			t.Fatalf("retry timeout %s, interval 10ms: %q is never sent", ttl, "batch 0")
		}
	}
}

// ---- requests

// TestC20Status writes to servers that answer with every status, or not at all.
func TestC20Status(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	s := vnew(t)
	status := 0
	var last vreq
	f := vinfluxd(func(i int, body string) int { return status })
	defer f.srv.Close()
	check := func(st int) {
		status = st
		c := f.conf(nil)
		c.DBName = s.pick("db", "influx-spout-junk", "x")
		c.WriteTimeout = config.NewDuration(20 * time.Second)
		if s.Intn(2) == 0 {
			c.InfluxDBUser = s.pick("u", "someone", "a b")
			if s.Intn(3) > 0 {
				c.InfluxDBPass = s.pick("p", "secret:x", "\x00\xff")
			}
		} else if s.Intn(2) == 0 {
			c.InfluxDBPass = "unused"
		}
		c.Debug = s.Intn(2) == 0
		body := s.bytes("ab =,\n\\\"\x00\xff", 60)
		if s.Intn(20) == 0 {
			body = bytes.Repeat([]byte("cpu v=1\n"), 20000)
		}
		orig := string(body)
		before := len(f.all())
		err := newInfluxClient(c).Write(body)
		rs := f.all()[before:]
		desc := fmt.Sprintf("user %q, password %q, database %q, body %s, status %d", c.InfluxDBUser, c.InfluxDBPass, c.DBName, vcut(orig), st)
		if len(rs) == 0 || len(rs) > 1 && st != 0 {
			t.Fatalf("%d requests\n%s", len(rs), desc)
		}
		last = rs[0]
		if last.method != "POST" || last.url != "/write?db="+c.DBName {
			t.Fatalf("request is %s %s\n%s", last.method, last.url, desc)
		}
		if last.body != orig {
			t.Fatalf("the body sent is %s\n%s", vcut(last.body), desc)
		}
		if string(body) != orig {
			t.Fatalf("the bytes to be written are altered, to %s\n%s", vcut(string(body)), desc)
		}
		if last.auth != (c.InfluxDBUser != "") || last.auth && (last.user != c.InfluxDBUser || last.pass != c.InfluxDBPass) {
			t.Fatalf("credentials sent: %v, %q %q\n%s", last.auth, last.user, last.pass, desc)
		}
		if ok := st >= 200 && st < 300; ok != (err == nil) {
			t.Fatalf("result is %v\n%s", err, desc)
		}
		if perm := st >= 400 && st < 500; perm != isPermanentError(err) {
			t.Fatalf("permanent error: %v (%v)\n%s", isPermanentError(err), err, desc)
		}
	}
	for st := 200; st < 600; st++ {
		check(st)
	}
	for s.more(300) {
		check([]int{0, 200, 204, 299, 300, 399, 400, 404, 413, 429, 499, 500, 503, 599}[s.Intn(14)])
	}
	// nobody answers
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	c := f.conf(nil)
	c.InfluxDBPort, _ = strconv.Atoi(port)
	c.WriteTimeout = config.NewDuration(50 * time.Millisecond)
	for _, what := range []string{"silent", "closed"} {
		if what == "closed" {
			l.Close()
		}
		if err := newInfluxClient(c).Write([]byte("x v=1\n")); err == nil || isPermanentError(err) {
			t.Fatalf("writing to a %s server: error %v, permanent %v", what, err, isPermanentError(err))
		}
	}
}
