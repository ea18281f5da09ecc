package config

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/spf13/afero"
)

// vsetting is how a setting is written in a file and what it means.
type vsetting struct {
	toml  string
	value interface{}
}

type vrule struct {
	typ, match, subject string
	tags                [][]string
}

func vquote(s string) string { return fmt.Sprintf("%q", s) }

// vdocumented are the settings of the documentation: option, field, default.
var vdocumented = []struct {
	key, field string
	def        interface{}
}{
	{"name", "Name", ""},
	{"mode", "Mode", ""},
	{"nats_address", "NATSAddress", "nats://localhost:4222"},
	{"nats_subject", "NATSSubject", []string{"influx-spout"}},
	{"nats_subject_monitor", "NATSSubjectMonitor", "influx-spout-monitor"},
	{"nats_subject_junkyard", "NATSSubjectJunkyard", "influx-spout-junk"},
	{"influxdb_address", "InfluxDBAddress", "localhost"},
	{"influxdb_protocol", "InfluxDBProtocol", "http"},
	{"influxdb_port", "InfluxDBPort", 8086},
	{"influxdb_dbname", "DBName", "influx-spout-junk"},
	{"batch_max_count", "BatchMaxCount", 10},
	{"batch_max_size", "BatchMaxSize", datasize.ByteSize(0)},
	{"batch_max_age", "BatchMaxAge", 5 * time.Minute},
	{"port", "Port", 0},
	{"workers", "Workers", 8},
	{"write_timeout", "WriteTimeout", 30 * time.Second},
	{"writer_retry_batches", "WriterRetryBatches", 1},
	{"writer_retry_interval", "WriterRetryInterval", 10 * time.Second},
	{"writer_retry_timeout", "WriterRetryTimeout", time.Minute},
	{"read_buffer_size", "ReadBufferSize", datasize.ByteSize(4 << 20)},
	{"nats_max_pending_size", "NATSMaxPendingSize", datasize.ByteSize(200 << 20)},
	{"max_time_delta", "MaxTimeDelta", 10 * time.Minute},
	{"stats_interval", "StatsInterval", 3 * time.Second},
	{"probe_port", "ProbePort", 0},
	{"pprof_port", "PprofPort", 0},
	{"debug", "Debug", false},
	{"downsample_period", "DownsamplePeriod", time.Duration(0)},
	{"downsample_suffix", "DownsampleSuffix", "-archive"},
	{"queue_group", "QueueGroup", ""},
}

// vdraw makes up a value for a setting.
func vdraw(s *vsearch, key string, def interface{}) vsetting {
	str := func(v string) vsetting { return vsetting{vquote(v), v} }
	num := func(vs ...int) vsetting { v := vs[s.Intn(len(vs))]; return vsetting{fmt.Sprint(v), v} }
	switch key {
	case "mode":
		return str(s.pick("listener", "listener_http", "filter", "downsampler", "writer", "monitor", "listener", "filter", "writer", "downsampler", "", "Writer", "x"))
	case "influxdb_protocol":
		return str(s.pick("http", "https", "http", "https", "", "ftp", "HTTP"))
	case "port", "probe_port", "pprof_port", "influxdb_port":
		return num(1, 65535, 80, 8080, 12345, 0, -1, 65536, -65536)
	case "downsample_suffix":
		return str(s.pick("", "-a", "-archive"))
	case "nats_subject":
		n := s.pick("one", "one", "none", "two")
		v := map[string][]string{"one": {"s1"}, "none": {}, "two": {"a", "b"}}[n]
		q := []string{}
		for _, x := range v {
			q = append(q, vquote(x))
		}
		return vsetting{"[" + strings.Join(q, ", ") + "]", v}
	case "batch_max_size":
		v := datasize.ByteSize([]int{0, 1, 1 << 19, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20}[s.Intn(7)])
		return vsetting{vquote(fmt.Sprint(uint64(v))), v}
	}
	switch def.(type) {
	case string:
		return str(s.pick("", "a", "some-where", "nats://h:1"))
	case int:
		return num(0, 1, 2, 77)
	case bool:
		v := s.Intn(2) == 0
		return vsetting{fmt.Sprint(v), v}
	case datasize.ByteSize:
		k := s.Intn(9) + 1
		return vsetting{vquote(fmt.Sprintf("%dMB", k)), datasize.ByteSize(k << 20)}
	case time.Duration:
		k := s.Intn(90)
		u := s.Intn(3)
		return vsetting{vquote(fmt.Sprintf("%d%s", k, []string{"s", "m", "h"}[u])), time.Duration(k) * []time.Duration{time.Second, time.Minute, time.Hour}[u]}
	}
	panic(key)
}

// TestC24Config makes up configuration files and compares what is read, or
// that nothing is, with the documentation.
func TestC24Config(t *testing.T) {
	defer func(fs afero.Fs) { Fs = fs }(Fs)
	s := vnew(t)
	accepted := 0
	for s.more(60000) {
		Fs = afero.NewMemMapFs()
		want := map[string]interface{}{}
		for _, d := range vdocumented {
			want[d.field] = d.def
		}
		var rules []vrule
		shown := ""
		write := func(name string, density int) {
			text := ""
			for _, d := range vdocumented {
				if d.key != "mode" && s.Intn(100) >= density || d.key == "mode" && s.Intn(10) == 0 {
					continue
				}
				if d.key == "downsample_period" && want["Mode"] != "downsampler" && s.Intn(3) > 0 {
					continue
				}
				v := vdraw(s, d.key, d.def)
				text += d.key + " = " + v.toml + "\n"
				want[d.field] = v.value
			}
			// credentials cannot come from a file
			if s.Intn(4) == 0 {
				text += "influxdb_user = \"eve\"\nInfluxDBUser = \"eve\"\n"
			}
			n := s.Intn(4)
			if n > 0 {
				rules = nil
			}
			for i := 0; i < n; i++ {
				r := vrule{}
				text += "[[rule]]\n"
				if s.Intn(12) > 0 {
					r.typ = s.pick("basic", "regex", "negregex", "tags", "tags")
					text += "type = " + vquote(r.typ) + "\n"
				}
				if (r.typ != "tags") != (s.Intn(12) == 0) {
					r.match = "cpu"
					text += "match = \"cpu\"\n"
				}
				if (want["Mode"] == "filter") != (s.Intn(12) == 0) {
					r.subject = "out"
					text += "subject = \"out\"\n"
				}
				if (r.typ == "tags") != (s.Intn(12) == 0) {
					k := s.Intn(3) + 1
					if s.Intn(12) == 0 {
						k = 0
					}
					var all []string
					for j := 0; j < k; j++ {
						tag := []string{"k", fmt.Sprint("v", j)}
						if s.Intn(12) == 0 {
							tag = [][]string{{}, {"k"}, {"k", "v", "w"}}[s.Intn(3)]
						}
						r.tags = append(r.tags, tag)
						var q []string
						for _, x := range tag {
							q = append(q, vquote(x))
						}
						all = append(all, "["+strings.Join(q, ", ")+"]")
					}
					text += "tags = [" + strings.Join(all, ", ") + "]\n"
				}
				rules = append(rules, r)
			}
			afero.WriteFile(Fs, name, []byte(text), 0644)
			shown += "--- " + name + "\n" + text
		}
		if s.Intn(3) == 0 {
			write("/etc/influx-spout.toml", 10)
		}
		name := ""
		for len(name) == 0 || s.Intn(4) > 0 {
			name += s.pick("t", "o", "m", "l", "spout", "x", "-", "é", "f", "c")
		}
		file := s.pick("", "/", "/dir/", "a.b/", "../") + name
		if s.Intn(3) > 0 {
			if s.Intn(3) == 0 {
				file, name = file+".x", name+".x"
			}
			file += s.pick(".toml", ".conf", ".t", ".toml.", ".")
			name = file[strings.LastIndex(file, "/")+1 : strings.LastIndex(file, ".")]
		}
		write(file, []int{0, 10, 30}[s.Intn(3)])
		user, pass := s.pick("", "", "u"), ""
		if (user != "") != (s.Intn(6) == 0) {
			pass = "p"
		}
		os.Setenv("INFLUXDB_USER", user)
		os.Setenv("INFLUXDB_PASS", pass)
		shown += fmt.Sprintf("--- credentials %q %q\n", user, pass)

		// the documentation
		mode := want["Mode"].(string)
		if want["Name"] == "" {
			want["Name"] = name
		}
		if want["BatchMaxSize"] == datasize.ByteSize(0) {
			want["BatchMaxSize"] = datasize.ByteSize(10 << 20)
			if mode == "listener" || mode == "listener_http" {
				want["BatchMaxSize"] = datasize.ByteSize(1 << 20)
			}
		}
		if p, ok := map[string]int{"listener": 10001, "listener_http": 13337, "monitor": 9331}[mode]; ok && want["Port"] == 0 {
			want["Port"] = p
		}
		if mode == "downsampler" && want["DownsamplePeriod"] == time.Duration(0) {
			want["DownsamplePeriod"] = time.Minute
		}
		want["InfluxDBUser"], want["InfluxDBPass"] = "", ""
		if mode == "writer" {
			want["InfluxDBUser"], want["InfluxDBPass"] = user, pass
		}
		port := func(f string, lo int) bool { p := want[f].(int); return p >= lo && p <= 65535 }
		problems := []string{}
		must := func(ok bool, what string) {
			if !ok {
				problems = append(problems, what)
			}
		}
		must(port("ProbePort", 0), "probe port")
		must(port("PprofPort", 0), "pprof port")
		must(mode == "downsampler" || want["DownsamplePeriod"] == time.Duration(0), "downsample_period outside of a downsampler")
		ruled := func(subject bool) {
			for _, r := range rules {
				must(r.typ != "", "rule type")
				must((r.subject != "") == subject, "rule subject")
				must((r.match != "") == (r.typ != "tags"), "rule match")
				must((len(r.tags) > 0) == (r.typ == "tags"), "rule tags")
				for _, x := range r.tags {
					must(len(x) == 2, "tag pairs")
				}
			}
		}
		subjects := len(want["NATSSubject"].([]string))
		switch mode {
		case "listener", "listener_http":
			must(port("Port", 1), "port")
			must(subjects == 1, "one subject")
			must(want["BatchMaxSize"].(datasize.ByteSize) <= 1<<20, "batch size")
		case "filter":
			must(subjects == 1, "one subject")
			ruled(true)
		case "downsampler":
			must(want["DownsampleSuffix"] != "", "suffix")
		case "writer":
			must(subjects > 0, "a subject")
			must(port("InfluxDBPort", 1), "InfluxDB port")
			must(want["InfluxDBProtocol"] == "http" || want["InfluxDBProtocol"] == "https", "protocol")
			must((user == "") == (pass == ""), "credentials")
			ruled(false)
		case "monitor":
		default:
			must(false, "mode")
		}

		c, err := NewConfigFromFile(file)
		if (err == nil) != (len(problems) == 0) {
			t.Fatalf("error %v, but the problems with these settings are %q\n%s", err, problems, shown)
		}
		if err != nil {
			continue
		}
		accepted++
		v := reflect.ValueOf(c).Elem()
		var fields []string
		for f := range want {
			fields = append(fields, f)
		}
		sort.Strings(fields)
		for _, f := range fields {
			got := v.FieldByName(f).Interface()
			if d, ok := got.(Duration); ok {
				got = d.Duration
			}
			if fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", want[f]) {
				t.Fatalf("%s is %#v, expected %#v\n%s", f, got, want[f], shown)
			}
		}
		if len(c.Rule) != len(rules) {
			t.Fatalf("%d rules, expected %d\n%s", len(c.Rule), len(rules), shown)
		}
		for i, r := range rules {
			g := c.Rule[i]
			if g.Rtype != r.typ || g.Match != r.match || g.Subject != r.subject || fmt.Sprint(g.Tags) != fmt.Sprint(r.tags) {
				t.Fatalf("rule %d is %+v, expected %+v\n%s", i, g, r, shown)
			}
		}
	}
	t.Logf("%d accepted", accepted)

	// problems with the files themselves
	Fs = afero.NewMemMapFs()
	os.Setenv("INFLUXDB_USER", "")
	os.Setenv("INFLUXDB_PASS", "")
	if c, err := NewConfigFromFile("/none.toml"); err == nil {
		t.Fatalf("read a file that does not exist: %+v", c)
	}
	afero.WriteFile(Fs, "/bad.toml", []byte("mode = \"writer\"\nport = ["), 0644)
	if c, err := NewConfigFromFile("/bad.toml"); err == nil {
		t.Fatalf("read a malformed file: %+v", c)
	}
	afero.WriteFile(Fs, "/ok.toml", []byte("mode = \"writer\"\n"), 0644)
	if _, err := NewConfigFromFile("/ok.toml"); err != nil {
		t.Fatal(err)
	}
	afero.WriteFile(Fs, "/etc/influx-spout.toml", []byte("workers = ["), 0644)
	if c, err := NewConfigFromFile("/ok.toml"); err == nil {
		t.Fatalf("ignored a malformed common file: %+v", c)
	}
	afero.WriteFile(Fs, "/etc/influx-spout.toml", []byte("workers = \"many\""), 0644)
	if c, err := NewConfigFromFile("/ok.toml"); err == nil {
		t.Fatalf("ignored a wrong common file: %+v", c)
	}
}
