package influx

import (
	"bytes"
	"testing"
)

func vCheckTags(t *testing.T, in []byte) {
	orig := string(in)
	name, tags, rest, ok := oParseTags([]byte(orig))
	// spare capacity behind the line must neither be read nor written
	mem := append(append([]byte(nil), in...), "=X,Y=Z "...)
	in = mem[:len(orig)]
	m, ts, r, err := ParseTags(in)
	if (err == nil) != ok {
		t.Fatalf("ParseTags(%q): error %v, well formed %v", orig, err, ok)
	}
	if string(mem) != orig+"=X,Y=Z " {
		t.Fatalf("ParseTags(%q) modified the line or what follows it", orig)
	}
	if err != nil {
		return
	}
	if string(m) != name {
		t.Fatalf("ParseTags(%q): measurement %q, expected %q", orig, m, name)
	}
	if len(ts) != len(tags) {
		t.Fatalf("ParseTags(%q): tags %v, expected %v", orig, ts, tags)
	}
	for i := range tags {
		if string(ts[i].Key) != tags[i].key || string(ts[i].Value) != tags[i].value {
			t.Fatalf("ParseTags(%q): tag %d is %q=%q, expected %q=%q", orig, i, ts[i].Key, ts[i].Value, tags[i].key, tags[i].value)
		}
	}
	if !bytes.Equal(r, rest) {
		t.Fatalf("ParseTags(%q): remainder %q, expected %q", orig, r, rest)
	}
}

func TestC09(t *testing.T) {
	venum("a,= \\", 8, func(b []byte) { vCheckTags(t, b) })
	s := vnew(t)
	for s.more(200000) {
		if s.Intn(3) == 0 {
			vCheckTags(t, s.bytes("ab,= \\\"\n", 30))
			continue
		}
		l := s.bytes("ab\\", 4)
		for i := s.Intn(6); i > 0; i-- {
			l = append(l, ',')
			l = append(l, s.bytes("k\\=,\" ", 3)...)
			l = append(l, s.bytes("kab", 2)...)
			l = append(l, '=')
			l = append(l, s.bytes("v\\=\"", 3)...)
			l = append(l, s.bytes("vab", 2)...)
		}
		if s.Intn(5) > 0 {
			l = append(l, ' ')
			l = append(l, s.bytes("f=1,\"\\ ", 12)...)
		}
		vCheckTags(t, l)
	}
}
