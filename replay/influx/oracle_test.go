package influx

import "math/big"

// Written from the definitions only, independently of the code under test.

func oUnescape(s []byte) []byte {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && (s[i+1] == ',' || s[i+1] == '"' || s[i+1] == ' ' || s[i+1] == '=') {
			i++
		}
		out = append(out, s[i])
	}
	return out
}

func oIn(c byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == c {
			return true
		}
	}
	return false
}

func oEscape(s []byte, set string) []byte {
	out := []byte{}
	for _, c := range s {
		if oIn(c, set) {
			out = append(out, '\\')
		}
		out = append(out, c)
	}
	return out
}

func oTokenEnd(s []byte, until string) int {
	for i := range s {
		if oIn(s[i], until) && (i == 0 || s[i-1] != '\\') {
			return i
		}
	}
	return len(s)
}

// oInt is the value of an optional minus sign and digits that fits 64 bits.
func oInt(s []byte) (int64, bool) {
	d := s
	if len(d) > 0 && d[0] == '-' {
		d = d[1:]
	}
	if len(d) == 0 {
		return 0, false
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, _ := new(big.Int).SetString(string(s), 10)
	if n == nil || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

type oTag struct{ key, value string }

// oParseTags returns the parts of a line; ok is false if it is malformed.
func oParseTags(line []byte) (name string, tags []oTag, rest []byte, ok bool) {
	e := oTokenEnd(line, ", ")
	name = string(oUnescape(line[:e]))
	line = line[e:]
	for len(line) > 0 && line[0] == ',' {
		line = line[1:]
		e = oTokenEnd(line, "= ,")
		key := string(oUnescape(line[:e]))
		if e == 0 || e == len(line) || line[e] != '=' {
			return "", nil, nil, false
		}
		line = line[e+1:]
		e = oTokenEnd(line, ", ")
		if e == 0 {
			return "", nil, nil, false
		}
		tags = append(tags, oTag{key, string(oUnescape(line[:e]))})
		line = line[e:]
	}
	if len(line) > 0 {
		line = line[1:]
	}
	return name, tags, line, true
}
