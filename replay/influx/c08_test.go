package influx

import (
	"bytes"
	"testing"
)

func vCheckEsc(t *testing.T, in []byte, until string) {
	orig := string(in)
	eq := func(what string, got []byte, want []byte) {
		if !bytes.Equal(got, want) {
			t.Fatalf("%s of %q (%q) gives %q, expected %q", what, orig, until, got, want)
		}
		if string(in) != orig {
			t.Fatalf("%s modified its input %q", what, orig)
		}
	}
	eq("Unescape", Unescape(in), oUnescape([]byte(orig)))
	eq("Escape", Escape(in, []byte(until)), oEscape([]byte(orig), until))
	eq("EscapeTagPart", EscapeTagPart(in), oEscape([]byte(orig), ",= "))
	eq("EscapeMeasurement", EscapeMeasurement(in), oEscape([]byte(orig), ", "))
	eq("EscapeQuotedString", EscapeQuotedString(in), append(append([]byte{'"'}, oEscape([]byte(orig), "\"")...), '"'))
	if len(until) > 0 {
		e := oTokenEnd([]byte(orig), until)
		tok, rest := Token(in, []byte(until))
		eq("Token", tok, oUnescape([]byte(orig)[:e]))
		eq("Token (remainder)", rest, []byte(orig)[e:])
		tok, rest = TokenEscaped(in, []byte(until))
		eq("TokenEscaped", tok, []byte(orig)[:e])
		eq("TokenEscaped (remainder)", rest, []byte(orig)[e:])
	}
	// the quoted string ends at the first double quote that isn't escaped;
	// a backslash escapes a backslash or a double quote
	end := -1
	if len(orig) >= 2 && orig[0] == '"' {
		for i := 1; i < len(orig); i++ {
			if orig[i] == '\\' && i+1 < len(orig) && (orig[i+1] == '\\' || orig[i+1] == '"') {
				i++
			} else if orig[i] == '"' {
				end = i
				break
			}
		}
	}
	str, rest, err := QuotedString(in)
	if (err == nil) != (end >= 0) {
		t.Fatalf("QuotedString(%q) returns error %v", orig, err)
	}
	if err == nil {
		eq("QuotedString", str, bytes.Replace([]byte(orig)[1:end], []byte(`\"`), []byte(`"`), -1))
		eq("QuotedString (remainder)", rest, []byte(orig)[end+1:])
	}
}

func TestC08(t *testing.T) {
	for _, until := range []string{", ", "= ,", "=", "", "\\"} {
		until := until
		venum("\\, a\"", 6, func(b []byte) {
			if until == ", " || len(b) < 6 {
				vCheckEsc(t, b, until)
			}
		})
		venum("\"\\a", 8, func(b []byte) {
			if until == ", " {
				vCheckEsc(t, b, until)
			}
		})
	}
	s := vnew(t)
	for s.more(200000) {
		b := s.bytes("\\\\\\,= \"\"ab\n", 40)
		if s.Intn(3) == 0 {
			b = append([]byte{'"'}, b...)
		}
		if s.Intn(4) == 0 {
			r := make([]byte, s.Intn(20))
			s.Read(r)
			b = append(b, r...)
		}
		vCheckEsc(t, b, s.pick(", ", "= ,", "=", ",", " ", "", "\"", "ab"))
	}
}
