package convert

import (
	"math/big"
	"regexp"
	"testing"
)

var vIntRE = regexp.MustCompile(`\A-?[0-9]+\z`)

func vOracleInt(b []byte) (int64, bool) {
	if !vIntRE.Match(b) {
		return 0, false
	}
	n, _ := new(big.Int).SetString(string(b), 10)
	if !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func TestC07Int(t *testing.T) {
	check := func(b []byte) {
		in := string(b)
		n, err := ToInt(b)
		wn, wok := vOracleInt([]byte(in))
		if (err == nil) != wok || wok && n != wn {
			t.Fatalf("ToInt(%q) = %d, %v; the exact answer is %d, valid %v", in, n, err, wn, wok)
		}
		if string(b) != in {
			t.Fatalf("ToInt modified its input %q", in)
		}
	}
	venum("09-+ a/:", 4, check)
	for c := 0; c < 256; c++ {
		check([]byte{byte(c)})
		check([]byte{'1', byte(c)})
		check([]byte{'-', byte(c)})
	}
	s := vnew(t)
	lim := new(big.Int).Lsh(big.NewInt(1), 63)
	for s.more(400000) {
		var n *big.Int
		switch s.Intn(6) {
		case 0:
			n = new(big.Int).Rand(s.Rand, new(big.Int).Lsh(big.NewInt(1), uint(s.Intn(80))))
		case 1:
			n = new(big.Int).Add(lim, big.NewInt(int64(s.Intn(41)-20)))
		case 2:
			n = new(big.Int).Add(new(big.Int).Mul(lim, big.NewInt(int64(s.Intn(25)))), big.NewInt(int64(s.Intn(41)-20)))
		case 3:
			n = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(s.Intn(24))), nil)
			n.Add(n, big.NewInt(int64(s.Intn(5)-2)))
		case 4:
			check(s.bytes("0123456789-", 22))
			continue
		default:
			n = new(big.Int).Add(new(big.Int).Mul(lim, big.NewInt(int64(s.Intn(21)))), new(big.Int).Rand(s.Rand, lim))
		}
		if s.Intn(2) == 0 {
			n.Neg(n)
		}
		txt := n.String()
		if s.Intn(4) == 0 && n.Sign() >= 0 {
			txt = "000"[:s.Intn(4)] + txt
		}
		check([]byte(txt))
	}
}
