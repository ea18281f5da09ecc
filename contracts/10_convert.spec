package convert

// value of the first k characters of s read as decimal digits
rec dv(s: S, k: Int): Int = if k <= 0 then 0 else dv(s, k-1)*10 + (s[k-1] - '0')

def alldigits(s, k) = forall j :: {s[j]} 0 <= j && j < k ==> isdigit(s[j])

lemma dv_mono(s: S, k: Int, m: Int)
  requires 0 <= k && k <= m
  requires alldigits(s, m)
  ensures 0 <= dv(s, k) && dv(s, k) <= dv(s, m)
  decreases m
  use dv_mono(s, k, m-1)
  use dv_mono(s, m-1, m-1)
  trigger dv(s, k), dv(s, m)
  case k == m

lemma dv_step(s: S, k: Int, m: Int)
  requires 0 <= k && k < m
  requires alldigits(s, m)
  ensures dv(s, k)*10 + s[k] - '0' <= dv(s, m)
  use dv_mono(s, k+1, m)
  assert dv(s, k+1) == dv(s, k)*10 + s[k] - '0'
  trigger dv(s, k), dv(s, m)

def isneg(s) = len(s) > 0 && s[0] == '-'
rec numpart(s: S): S = if isneg(s) then s[1..len(s)] else s
rec intval(s: S): Int = if isneg(s) then -dv(numpart(s), len(numpart(s))) else dv(numpart(s), len(numpart(s)))
rec isint(s: S): Bool = len(numpart(s)) > 0 && alldigits(numpart(s), len(numpart(s)))
   && -9223372036854775808 <= intval(s) && intval(s) <= 9223372036854775807

contract convert.ToInt(src) (n, err)
  uses dv_mono dv_step
  ensures err == nil <==> isint(b(src))
  ensures err == nil ==> n == intval(b(src))
  invariant n == dv(numpart(b(src)), #i)
  invariant alldigits(numpart(b(src)), #i)
  invariant n == dv(numpart(b(src)), i)
  invariant alldigits(numpart(b(src)), i)

property C07
  functions convert.ToInt
  replay convert:TestC07Int
