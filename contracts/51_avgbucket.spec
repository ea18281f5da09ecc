package downsampler

// ---- exact integers
ghostfield bigv: Int of big.Int

extern big.NewInt(x) (r)
  ensures r != nil && allocated(r) && bigv(r) == x

extern big.(*Int).Add(z, x, y) (r)
  requires z != nil && x != nil && y != nil
  modifies bigv(z)
  ensures r == z && bigv(z) == old(bigv(x)) + old(bigv(y))

extern big.(*Int).Quo(z, x, y) (r)
  requires z != nil && x != nil && y != nil && bigv(y) != 0
  modifies bigv(z)
  ensures r == z && bigv(z) == tdiv(old(bigv(x)), old(bigv(y)))

extern big.(*Int).Int64(x) (r)
  requires x != nil
  ensures -9223372036854775808 <= bigv(x) && bigv(x) <= 9223372036854775807 ==> r == bigv(x)

// an integer as a field value
def isintf(s) = len(s) >= 2 && s[len(s)-1] == 'i' && isint(s[..len(s)-1])
def intf(s) = intval(s[..len(s)-1])

// the sum of count 64 bit values
def intok(v) = v != nil && v.sum != nil && v.count >= 1 && -9223372036854775808 * v.count <= bigv(v.sum) && bigv(v.sum) <= 9223372036854775807 * v.count

contract downsampler.(*intFieldValue).update(v, b) (err)
  requires intok(v) && v.count < 9223372036854775807
  modifies v.count, bigv(v.sum)
  ensures err == nil <==> isintf(b(b))
  ensures err == nil ==> bigv(v.sum) == old(bigv(v.sum)) + intf(b(b)) && v.count == old(v.count) + 1
  ensures err != nil ==> bigv(v.sum) == old(bigv(v.sum)) && v.count == old(v.count)
  ensures intok(v)

lemma tdiv_range(s: Int, n: Int)
  requires n >= 1 && -9223372036854775808 * n <= s && s <= 9223372036854775807 * n
  ensures -9223372036854775808 <= tdiv(s, n) && tdiv(s, n) <= 9223372036854775807

contract downsampler.(*intFieldValue).bytes(v) (r)
  requires intok(v)
  use tdiv_range(bigv(v.sum), v.count)
  ensures b(r) == itoa(tdiv(bigv(v.sum), v.count)) + "i"
  ensures bigv(v.sum) == old(bigv(v.sum))
  ensures fresh(r)

contract downsampler.(*stringFieldValue).update(v, b) (err)
  requires v != nil
  modifies v.b
  ensures err == nil && v.b == b

contract downsampler.(*stringFieldValue).bytes(v) (r)
  requires v != nil
  ensures b(r) == unit(34) + esc(b(v.b), unit(34), len(v.b)) + unit(34)

contract downsampler.(*rawFieldValue).update(v, b) (err)
  requires v != nil
  modifies v.b
  ensures err == nil && v.b == b

contract downsampler.(*rawFieldValue).bytes(v) (r)
  requires v != nil
  ensures r == v.b

// ---- floating point, taken as exact (fadd, fmul and i2f are the operations of
// the code): the value of a text, and the text of a value
declare isfloat(s: S): Bool
declare fltv(s: S): F
declare fadd(a: F, b: F): F
declare fmul(a: F, b: F): F
declare i2f(n: Int): F
extern strconv.ParseFloat(s, bits) (f, err)
  ensures err == nil <==> isfloat(s)
  ensures err == nil && bits == 64 ==> f == fltv(s)

// the shortest text is parsed as the value it was made from
extern strconv.AppendFloat(dst, f, format, prec, bits) (r)
  modifies spare(dst)
  ensures dst == nil && format == 103 && prec == -1 && bits == 64 ==> isfloat(b(r)) && fltv(b(r)) == f
  ensures ref(r) == ref(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r)

// the sum of the values so far
def fsumof(v) = fmul(v.average, i2f(v.count))

contract downsampler.(*floatFieldValue).bytes(v) (r)
  requires v != nil
  ensures isfloat(b(r)) && fltv(b(r)) == v.average

rec fsum(X: [Int]F, n: Int): F = if n <= 0 then i2f(0) else fadd(fsum(X, n-1), X[n-1])

// averages A[1], A[2], … as the updates give them are the means of the values
lemma fmean(A: [Int]F, X: [Int]F, n: Int)
  requires n >= 1 && A[1] == X[0]
  requires forall k :: {A[k]} 1 < k && k <= n ==> fmul(A[k], i2f(k)) == fadd(fmul(A[k-1], i2f(k-1)), X[k-1])
  ensures fmul(A[n], i2f(n)) == fsum(X, n)
  decreases n
  case n == 1
  use fmean(A, X, n-1)

contract downsampler.(*floatFieldValue).update(v, b) (err)
  requires v != nil && v.count >= 1 && v.count < 9223372036854775807
  modifies v.count, v.average
  ensures err == nil <==> isfloat(b(b))
  ensures err == nil ==> v.count == old(v.count) + 1
  ensures err == nil ==> fsumof(v) == fadd(fmul(old(v.average), i2f(old(v.count))), fltv(b(b)))
  ensures err != nil ==> v.count == old(v.count) && v.average == old(v.average)

contract downsampler.newStringValue(v) (r)
  ensures istype(r, *downsampler.stringFieldValue) && vok(r) && vnew(r)
  ensures let s = as(r, *downsampler.stringFieldValue) in s != nil && fresh(s) && s.b == v

contract downsampler.newFieldValue(v) (r)
  ensures r != nil && vref(r) != 0 && vnew(r) && vok(r)
  ensures isintf(b(v)) ==> istype(r, *downsampler.intFieldValue) && (let i = as(r, *downsampler.intFieldValue) in intok(i) && fresh(i) && i.count == 1 && bigv(i.sum) == intf(b(v)))
  ensures !isintf(b(v)) && isfloat(b(v)) ==> istype(r, *downsampler.floatFieldValue) && (let f = as(r, *downsampler.floatFieldValue) in f != nil && fresh(f) && f.count == 1 && f.average == fltv(b(v)))
  ensures !isintf(b(v)) && !isfloat(b(v)) ==> istype(r, *downsampler.rawFieldValue) && (let w = as(r, *downsampler.rawFieldValue) in w != nil && fresh(w) && w.b == v)

property C16
  functions downsampler.(*intFieldValue).update downsampler.(*intFieldValue).bytes downsampler.(*stringFieldValue).update downsampler.(*stringFieldValue).bytes
  functions downsampler.(*rawFieldValue).update downsampler.(*rawFieldValue).bytes downsampler.(*floatFieldValue).update downsampler.newFieldValue downsampler.newStringValue
  lemmas tdiv_range
  bounded downsampler:TestC16 sequences of values of one field

property C29
  functions downsampler.(*floatFieldValue).update downsampler.(*floatFieldValue).bytes downsampler.newFieldValue
  lemmas fmean
  bounded downsampler:TestC29 averages of finite values against exact arithmetic, within a few units of rounding
  note floating point arithmetic is treated as exact, values as finite; strconv's parsing and shortest formatting are assumed to be inverse
