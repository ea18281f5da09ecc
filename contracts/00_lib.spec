// Contracts of the standard library that several packages rely on, and shared definitions.

// os.IsNotExist, which made-up errors never satisfy
declare notexist(r:Int): Bool

extern errors.New(msg) (err)
  ensures err != nil && !notexist(ref(err))

extern fmt.Errorf(format, args) (err)
  ensures err != nil && !notexist(ref(err))

def isdigit(c) = '0' <= c && c <= '9'

// ---- time: a time.Time or time.Duration stands for a number of nanoseconds;
// clk is the reading of the clock that was returned last.
ghost clk: Int

// The clock is between the years 1823 and 2116.
extern time.Now() (t)
  modifies clk
  ensures t == clk && -4611686018427387904 < t && t < 4611686018427387904

extern time.Since(t) (d)
  modifies clk
  ensures d == clk - t

extern time.Time.Add(t, d) (r)
  ensures r == t + d

extern time.Time.Sub(t, u) (r)
  ensures r == t - u

extern time.Time.After(t, u) (r)
  ensures r <==> t > u

extern time.Time.Before(t, u) (r)
  ensures r <==> t < u

extern time.Time.Equal(t, u) (r)
  ensures r <==> t == u

// ---- streams: what has been read from a reader so far
ghostfield rdlog: S
// and what each read returned
ghostfield rdn: Int
ghostfield rdpay: [Int]S

// Nothing may be read into less than 64 KiB of memory (a longer datagram would be truncated).
extern io.Reader.Read(r, p) (n, err)
  requires len(p) >= 65536
  modifies p[..], rdlog(r), rdn(r), rdpay(r)
  ensures 0 <= n && n <= len(p)
  ensures rdlog(r) == old(rdlog(r)) + b(p)[..n]
  ensures rdn(r) == old(rdn(r)) + 1 && rdpay(r) == store(old(rdpay(r)), old(rdn(r)), b(p)[..n])

// ---- byte strings

// the first position from k on at which s has byte c, or -1
rec idx(s: S, c: Int, k: Int): Int = if k >= len(s) then -1 else (if s[k] == c then k else idx(s, c, k+1))

lemma idx_bound(s: S, c: Int, k: Int)
  requires 0 <= k
  ensures idx(s, c, k) == -1 || k <= idx(s, c, k) && idx(s, c, k) < len(s) && s[idx(s, c, k)] == c
  decreases len(s) - k
  use idx_bound(s, c, k+1)
  trigger idx(s, c, k)
  auto
  case k >= len(s)

lemma idx_first(s: S, c: Int, k: Int, j: Int)
  requires 0 <= k && k <= j && j < len(s) && s[j] == c
  ensures k <= idx(s, c, k) && idx(s, c, k) <= j
  decreases len(s) - k
  use idx_first(s, c, k+1, j)
  trigger idx(s, c, k), s[j]
  auto

def bhas(s, c) = idx(s, c, 0) >= 0

extern bytes.IndexByte(s, c) (r)
  ensures r == idx(b(s), c, 0)

extern bytes.Equal(p, q) (r)
  ensures r <==> b(p) == b(q)

extern bytes.Compare(p, q) (r)
  ensures r < 0 <==> sltlex(b(p), b(q))
  ensures r == 0 <==> b(p) == b(q)

// s from k on with each old replaced
rec repl(s: S, old_: S, new_: S, k: Int): S = if k >= len(s) then "" else
   (if k + len(old_) <= len(s) && s[k..k+len(old_)] == old_ then new_ + repl(s, old_, new_, k+len(old_)) else unit(s[k]) + repl(s, old_, new_, k+1))

extern bytes.Replace(s, from, to, n) (r)
  ensures fresh(r)
  ensures n < 0 && len(from) > 0 ==> b(r) == repl(b(s), b(from), b(to), 0)

// ---- splitting at a character: piece j is s[lst(s, c, j)..lnend(s, c, lst(s, c, j))]

rec lnend(s: S, c: Int, k: Int): Int = if idx(s, c, k) < 0 then len(s) else idx(s, c, k)
rec lst(s: S, c: Int, j: Int): Int = if j <= 0 then 0 else lnend(s, c, lst(s, c, j-1)) + 1
rec nlines(s: S, c: Int, k: Int): Int = if idx(s, c, k) < 0 || k < 0 then 1 else 1 + nlines(s, c, idx(s, c, k)+1)

extern bytes.Split(s, sep) (r)
  ensures b(sep) == "\n" ==> len(r) == nlines(b(s), '\n', 0) && fresh(r)
  ensures b(sep) == "\n" ==> forall j :: 0 <= j && j < len(r) ==> 0 <= lst(b(s), '\n', j) && lst(b(s), '\n', j) <= lnend(b(s), '\n', lst(b(s), '\n', j)) && lnend(b(s), '\n', lst(b(s), '\n', j)) <= len(s) && ref(r[j]) == ref(s) && off(r[j]) == off(s) + lst(b(s), '\n', j) && len(r[j]) == lnend(b(s), '\n', lst(b(s), '\n', j)) - lst(b(s), '\n', j)
  ensures b(sep) == "\n" ==> forall j :: {lst(b(s), '\n', j)} 0 <= j && j < len(r) ==> 0 <= lst(b(s), '\n', j) && lst(b(s), '\n', j) <= lnend(b(s), '\n', lst(b(s), '\n', j)) && lnend(b(s), '\n', lst(b(s), '\n', j)) <= len(s) && ref(r[j]) == ref(s) && off(r[j]) == off(s) + lst(b(s), '\n', j) && len(r[j]) == lnend(b(s), '\n', lst(b(s), '\n', j)) - lst(b(s), '\n', j)

// the end of the piece that starts at k, its newline included
rec lnafter(s: S, c: Int, k: Int): Int = if idx(s, c, k) < 0 then len(s) else idx(s, c, k) + 1

extern bytes.SplitAfter(s, sep) (r)
  ensures b(sep) == "\n" ==> len(r) == nlines(b(s), '\n', 0) && fresh(r)
  ensures b(sep) == "\n" ==> forall j :: 0 <= j && j < len(r) ==> 0 <= lst(b(s), '\n', j) && lst(b(s), '\n', j) <= lnafter(b(s), '\n', lst(b(s), '\n', j)) && lnafter(b(s), '\n', lst(b(s), '\n', j)) <= len(s) && lnafter(b(s), '\n', lst(b(s), '\n', j)) <= lst(b(s), '\n', j+1) && lst(b(s), '\n', j) < lst(b(s), '\n', j+1) && ref(r[j]) == ref(s) && off(r[j]) == off(s) + lst(b(s), '\n', j) && len(r[j]) == lnafter(b(s), '\n', lst(b(s), '\n', j)) - lst(b(s), '\n', j)
  ensures b(sep) == "\n" ==> forall j :: {lst(b(s), '\n', j)} 0 <= j && j < len(r) ==> 0 <= lst(b(s), '\n', j) && lst(b(s), '\n', j) <= lnafter(b(s), '\n', lst(b(s), '\n', j)) && lnafter(b(s), '\n', lst(b(s), '\n', j)) <= len(s) && ref(r[j]) == ref(s) && off(r[j]) == off(s) + lst(b(s), '\n', j) && len(r[j]) == lnafter(b(s), '\n', lst(b(s), '\n', j)) - lst(b(s), '\n', j)
