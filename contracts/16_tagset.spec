package influx

def esctag(s) = esc(s, ",= ", len(s))

// the first n tags in line protocol format
rec tagsb(K: [Int]S, V: [Int]S, n: Int): S = if n <= 0 then "" else
   tagsb(K, V, n-1) + (if n == 1 then "" else ",") + (esctag(K[n-1]) + ("=" + esctag(V[n-1])))

lemma tagsb_same(K: [Int]S, V: [Int]S, L: [Int]S, W: [Int]S, n: Int)
  requires forall j :: {K[j]} {L[j]} 0 <= j && j < n ==> K[j] == L[j]
  requires forall j :: {V[j]} {W[j]} 0 <= j && j < n ==> V[j] == W[j]
  ensures tagsb(K, V, n) == tagsb(L, W, n)
  decreases n
  case n <= 0
  use tagsb_same(K, V, L, W, n-1)
  trigger tagsb(K, V, n), tagsb(L, W, n)
  auto

// no received message is larger than 64 MiB
def msglimit() = 67108864

contract influx.TagSet.Bytes(t) (r)
  requires len(t) <= msglimit() && forall j :: 0 <= j && j < len(t) ==> len(t[j].Key) <= msglimit() && len(t[j].Value) <= msglimit()
  invariant 0 <= outSize && outSize <= 134217730 * #i
  ensures b(r) == tagsb(arr i :: b(t[i].Key), arr i :: b(t[i].Value), len(t))
  ensures len(r) > 0 ==> fresh(r)
  invariant b(out) == tagsb(old(arr i :: b(t[i].Key)), old(arr i :: b(t[i].Value)), #i) + (if 0 < #i && #i < len(t) then "," else "")
  // (the separator before the tag)
  invariant b(out) == tagsb(old(arr i :: b(t[i].Key)), old(arr i :: b(t[i].Value)), #i)
  invariant fresh(out)

contract influx.TagSet.Len(t) (n)
  ensures n == len(t)

contract influx.TagSet.Less(t, i, j) (r)
  requires 0 <= i && i < len(t) && 0 <= j && j < len(t)
  ensures r <==> sltlex(b(t[i].Key), b(t[j].Key))

contract influx.TagSet.Swap(t, i, j)
  requires 0 <= i && i < len(t) && 0 <= j && j < len(t)
  modifies t[i], t[j]
  ensures t[i] == old(t[j]) && t[j] == old(t[i])

// the tag k=v is among the first n
rec tagin(K: [Int]S, V: [Int]S, n: Int, k: S, v: S): Bool = n > 0 && (K[n-1] == k && V[n-1] == v || tagin(K, V, n-1, k, v))

lemma tagin_mono(K: [Int]S, V: [Int]S, n: Int, m: Int, k: S, v: S)
  requires n <= m && tagin(K, V, n, k, v)
  ensures tagin(K, V, m, k, v)
  decreases m
  case n == m
  use tagin_mono(K, V, n, m-1, k, v)
  trigger tagin(K, V, n, k, v), tagin(K, V, m, k, v)
  auto

// how many of the first n are true
rec cnt(F: [Int]Bool, n: Int): Int = if n <= 0 then 0 else cnt(F, n-1) + (if F[n-1] then 1 else 0)

lemma cnt_range(F: [Int]Bool, n: Int)
  requires 0 <= n
  ensures 0 <= cnt(F, n) && cnt(F, n) <= n
  decreases n
  case n == 0
  use cnt_range(F, n-1)
  trigger cnt(F, n)
  auto

lemma cnt_same(F: [Int]Bool, G: [Int]Bool, n: Int)
  requires forall j :: {F[j]} 0 <= j && j < n ==> (F[j] <==> G[j])
  ensures cnt(F, n) == cnt(G, n)
  decreases n
  case n <= 0
  use cnt_same(F, G, n-1)

lemma cnt_set(F: [Int]Bool, G: [Int]Bool, n: Int, k: Int)
  requires 0 <= k && k < n && !F[k] && G[k]
  requires forall j :: {F[j]} {G[j]} 0 <= j && j < n && j != k ==> (F[j] <==> G[j])
  ensures cnt(G, n) == cnt(F, n) + 1
  decreases n
  case k == n-1
  use cnt_same(F, G, n-1)
  use cnt_set(F, G, n-1, k)
  trigger cnt(F, n), cnt(G, n), G[k]
  auto

lemma cnt_full(F: [Int]Bool, n: Int, j: Int)
  requires cnt(F, n) == n && 0 <= j && j < n
  ensures F[j]
  decreases n
  case j == n-1
  use cnt_full(F, n-1, j)
  use cnt_range(F, n-1)
  trigger cnt(F, n), F[j]
  auto

lemma cnt_but(F: [Int]Bool, n: Int, k: Int, j: Int)
  requires cnt(F, n) == n-1 && 0 <= k && k < n && !F[k] && 0 <= j && j < n && j != k
  ensures F[j]
  decreases n
  use cnt_full(F, n-1, j)
  use cnt_full(F, n-1, k)
  use cnt_but(F, n-1, k, j)
  trigger cnt(F, n), F[k], F[j]
  auto

lemma cnt_not(F: [Int]Bool, n: Int)
  ensures 0 <= n && cnt(F, n) < n ==> exists j :: {F[j]} 0 <= j && j < n && !F[j]
  decreases n
  case n <= 0
  use cnt_not(F, n-1)
  trigger cnt(F, n)
  auto

lemma cnt_none(F: [Int]Bool, n: Int)
  requires forall j :: {F[j]} 0 <= j && j < n ==> !F[j]
  ensures cnt(F, n) == 0
  decreases n
  case n <= 0
  use cnt_none(F, n-1)
  trigger cnt(F, n)
  auto

contract influx.TagSet.SubsetOf(t, other) (r)
  ensures r <==> forall i :: 0 <= i && i < len(t) ==> tagin(arr j :: b(other[j].Key), arr j :: b(other[j].Value), len(other), b(t[i].Key), b(t[i].Value))
  invariant forall i :: 0 <= i && i < len(t) ==> (found[i] <==> tagin(arr j :: b(other[j].Key), arr j :: b(other[j].Value), #i, b(t[i].Key), b(t[i].Value)))
  invariant forall i :: 0 <= i && i < #i ==> (found[i] <==> tagin(arr j :: b(other[j].Key), arr j :: b(other[j].Value), #o+1, b(t[i].Key), b(t[i].Value)))
  invariant forall i :: #i <= i && i < len(t) ==> (found[i] <==> tagin(arr j :: b(other[j].Key), arr j :: b(other[j].Value), #o, b(t[i].Key), b(t[i].Value)))
  invariant foundCount == cnt(arr j :: found[j], numTags) && foundCount < numTags
