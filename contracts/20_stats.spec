package stats

// ---- atomic counters. Other goroutines may use the same counter at any time, so its
// value may have grown whenever it is looked at; mine(p) is what this goroutine
// has added to counter p itself.
ghostfield mine: Int
// the value this goroutine last stored in it
ghostfield lastset: Int

extern atomic.LoadUint64(p) (r)
  modifies *p
  ensures *p >= old(*p) && r == *p

extern atomic.AddUint64(p, d) (r)
  modifies *p, mine(p)
  ensures mine(p) == old(mine(p)) + d
  ensures r == *p
  ensures old(*p) + d < 18446744073709551616 ==> *p >= old(*p) + d

extern atomic.CompareAndSwapUint64(p, was, new) (ok)
  modifies *p, lastset(p)
  ensures ok ==> *p == new && was >= old(*p) && lastset(p) == new
  ensures !ok ==> *p >= old(*p) && lastset(p) == old(lastset(p))

def counter(s, i) = ptr(ref(s.counts), off(s.counts)+i, *uint64)

contract stats.NewAnon(size) (s)
  requires 0 <= size && size <= 1000000000
  ensures fresh(s) && fresh(s.counts) && len(s.counts) == size && forall j :: 0 <= j && j < size ==> s.counts[j] == 0

contract stats.(*AnonStats).Get(s, i) (n)
  requires 0 <= i && i < len(s.counts)
  modifies s.counts[i]
  ensures n == s.counts[i] && s.counts[i] >= old(s.counts[i])

contract stats.(*AnonStats).Inc(s, i) (n)
  requires 0 <= i && i < len(s.counts)
  modifies s.counts[i], mine(counter(s, i))
  ensures mine(counter(s, i)) == old(mine(counter(s, i))) + 1
  ensures n == s.counts[i]
  ensures old(s.counts[i]) < 18446744073709551615 ==> s.counts[i] > old(s.counts[i])

contract stats.(*AnonStats).Max(s, i, v) (n)
  requires 0 <= i && i < len(s.counts)
  diverges
  modifies s.counts[i], lastset(counter(s, i))
  ensures n == s.counts[i] && n >= old(s.counts[i]) && n >= v
  ensures lastset(counter(s, i)) == old(lastset(counter(s, i))) || n == v && lastset(counter(s, i)) == v
  invariant s.counts[i] >= old(s.counts[i])
  invariant lastset(counter(s, i)) == old(lastset(counter(s, i)))

contract stats.(*AnonStats).Snapshot(s) (out)
  modifies s.counts[..]
  ensures len(out) == len(s.counts) && (len(out) > 0 ==> fresh(out))
  ensures forall j :: 0 <= j && j < len(out) ==> old(s.counts[j]) <= out[j] && out[j] <= s.counts[j]
  invariant forall j :: 0 <= j && j < i ==> old(s.counts[j]) <= out[j] && out[j] <= s.counts[j]
  invariant forall j :: 0 <= j && j < len(s.counts) ==> old(s.counts[j]) <= s.counts[j]

def distinct(names) = forall i, j :: 0 <= i && i < j && j < len(names) ==> names[i] != names[j]

contract stats.New(names) (s)
  requires len(names) <= 1000000 && distinct(names)
  ensures fresh(s) && fresh(s.counts) && fresh(s.counts.counts) && len(s.counts.counts) == len(names)
  ensures forall j :: 0 <= j && j < len(names) ==> has(s.nameIndex, names[j]) && s.nameIndex[names[j]] == j
  ensures forall j :: 0 <= j && j < len(names) ==> s.counts.counts[j] == 0
  // (instances, for lists of names)
  ensures len(names) > 0 ==> has(s.nameIndex, names[0]) && s.nameIndex[names[0]] == 0
  ensures len(names) > 1 ==> has(s.nameIndex, names[1]) && s.nameIndex[names[1]] == 1
  ensures len(names) > 2 ==> has(s.nameIndex, names[2]) && s.nameIndex[names[2]] == 2
  ensures len(names) > 3 ==> has(s.nameIndex, names[3]) && s.nameIndex[names[3]] == 3
  ensures len(names) > 4 ==> has(s.nameIndex, names[4]) && s.nameIndex[names[4]] == 4
  ensures len(names) > 5 ==> has(s.nameIndex, names[5]) && s.nameIndex[names[5]] == 5
  ensures len(names) > 6 ==> has(s.nameIndex, names[6]) && s.nameIndex[names[6]] == 6
  ensures len(names) > 7 ==> has(s.nameIndex, names[7]) && s.nameIndex[names[7]] == 7
  ensures forall k :S :: has(s.nameIndex, k) ==> 0 <= s.nameIndex[k] && s.nameIndex[k] < len(names) && names[s.nameIndex[k]] == k
  invariant forall j :: 0 <= j && j < #i ==> has(nameIndex, names[j]) && nameIndex[names[j]] == j
  invariant forall k :S :: has(nameIndex, k) ==> 0 <= nameIndex[k] && nameIndex[k] < #i && names[nameIndex[k]] == k

// every name has a counter of its own
def statsok(s) = s.counts != nil && forall k :S :: {has(s.nameIndex, k)} has(s.nameIndex, k) ==> 0 <= s.nameIndex[k] && s.nameIndex[k] < len(s.counts.counts)
def statsinj(s) = forall k :S ::  forall l :S :: has(s.nameIndex, k) && has(s.nameIndex, l) && s.nameIndex[k] == s.nameIndex[l] ==> k == l
def named(s, n) = counter(s.counts, s.nameIndex[n])

contract stats.(*Stats).lookup(s, name) (i)
  requires has(s.nameIndex, name)
  ensures i == s.nameIndex[name]

contract stats.(*Stats).Inc(s, name) (n)
  requires statsok(s) && has(s.nameIndex, name)
  modifies s.counts.counts[s.nameIndex[name]], mine(named(s, name))
  ensures mine(named(s, name)) == old(mine(named(s, name))) + 1
  ensures n == s.counts.counts[s.nameIndex[name]]
  ensures old(s.counts.counts[s.nameIndex[name]]) < 18446744073709551615 ==> s.counts.counts[s.nameIndex[name]] > old(s.counts.counts[s.nameIndex[name]])

contract stats.(*Stats).Get(s, name) (n)
  requires statsok(s) && has(s.nameIndex, name)
  modifies s.counts.counts[s.nameIndex[name]]
  ensures n == s.counts.counts[s.nameIndex[name]] && n >= old(s.counts.counts[s.nameIndex[name]])

contract stats.(*Stats).Max(s, name, v) (n)
  requires statsok(s) && has(s.nameIndex, name)
  modifies s.counts.counts[s.nameIndex[name]], lastset(named(s, name))
  ensures n == s.counts.counts[s.nameIndex[name]] && n >= old(s.counts.counts[s.nameIndex[name]]) && n >= v
  ensures lastset(named(s, name)) == old(lastset(named(s, name))) || n == v && lastset(named(s, name)) == v

contract stats.(*Stats).Snapshot(s) (out)
  requires statsok(s)
  modifies s.counts.counts[..]
  ensures len(out) == len(s.nameIndex)
  ensures forall j :: 0 <= j && j < len(out) ==> has(s.nameIndex, out[j].Name) && (let k = s.nameIndex[out[j].Name] in old(s.counts.counts[k]) <= out[j].Value && out[j].Value <= s.counts.counts[k])
  ensures forall i, j :: 0 <= i && i < j && j < len(out) ==> out[i].Name != out[j].Name
  invariant len(out) == nvisited(#it) && (len(out) == 0 || fresh(out))
  invariant forall j :: 0 <= j && j < len(s.counts.counts) ==> old(s.counts.counts[j]) <= s.counts.counts[j]
  invariant forall j :: 0 <= j && j < len(out) ==> visited(#it, out[j].Name) && has(s.nameIndex, out[j].Name) && (let k = s.nameIndex[out[j].Name] in old(s.counts.counts[k]) <= out[j].Value && out[j].Value <= s.counts.counts[k])
  invariant forall i, j :: 0 <= i && i < j && j < len(out) ==> out[i].Name != out[j].Name
