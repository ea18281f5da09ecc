package lib

// ---- locks: held(&mu) says that this goroutine holds mu
ghostfield held: Bool

extern sync.(*Mutex).Lock(m)
  requires !held(m)
  modifies held(m)
  ensures held(m)

extern sync.(*Mutex).Unlock(m)
  requires held(m)
  modifies held(m)
  ensures !held(m)

// ---- the message bus: what this goroutine has published
ghost npub: Int
ghost psub: [Int]S
ghost pdat: [Int]S
ghost npubfail: Int

extern nats.(*Conn).Publish(nc, subject, data) (err)
  modifies npub, psub, pdat, npubfail
  ensures npub == old(npub) + 1 && psub == store(old(psub), old(npub), subject) && pdat == store(old(pdat), old(npub), b(data))
  ensures npubfail == old(npubfail) + (if err == nil then 0 else 1)

// D[from] to D[to-1] together
rec catd(D: [Int]S, from: Int, to: Int): S = if to <= from then "" else catd(D, from, to-1) + D[to-1]

lemma catd_next(D: [Int]S, from: Int, to: Int, k: Int, v: S)
  requires to <= k
  ensures catd(store(D, k, v), from, to) == catd(D, from, to)
  decreases to - from
  case to <= from
  use catd_next(D, from, to-1, k, v)
  trigger catd(store(D, k, v), from, to)
  auto

extern datasize.ByteSize.Bytes(s) (r)
  ensures r == s
