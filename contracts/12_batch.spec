package batch

global clock != nil

extern batch.sincer.Now(c) (t)
  modifies clk
  ensures t == clk

extern batch.sincer.Since(c, t) (d)
  modifies clk
  ensures d == clk - t

// the implementation in use has the contract assumed of the interface
contract batch.realClock.Now(c) (t)
  modifies clk
  ensures t == clk

contract batch.realClock.Since(c, t) (d)
  modifies clk
  ensures d == clk - t

contract batch.New(capacity) (r)
  requires 0 <= capacity && capacity < 281474976710656
  modifies clk
  ensures r != nil && fresh(r) && fresh(r.buf)
  ensures len(r.buf) == 0 && cap(r.buf) == capacity && r.writes == 0 && r.created == clk

contract batch.(*Batch).Size(b) (n)
  ensures n == len(b.buf)

contract batch.(*Batch).Remaining(b) (n)
  ensures n == cap(b.buf) - len(b.buf)

contract batch.(*Batch).Bytes(b) (s)
  ensures s == b.buf

contract batch.(*Batch).CopyBytes(b) (s)
  ensures b(s) == b(b.buf)
  ensures fresh(s)

contract batch.(*Batch).Writes(b) (n)
  ensures n == b.writes

contract batch.(*Batch).Age(b) (d)
  modifies clk
  ensures b.writes <= 0 ==> d == 0
  ensures b.writes > 0 ==> d == clk - b.created

contract batch.(*Batch).Reset(b)
  modifies b.buf, b.writes, b.created, clk
  ensures len(b.buf) == 0 && b.writes == 0
  ensures ref(b.buf) == ref(old(b.buf)) && off(b.buf) == off(old(b.buf)) && cap(b.buf) == cap(old(b.buf))

def counted(b) = (old(b.writes) == 0 ==> b.created == clk) && (old(b.writes) != 0 ==> b.created == old(b.created))
   && (old(b.writes) < 9223372036854775807 ==> b.writes == old(b.writes) + 1)

def samemem(b) = ref(b.buf) == ref(old(b.buf)) && off(b.buf) == off(old(b.buf)) && cap(b.buf) == cap(old(b.buf)) || fresh(b.buf)

contract batch.(*Batch).Append(b, more)
  modifies b.buf, spare(b.buf), b.writes, b.created, clk
  ensures b(b.buf) == old(b(b.buf)) + old(b(more))
  ensures counted(b)
  ensures samemem(b)

contract batch.(*Batch).appendImpl(b, more)
  modifies b.buf, spare(b.buf)
  ensures b(b.buf) == old(b(b.buf)) + old(b(more))
  ensures samemem(b)
  invariant b(b.buf) == old(b(b.buf))
  invariant b(more) == old(b(more))
  invariant ref(b.buf) == ref(old(b.buf)) && off(b.buf) == off(old(b.buf)) && cap(b.buf) == cap(old(b.buf)) && len(b.buf) == len(old(b.buf)) || fresh(b.buf)
  invariant len(b.buf) == len(old(b.buf))
  decreases lenMore - (cap(b.buf) - len(b.buf))

contract batch.(*Batch).countWrite(b)
  modifies b.writes, b.created, clk
  ensures counted(b)

contract batch.(*Batch).EnsureNewline(b)
  modifies b.buf, spare(b.buf)
  ensures b(b.buf) == (if len(old(b.buf)) > 0 && old(b.buf)[len(old(b.buf))-1] != 10 then old(b(b.buf)) + unit(10) else old(b(b.buf)))
  ensures samemem(b)

contract batch.(*Batch).grow(b)
  modifies b.buf
  ensures b(b.buf) == old(b(b.buf))
  ensures fresh(b.buf)
  ensures cap(b.buf) >= cap(old(b.buf)) + 65536

contract batch.(*Batch).growIfLow(b)
  modifies b.buf
  ensures b(b.buf) == old(b(b.buf))
  ensures cap(b.buf) - len(b.buf) >= 65536
  ensures b.buf == old(b.buf) || fresh(b.buf)

contract batch.(*Batch).ReadOnceFrom(b, r) (n, err)
  requires r != nil
  modifies b.buf, spare(b.buf), b.writes, b.created, clk, rdlog(r), rdn(r), rdpay(r)
  ensures 0 <= n
  ensures rdn(r) == old(rdn(r)) + 1 && rdpay(r) == store(old(rdpay(r)), old(rdn(r)), b(b.buf)[len(old(b.buf))..])
  ensures rdlog(r) == old(rdlog(r)) + b(b.buf)[len(old(b.buf))..]
  ensures len(b.buf) == len(old(b.buf)) + n
  ensures b(b.buf)[..len(old(b.buf))] == old(b(b.buf))
  ensures n > 0 ==> counted(b)
  ensures n == 0 ==> b.writes == old(b.writes) && b.created == old(b.created)
  ensures samemem(b)

contract batch.(*Batch).ReadFrom(b, r) (n, err)
  requires r != nil
  modifies b.buf, spare(b.buf), b.writes, b.created, clk, rdlog(r), rdn(r), rdpay(r)
  diverges
  ensures len(b.buf) == len(old(b.buf)) + n && 0 <= n
  ensures rdlog(r) == old(rdlog(r)) + b(b.buf)[len(old(b.buf))..]
  ensures b(b.buf)[..len(old(b.buf))] == old(b(b.buf))
  ensures n > 0 ==> counted(b)
  ensures n == 0 ==> b.writes == old(b.writes) && b.created == old(b.created)
  ensures samemem(b)
  invariant len(b.buf) == len(old(b.buf)) + total
  invariant rdlog(r) == old(rdlog(r)) + b(b.buf)[len(old(b.buf))..]
  invariant b(b.buf)[..len(old(b.buf))] == old(b(b.buf))
  invariant ref(b.buf) == ref(old(b.buf)) && off(b.buf) == off(old(b.buf)) && cap(b.buf) == cap(old(b.buf)) || fresh(b.buf)

property C04
  functions batch.New batch.(*Batch).Size batch.(*Batch).Remaining batch.(*Batch).Bytes batch.(*Batch).CopyBytes batch.(*Batch).Writes batch.(*Batch).Age
  functions batch.(*Batch).Reset batch.(*Batch).Append batch.(*Batch).EnsureNewline batch.(*Batch).ReadOnceFrom batch.(*Batch).ReadFrom batch.realClock.Now batch.realClock.Since
  globals batch
  replay batch:TestC04
