package influx-spout-tap

// what has been printed
ghost printed: S

extern fmt.Print(a) (n, err)
  requires len(a) == 1 && istype(a[0], string)
  modifies printed
  ensures printed == old(printed) + as(a[0], string)

// the lines of s, up to the j-th, which match
rec tapped(s: S, re: S, j: Int): S = if j <= 0 then "" else tapped(s, re, j-1) + (if rematch(re, s[lst(s, 10, j-1)..lnafter(s, 10, lst(s, 10, j-1))]) then s[lst(s, 10, j-1)..lnafter(s, 10, lst(s, 10, j-1))] else "")

contract influx-spout-tap.process(msg, r)
  requires msg != nil
  modifies printed
  ensures r == nil ==> printed == old(printed) + b(msg.Data)
  ensures r != nil ==> printed == old(printed) + tapped(b(msg.Data), repat(r), nlines(b(msg.Data), 10, 0))
  use lst_end(b(msg.Data), 10, 0)
  invariant r == nil ==> printed == old(printed) + b(msg.Data)[..min(lst(b(msg.Data), 10, #i), len(msg.Data))]
  invariant r != nil ==> printed == old(printed) + tapped(b(msg.Data), repat(r), #i)

extern os.(*File).Write(f, p) (n, err)
  modifies printed
  ensures printed == old(printed) + b(p)

extern os.(*File).WriteString(f, s) (n, err)
  modifies printed
  ensures printed == old(printed) + s

property C28
  functions influx-spout-tap.process
  lemmas lst_end
  bounded cmd/influx-spout-tap:TestC28 the built command with a stand-in for the message bus
  note writing to the standard output is assumed to succeed
