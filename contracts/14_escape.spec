package influx

// ---- unescaping

def isesc(c) = c == ',' || c == '"' || c == ' ' || c == '='

// s unescaped from position k on
rec unesc(s: S, k: Int): S = if k >= len(s) then "" else
   (if s[k] == 92 && k+1 < len(s) && isesc(s[k+1]) then unit(s[k+1]) + unesc(s, k+2) else unit(s[k]) + unesc(s, k+1))

lemma unesc_len(s: S, k: Int)
  requires 0 <= k && k <= len(s)
  ensures len(unesc(s, k)) <= len(s) - k
  decreases len(s) - k
  use unesc_len(s, k+1)
  use unesc_len(s, k+2)
  trigger unesc(s, k)
  auto

// nothing to do without a backslash in front of something
lemma unesc_none(s: S, k: Int)
  requires 0 <= k && k <= len(s)
  requires forall j :: k <= j && j+1 < len(s) ==> s[j] != 92
  ensures unesc(s, k) == s[k..]
  decreases len(s) - k
  use unesc_none(s, k+1)
  case k == len(s)

contract influx.Unescape(src) (r)
  use unesc_none(b(src), 0)
  ensures b(r) == unesc(b(src), 0)
  ensures r == src || fresh(r)
  invariant 0 <= i && i <= len(src) && 0 <= j && j <= i
  invariant b(out)[..j] + unesc(b(src), i) == unesc(b(src), 0)
  decreases inLen - i

// ---- escaping

// the first k bytes of s escaped
rec esc(s: S, ch: S, k: Int): S = if k <= 0 then "" else
   (if bhas(ch, s[k-1]) then esc(s, ch, k-1) + unit(92) + unit(s[k-1]) else esc(s, ch, k-1) + unit(s[k-1]))

// how many of the first k bytes of s are to be escaped
rec nesc(s: S, ch: S, k: Int): Int = if k <= 0 then 0 else (if bhas(ch, s[k-1]) then nesc(s, ch, k-1) + 1 else nesc(s, ch, k-1))

lemma nesc_bound(s: S, ch: S, k: Int)
  requires 0 <= k && k <= len(s)
  ensures 0 <= nesc(s, ch, k) && nesc(s, ch, k) <= k
  decreases k
  use nesc_bound(s, ch, k-1)
  trigger nesc(s, ch, k)
  auto

lemma esc_none(s: S, ch: S, k: Int)
  requires 0 <= k && k <= len(s)
  requires nesc(s, ch, k) == 0
  ensures esc(s, ch, k) == s[..k]
  decreases k
  use esc_none(s, ch, k-1)
  use nesc_bound(s, ch, k-1)
  trigger esc(s, ch, k), nesc(s, ch, k)
  auto

lemma esc_nochars(s: S, ch: S, k: Int)
  requires 0 <= k && k <= len(s)
  requires len(ch) == 0
  ensures esc(s, ch, k) == s[..k]
  decreases k
  use esc_nochars(s, ch, k-1)

contract influx.containsByte(src, c) (r)
  ensures r <==> bhas(b(src), c)

contract influx.countBytes(src, ch) (n)
  ensures n == nesc(b(src), b(ch), len(src))
  invariant count == nesc(b(src), b(ch), #i)

contract influx.Escape(src, ch) (r)
  use esc_nochars(b(src), b(ch), len(src))
  ensures b(r) == esc(b(src), b(ch), len(src))
  ensures r == src || fresh(r)
  invariant b(out) == esc(b(src), b(ch), #i)
  invariant fresh(out)

contract influx.EscapeTagPart(src) (r)
  ensures b(r) == esc(b(src), ",= ", len(src))
  ensures r == src || fresh(r)

contract influx.EscapeMeasurement(src) (r)
  ensures b(r) == esc(b(src), ", ", len(src))
  ensures r == src || fresh(r)

contract influx.EscapeQuotedString(src) (r)
  ensures b(r) == unit(34) + esc(b(src), unit(34), len(src)) + unit(34)
  ensures fresh(r)
  invariant b(out) == unit(34) + esc(b(src), unit(34), #i)
  invariant fresh(out)

// ---- tokens

// the first position from k on of one of u that isn't escaped, or the length
rec tokend(s: S, u: S, k: Int): Int = if k >= len(s) then len(s) else
   (if bhas(u, s[k]) && !(k > 0 && s[k-1] == 92) then k else tokend(s, u, k+1))

lemma tokend_bound(s: S, u: S, k: Int)
  requires 0 <= k && k <= len(s)
  ensures k <= tokend(s, u, k) && tokend(s, u, k) <= len(s)
  ensures tokend(s, u, k) < len(s) ==> bhas(u, s[tokend(s, u, k)])
  decreases len(s) - k
  use tokend_bound(s, u, k+1)
  trigger tokend(s, u, k)
  auto

contract influx.token(src, until) (tok, rest, esc)
  ensures b(tok) == b(src)[..tokend(b(src), b(until), 0)]
  ensures b(rest) == b(src)[tokend(b(src), b(until), 0)..]
  ensures !esc ==> forall j :: 0 <= j && j+1 < len(tok) ==> tok[j] != 92
  ensures len(tok) > 0 ==> ref(tok) == ref(src) && off(tok) == off(src)
  ensures len(rest) > 0 ==> ref(rest) == ref(src) && off(rest) == off(src) + len(tok)
  invariant 0 <= i && (i < len(src) || i == 0)
  invariant tokend(b(src), b(until), i+1) == tokend(b(src), b(until), 0)
  invariant forall j :: 0 <= j && j < #i ==> until[j] != src[0]
  invariant forall j :: 0 <= j && j < #i ==> until[j] != src[i]
  invariant !escaped ==> forall j :: 0 <= j && j < i ==> src[j] != 92
  decreases len(src) - i

contract influx.Token(src, until) (tok, rest)
  use unesc_none(b(src)[..tokend(b(src), b(until), 0)], 0)
  ensures b(tok) == unesc(b(src)[..tokend(b(src), b(until), 0)], 0)
  ensures b(rest) == b(src)[tokend(b(src), b(until), 0)..]
  ensures len(tok) > 0 ==> ref(tok) == ref(src) || fresh(tok)
  ensures len(tok) <= len(src)
  ensures len(rest) > 0 ==> ref(rest) == ref(src) && off(rest) == off(src) + tokend(b(src), b(until), 0)
  ensures len(rest) == len(src) - tokend(b(src), b(until), 0)
  split len(rest) == 0

contract influx.TokenEscaped(src, until) (tok, rest)
  ensures b(tok) == b(src)[..tokend(b(src), b(until), 0)]
  ensures b(rest) == b(src)[tokend(b(src), b(until), 0)..]
  ensures len(tok) > 0 ==> ref(tok) == ref(src) && off(tok) == off(src)
  ensures len(tok) == tokend(b(src), b(until), 0)
  ensures len(rest) > 0 ==> ref(rest) == ref(src) && off(rest) == off(src) + tokend(b(src), b(until), 0)
  ensures len(rest) == len(src) - tokend(b(src), b(until), 0)

// ---- quoted strings

// the position from k on of the double quote that ends a string, or -1
rec qend(s: S, k: Int): Int = if k >= len(s) then -1 else
   (if s[k] == 92 && k+1 < len(s) && (s[k+1] == 92 || s[k+1] == 34) then qend(s, k+2) else (if s[k] == 34 then k else qend(s, k+1)))

def unq(s) = repl(s, "\\\"", "\"", 0)

lemma unq_none(s: S, k: Int)
  requires 0 <= k && k <= len(s)
  requires forall j :: k <= j && j+1 < len(s) && s[j] == 92 ==> s[j+1] != 34
  ensures repl(s, "\\\"", "\"", k) == s[k..]
  decreases len(s) - k
  use unq_none(s, k+1)
  assert k+2 <= len(s) ==> s[k..k+2][0] == s[k] && s[k..k+2][1] == s[k+1]
  case k == len(s)

contract influx.QuotedString(src) (r, rest, err)
  use unq_none(b(src)[1..qend(b(src), 1)], 0)
  ensures err == nil <==> len(src) >= 2 && src[0] == 34 && qend(b(src), 1) >= 0
  ensures err == nil ==> b(r) == unq(b(src)[1..qend(b(src), 1)])
  ensures err == nil ==> b(rest) == b(src)[qend(b(src), 1)+1..]
  ensures err == nil ==> len(rest) < len(src)
  ensures err == nil ==> ref(r) == ref(src) || fresh(r)
  invariant 0 <= i && i < len(src) && qend(b(src), i+1) == qend(b(src), 1)
  invariant !escaped ==> forall j :: 1 <= j && j+1 <= i && src[j] == 92 ==> src[j+1] != 34
  decreases len(src) - i

property C08
  functions influx.Unescape influx.Escape influx.EscapeTagPart influx.EscapeMeasurement influx.EscapeQuotedString influx.Token influx.TokenEscaped influx.QuotedString
  replay influx:TestC08
