package influx

global MaxTsLen == 19
global ErrTimeOutOfRange != nil

extern fmt.Sprint(args) (s)
  ensures len(args) == 1 && istype(args[0], int64) ==> b(s) == itoa(as(args[0], int64))

// a line without its newline
def tsline(s) = if len(s) > 0 && s[len(s)-1] == 10 then s[..len(s)-1] else s
// the first position at which the space before a timestamp is looked for
def tsfrom(t) = if len(t) > 20 then len(t) - 20 else 0

// what the timestamp extracted from a line is if there is one
def tsfound(s, t, ts, off) = len(s) >= 6 && tsfrom(t) < off && off <= len(t) && s[off-1] == ' ' && isint(t[off..]) && ts == intval(t[off..])

// The integer after the last space is extracted if it is valid and its space
// among the last 20 characters.
ghost xat: Int

contract influx.ExtractTimestamp(src) (ts, off)
  modifies xat
  set xat = off
  ensures xat == off
  ensures off == -1 ==> ts == -1
  ensures off != -1 ==> tsfound(b(src), tsline(b(src)), ts, off)
  ensures off == -1 && len(src) >= 6 ==> forall p :: tsfrom(tsline(b(src))) <= p && p < len(tsline(b(src))) && src[p] == ' '
     && (forall q :: p < q && q < len(tsline(b(src))) ==> src[q] != ' ') ==> !isint(tsline(b(src))[p+1..])
  invariant forall p :: i < p && p < length ==> line[p] != ' '

// The same, if there is only one space among the last 20 characters.
ghost enat: Int

// there is no timestamp in the line
def notime(s) = forall p :: tsfrom(tsline(s)) <= p && p < len(tsline(s)) && s[p] == ' '
     && (forall q :: tsfrom(tsline(s)) <= q && q < p ==> s[q] != ' ') ==> !isint(tsline(s)[p+1..])

contract influx.ExtractNanos(src) (ts, off)
  modifies enat
  set enat = off
  ensures enat == off
  ensures off == -1 ==> ts == -1
  ensures off != -1 ==> tsfound(b(src), tsline(b(src)), ts, off)
  ensures off == -1 && len(src) >= 6 ==> notime(b(src))
  invariant forall p :: from <= p && p < i ==> line[p] != ' '

def pmult(s) = if s == "u" then 1000 else (if s == "ms" then 1000000 else (if s == "s" then 1000000000 else (if s == "m" then 60000000000 else (if s == "h" then 3600000000000 else 1))))

// minNanoTime and maxNanoTime
def validtime(n) = -9223372036854775806 <= n && n <= 9223372036854775806

contract influx.SafeCalcTime(ts, precision) (r, err)
  ensures err == nil <==> validtime(ts * pmult(b(precision)))
  ensures err == nil ==> r == ts * pmult(b(precision))

property C07
  functions influx.ExtractTimestamp influx.ExtractNanos
  globals influx
  replay influx:TestC07Timestamp
