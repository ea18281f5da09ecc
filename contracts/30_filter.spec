package filter

// ---- rules

// whether rule function f matches a line with this text, measurement and tags
declare rulematch(f: Int, line: S, m: S, K: [Int]S, V: [Int]S, n: Int): Bool

// the 32 bit FNV-1 hash
declare fnv32(s: S): Int
ghostfield hashed: S

extern fnv.New32() (h)
  ensures h != nil && fresh(h) && hashed(h) == ""

extern hash.Hash32.Write(h, p) (n, err)
  modifies hashed(h)
  ensures hashed(h) == old(hashed(h)) + b(p)

extern hash.Hash32.Sum32(h) (r)
  ensures r == fnv32(hashed(h))

// regular expressions
ghostfield repat: S
declare rematch(pattern: S, s: S): Bool

extern regexp.MustCompile(s) (r)
  ensures r != nil && repat(r) == s

extern regexp.(*Regexp).Match(r, s) (ok)
  ensures ok <==> rematch(repat(r), b(s))

// cached values belong to the line
def plok(l) = (l.unescaped != nil ==> b(l.unescaped) == unesc(b(l.Escaped), 0)) && (l.hashedMeasurement != nil ==> *l.hashedMeasurement == fnv32(b(l.Measurement)))

def plkeys(l) = arr j :: b(l.Tags[j].Key)
def plvals(l) = arr j :: b(l.Tags[j].Value)
def matches(f, l) = rulematch(f, b(l.Escaped), b(l.Measurement), plkeys(l), plvals(l), len(l.Tags))

functype filter.Rule.match(f, l) (r)
  requires l != nil && plok(l)
  modifies l.unescaped, l.hashedMeasurement
  ensures plok(l)
  ensures r <==> matches(f, l)

contract filter.hashMeasurement(m) (h)
  ensures h == fnv32(b(m))

contract filter.(*parsedLine).Unescaped(l) (r)
  requires plok(l)
  modifies l.unescaped
  ensures plok(l) && b(r) == unesc(b(l.Escaped), 0)

contract filter.(*parsedLine).HashedMeasurement(l) (h)
  requires plok(l)
  modifies l.hashedMeasurement
  ensures plok(l) && h == fnv32(b(l.Measurement))

contract filter.CreateBasicRule(measurement, subject) (r)
  ensures r.subject == subject && r.match != nil && isfun(r.match, filter.CreateBasicRule$1) && of(r.match, S, *measurement) == measurement

contract filter.CreateBasicRule$1(l) (r)
  captures *hh == fnv32(*measurement)
  requires l != nil && plok(l)
  modifies l.unescaped, l.hashedMeasurement
  ensures plok(l)
  ensures r <==> b(l.Measurement) == *measurement

contract filter.CreateRegexRule(re, subject) (r)
  ensures r.subject == subject && r.match != nil && isfun(r.match, filter.CreateRegexRule$1) && of(r.match, S, repat(*reg)) == re

contract filter.CreateRegexRule$1(l) (r)
  captures *reg != nil
  requires l != nil && plok(l)
  modifies l.unescaped, l.hashedMeasurement
  ensures plok(l)
  ensures r <==> rematch(repat(*reg), unesc(b(l.Escaped), 0))

contract filter.CreateNegativeRegexRule(re, subject) (r)
  ensures r.subject == subject && r.match != nil && isfun(r.match, filter.CreateNegativeRegexRule$1) && of(r.match, S, repat(*reg)) == re

contract filter.CreateNegativeRegexRule$1(l) (r)
  captures *reg != nil
  requires l != nil && plok(l)
  modifies l.unescaped, l.hashedMeasurement
  ensures plok(l)
  ensures r <==> !rematch(repat(*reg), unesc(b(l.Escaped), 0))

contract filter.CreateTagRule(tags, subject) (r)
  ensures r.subject == subject && r.match != nil && isfun(r.match, filter.CreateTagRule$1)
  ensures of(r.match, Int, ref(*tags)) == ref(tags) && of(r.match, Int, off(*tags)) == off(tags) && of(r.match, Int, len(*tags)) == len(tags)

contract filter.CreateTagRule$1(l) (r)
  requires l != nil && plok(l)
  modifies l.unescaped, l.hashedMeasurement
  ensures plok(l)
  ensures r <==> forall i :: 0 <= i && i < len(*tags) ==> tagin(plkeys(l), plvals(l), len(l.Tags), b((*tags)[i].Key), b((*tags)[i].Value))

contract filter.(*RuleSet).Append(rs, rule)
  modifies rs.rules, spare(rs.rules)
  ensures len(rs.rules) == old(len(rs.rules)) + 1 && rs.rules[len(rs.rules)-1] == rule
  ensures ref(rs.rules) == old(ref(rs.rules)) && off(rs.rules) == old(off(rs.rules)) || fresh(rs.rules)
  ensures forall j :: 0 <= j && j < old(len(rs.rules)) ==> rs.rules[j] == old(rs.rules[j])

contract filter.(*RuleSet).Count(rs) (n)
  ensures n == len(rs.rules)

contract filter.(*RuleSet).Subjects(rs) (out)
  ensures len(out) == len(rs.rules) && (len(out) > 0 ==> fresh(out)) && forall j :: 0 <= j && j < len(out) ==> out[j] == rs.rules[j].subject
  invariant forall j :: 0 <= j && j < #i ==> out[j] == rs.rules[j].subject

def rulesok(rs) = forall j :: 0 <= j && j < len(rs.rules) ==> rs.rules[j].match != nil

// what was looked up last, and the result
ghost lkidx: Int
ghost lkesc: S
ghost lkm: S
ghost lkK: [Int]S
ghost lkV: [Int]S
ghost lkn: Int

contract filter.(*RuleSet).LookupParsed(rs, l) (r)
  requires l != nil && plok(l) && rulesok(rs)
  modifies l.unescaped, l.hashedMeasurement, lkidx, lkesc, lkm, lkK, lkV, lkn
  set lkidx = r
  set lkesc = b(l.Escaped)
  set lkm = b(l.Measurement)
  set lkK = plkeys(l)
  set lkV = plvals(l)
  set lkn = len(l.Tags)
  ensures plok(l)
  ensures lkidx == r && lkesc == b(l.Escaped) && lkm == b(l.Measurement) && lkK == plkeys(l) && lkV == plvals(l) && lkn == len(l.Tags)
  ensures -1 <= r && r < len(rs.rules)
  ensures r >= 0 ==> matches(rs.rules[r].match, l)
  ensures forall j :: 0 <= j && j < (if r < 0 then len(rs.rules) else r) ==> !matches(rs.rules[j].match, l)
  invariant plok(l) && forall j :: 0 <= j && j < #i ==> !matches(rs.rules[j].match, l)

def rawkeys(s) = arr j :: tagkey(tagsafter(meastags(s), j))
def rawvals(s) = arr j :: tagval(tagsafter(meastags(s), j))
// the fields and timestamp
def rawrest(s, n) = tagsafter(meastags(s), n)[1..]


// the outcome of the last attempt to parse a line
ghost nplok: Bool

contract filter.newParsedLine(escaped) (l, err)
  modifies nplok
  set nplok = err == nil
  ensures nplok <==> err == nil
  ensures err == nil <==> ntags(meastags(b(escaped))) >= 0
  ensures err == nil ==> l != nil && fresh(l) && l.unescaped == nil && l.hashedMeasurement == nil && l.Escaped == escaped
  ensures err == nil ==> b(l.Measurement) == measname(b(escaped))
  ensures err == nil ==> len(l.Tags) == ntags(meastags(b(escaped)))
  ensures err == nil ==> forall j :: 0 <= j && j < len(l.Tags) ==> b(l.Tags[j].Key) == tagkey(tagsafter(meastags(b(escaped)), j)) && b(l.Tags[j].Value) == tagval(tagsafter(meastags(b(escaped)), j))
  ensures err == nil ==> forall j :: 0 <= j && j < len(l.Tags) ==> plkeys(l)[j] == rawkeys(b(escaped))[j] && plvals(l)[j] == rawvals(b(escaped))[j]
  ensures err == nil ==> b(l.Remainder) == tagsafter(meastags(b(escaped)), len(l.Tags))[1..] || len(l.Remainder) == 0 && len(tagsafter(meastags(b(escaped)), len(l.Tags))) == 0
  ensures err == nil && len(l.Tags) > 0 ==> fresh(l.Tags)
  ensures err == nil ==> len(l.Measurement) <= len(escaped) && len(l.Tags) <= len(escaped) && forall j :: 0 <= j && j < len(l.Tags) ==> len(l.Tags[j].Key) <= len(escaped) && len(l.Tags[j].Value) <= len(escaped)
