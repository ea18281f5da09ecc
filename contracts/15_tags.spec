package influx

// ---- parsing tags: q is what remains of a line, starting with the comma before a tag

rec tagkeyend(q: S): Int = tokend(q[1..], "= ,", 0)
rec tagkey(q: S): S = unesc(q[1..1+tagkeyend(q)], 0)
rec tagvalend(q: S): Int = tokend(q[2+tagkeyend(q)..], ", ", 0)
rec tagval(q: S): S = unesc(q[2+tagkeyend(q)..2+tagkeyend(q)+tagvalend(q)], 0)
rec tagrest(q: S): S = q[2+tagkeyend(q)+tagvalend(q)..]
// the tag is well formed
rec tagok(q: S): Bool = len(q) > 0 && tagkeyend(q) > 0 && 1+tagkeyend(q) < len(q) && q[1+tagkeyend(q)] == '=' && tagvalend(q) > 0
// what follows the first n tags
rec tagsafter(q: S, n: Int): S = if n <= 0 then q else tagrest(tagsafter(q, n-1))
// the number of tags, -1 if there is a malformed one
rec ntags(q: S): Int = if len(q) == 0 || q[0] == ' ' then 0 else (if tagok(q) && ntags(tagrest(q)) >= 0 then 1 + ntags(tagrest(q)) else -1)

lemma tagrest_len(q: S)
  requires tagok(q)
  ensures len(tagrest(q)) < len(q)
  trigger tagrest(q)
  auto

lemma ntags_bound(q: S)
  ensures ntags(q) >= -1
  decreases len(q)
  case len(q) == 0
  case tagok(q)
  use ntags_bound(tagrest(q))
  trigger ntags(q)
  auto

lemma unesc_some(s: S)
  ensures len(unesc(s, 0)) > 0 <==> len(s) > 0
  trigger unesc(s, 0)
  auto

// the measurement name and what follows it
rec mend(s: S): Int = tokend(s, ", ", 0)
rec measname(s: S): S = unesc(s[..mend(s)], 0)
rec meastags(s: S): S = s[mend(s)..]

contract influx.ParseTags(src) (m, tags, rest, err)
  hides unesc idx tokend idx_bound idx_first unesc_len
  ensures err == nil <==> ntags(meastags(b(src))) >= 0
  ensures err == nil ==> b(m) == measname(b(src))
  ensures err == nil ==> len(tags) == ntags(meastags(b(src)))
  ensures err == nil ==> forall j :: 0 <= j && j < len(tags) ==> b(tags[j].Key) == tagkey(tagsafter(meastags(b(src)), j)) && b(tags[j].Value) == tagval(tagsafter(meastags(b(src)), j))
  ensures err == nil ==> b(rest) == tagsafter(meastags(b(src)), len(tags))[1..] || len(rest) == 0 && len(tagsafter(meastags(b(src)), len(tags))) == 0
  ensures err == nil ==> len(tags) > 0 ==> fresh(tags)
  ensures err == nil ==> len(m) <= len(src) && len(tags) <= len(src) && forall j :: 0 <= j && j < len(tags) ==> len(tags[j].Key) <= len(src) && len(tags[j].Value) <= len(src)
  invariant len(tags) + len(line) <= len(src)
  invariant forall j :: 0 <= j && j < len(tags) ==> len(tags[j].Key) <= len(src) && len(tags[j].Value) <= len(src)
  invariant b(line) == tagsafter(meastags(b(src)), len(tags))
  invariant ntags(meastags(b(src))) == (if ntags(b(line)) < 0 then -1 else len(tags) + ntags(b(line)))
  invariant forall j :: 0 <= j && j < len(tags) ==> b(tags[j].Key) == tagkey(tagsafter(meastags(b(src)), j)) && b(tags[j].Value) == tagval(tagsafter(meastags(b(src)), j))
  invariant len(tags) == 0 || fresh(tags)
  decreases len(line)

property C09
  functions influx.ParseTags
  replay influx:TestC09
