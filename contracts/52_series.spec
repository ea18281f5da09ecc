package downsampler

// ---- what a field value would give
ghostfield vst: S of downsampler.fieldValue

extern downsampler.fieldValue.update(v, b) (err)
  requires v != nil
  modifies vst(v)
  ensures err != nil ==> vst(v) == old(vst(v))

extern downsampler.fieldValue.bytes(v) (r)
  requires v != nil
  ensures b(r) == vst(v)

// the object of a field value
def vref(v) = if istype(v, *downsampler.intFieldValue) then ref(as(v, *downsampler.intFieldValue)) else if istype(v, *downsampler.floatFieldValue) then ref(as(v, *downsampler.floatFieldValue)) else if istype(v, *downsampler.stringFieldValue) then ref(as(v, *downsampler.stringFieldValue)) else ref(as(v, *downsampler.rawFieldValue))
def vok(v) = v != nil && vref(v) != 0 && allocated(ptr(vref(v), 0, *byte))
def vnew(v) = fresh(ptr(vref(v), 0, *byte))

def fpok(fp) = fp != nil && fp.fields != nil && forall n :S :: {has(fp.fields, n)} has(fp.fields, n) ==> vok(fp.fields[n])

contract downsampler.newFieldPairs() (fp)
  ensures fp != nil && fresh(fp) && allocated(fp) && fp.fields != nil && fresh(fp.fields) && forall n :S :: {has(fp.fields, n)} !has(fp.fields, n)

// fields are added or updated, and nothing else is
contract downsampler.(*fieldPairs).update(fp, raw) (errs)
  requires fpok(fp)
  modifies entries(fp.fields), vst
  ensures fpok(fp)
  ensures errs == nil || fresh(errs)
  ensures forall n :S :: {has(fp.fields, n)} old(has(fp.fields, n)) ==> has(fp.fields, n)
  ensures forall n :S :: {fp.fields[n]} has(fp.fields, n) ==> old(has(fp.fields, n)) && fp.fields[n] == old(fp.fields[n]) || vnew(fp.fields[n])
  ensures forall v :: {vst(v)} !vnew(v) && (forall n :S :: {old(has(fp.fields, n))} old(has(fp.fields, n)) ==> old(fp.fields[n]) != v) ==> vst(v) == old(vst(v))
  decreases len(raw)
  invariant fpok(fp) && (errs == nil || fresh(errs))
  invariant forall n :S :: {has(fp.fields, n)} old(has(fp.fields, n)) ==> has(fp.fields, n)
  invariant forall n :S :: {fp.fields[n]} has(fp.fields, n) ==> old(has(fp.fields, n)) && fp.fields[n] == old(fp.fields[n]) || vnew(fp.fields[n])
  invariant forall v :: {vst(v)} !vnew(v) && (forall n :S :: {old(has(fp.fields, n))} old(has(fp.fields, n)) ==> old(fp.fields[n]) != v) ==> vst(v) == old(vst(v))

// the series don't share fields or values
def disj(p, q) = p.fields != q.fields && forall n :S :: {has(p.fields, n)} has(p.fields, n) ==> forall m :S :: {has(q.fields, m)} has(q.fields, m) ==> p.fields[n] != q.fields[m]
def bok(b) = b != nil && b.lines != nil && (forall k :S :: {has(b.lines, k)} has(b.lines, k) ==> fpok(b.lines[k]) && allocated(b.lines[k]) && allocated(b.lines[k].fields))
  && (forall k :S :: {has(b.lines, k)} has(b.lines, k) ==> forall l :S :: {has(b.lines, l)} has(b.lines, l) && l != k ==> disj(b.lines[k], b.lines[l]))

def serieskey(s) = s[..tokend(s, " ", 0)]

contract downsampler.(*avgBucket).AddLine(b, line) (errs)
  requires bok(b)
  modifies entries(b.lines), entries(b.lines[serieskey(b(line))].fields), vst
  ensures bok(b)
  // a malformed line creates no series
  ensures len(errs) > 0 ==> forall k :S :: {has(b.lines, k)} (has(b.lines, k) <==> old(has(b.lines, k))) && b.lines[k] == old(b.lines[k])
  ensures len(errs) == 0 ==> forall k :S :: {has(b.lines, k)} has(b.lines, k) <==> old(has(b.lines, k)) || k == serieskey(b(line))
  // other series stay as they are
  ensures forall k :S :: {has(b.lines, k)} old(has(b.lines, k)) && k != serieskey(b(line)) ==> has(b.lines, k) && b.lines[k] == old(b.lines[k]) && b.lines[k].fields == old(b.lines[k].fields)
  ensures forall k :S :: {has(b.lines, k)} old(has(b.lines, k)) && k != serieskey(b(line)) ==> forall n :S :: {has(b.lines[k].fields, n)} (has(b.lines[k].fields, n) <==> old(has(b.lines[k].fields, n))) && b.lines[k].fields[n] == old(b.lines[k].fields[n])
  ensures forall k :S :: {has(b.lines, k)} old(has(b.lines, k)) && k != serieskey(b(line)) ==> forall n :S :: {has(b.lines[k].fields, n)} has(b.lines[k].fields, n) ==> vst(b.lines[k].fields[n]) == old(vst(b.lines[k].fields[n]))

// names and values, the first n
rec fjoin(N: [Int]S, V: [Int]S, n: Int): S = if n <= 0 then "" else (if n == 1 then N[0] + "=" + V[0] else fjoin(N, V, n-1) + "," + N[n-1] + "=" + V[n-1])

// the fields formatted so far
ghost fbn: Int
ghost fbr: [Int]S
ghost fbp: [Int]Int

contract downsampler.(*fieldPairs).bytes(fp) (r)
  requires fpok(fp)
  modifies sortp, srt, fbn, fbr, fbp
  set fbn = old(fbn) + 1
  set fbr = store(old(fbr), old(fbn), b(r))
  set fbp = store(old(fbp), old(fbn), ref(fp))
  ensures fbn == old(fbn) + 1 && fbr == store(old(fbr), old(fbn), b(r)) && fbp == store(old(fbp), old(fbn), ref(fp))
  ensures len(r) > 0 ==> fresh(r)
  ensures b(r) == fjoin(srt, (arr i :: vst(fp.fields[srt[i]])), len(fp.fields))
  ensures forall i :: 0 <= i && i < len(fp.fields) ==> has(fp.fields, srt[i])
  ensures forall i, j :: 0 <= i && i < j && j < len(fp.fields) ==> !sltlex(srt[j], srt[i]) && srt[i] != srt[j]
  invariant fieldNames == nil || fresh(fieldNames)
  invariant len(fieldNames) == nvisited(#it)
  invariant forall j :: 0 <= j && j < len(fieldNames) ==> has(fp.fields, fieldNames[j]) && visited(#it, fieldNames[j])
  invariant forall j, k :: 0 <= j && j < k && k < len(fieldNames) ==> fieldNames[j] != fieldNames[k]
  invariant forall j :: 0 <= j && j < len(fieldNames) ==> has(fp.fields, fieldNames[j])
  invariant forall j :: 0 <= j && j < len(fieldNames) ==> fieldNames[j] == srt[j]
  invariant len(fieldNames) == len(fp.fields)
  invariant b(out) == fjoin(srt, (arr i :: vst(fp.fields[srt[i]])), #i) + (if #i > 0 && #i < len(fieldNames) then "," else "")
  // (the separator before the field)
  invariant b(out) == fjoin(srt, (arr i :: vst(fp.fields[srt[i]])), #i)
  invariant out == nil || fresh(out)

// the order in which a map with string keys was iterated last (by the function
// whose contract lists it)
ghost mapord: [Int]S

// the lines of the series K[0], K[1], … K[n-1] with the fields F[f0], …
rec scat(K: [Int]S, F: [Int]S, f0: Int, ts: S, n: Int): S = if n <= 0 then "" else (if len(F[f0+n-1]) > 0 then scat(K, F, f0, ts, n-1) + K[n-1] + " " + F[f0+n-1] + " " + ts + "\n" else scat(K, F, f0, ts, n-1) + K[n-1] + " " + ts + "\n")

lemma scat_next(K: [Int]S, F: [Int]S, f0: Int, ts: S, n: Int, m: Int, k: S, p: Int, f: S)
  requires n <= m && f0 + n <= p
  ensures scat(store(K, m, k), store(F, p, f), f0, ts, n) == scat(K, F, f0, ts, n)
  decreases n
  case n <= 0
  use scat_next(K, F, f0, ts, n-1, m, k, p, f)
  trigger scat(store(K, m, k), store(F, p, f), f0, ts, n)
  auto

lemma scat_key(K: [Int]S, F: [Int]S, f0: Int, ts: S, n: Int, m: Int, k: S)
  requires n <= m
  ensures scat(store(K, m, k), F, f0, ts, n) == scat(K, F, f0, ts, n)
  decreases n
  case n <= 0
  use scat_key(K, F, f0, ts, n-1, m, k)
  trigger scat(store(K, m, k), F, f0, ts, n)
  auto

contract downsampler.(*avgBucket).Bytes(b) (r)
  requires bok(b) && nstime(b.ts)
  modifies sortp, srt, fbn, fbr, fbp, mapord
  ensures r == nil || fresh(r)
  ensures b(r) == scat(mapord, fbr, old(fbn), itoa(b.ts), len(b.lines))
  ensures fbn == old(fbn) + len(b.lines)
  ensures forall i :: {mapord[i]} 0 <= i && i < len(b.lines) ==> has(b.lines, mapord[i]) && fbp[old(fbn) + i] == ref(b.lines[mapord[i]])
  ensures forall i, j :: {mapord[i], mapord[j]} 0 <= i && i < j && j < len(b.lines) ==> mapord[i] != mapord[j]
  invariant out == nil || fresh(out)
  invariant b(out) == scat(mapord, fbr, old(fbn), itoa(b.ts), nvisited(#it))
  invariant fbn == old(fbn) + nvisited(#it)
  invariant forall i :: {mapord[i]} 0 <= i && i < nvisited(#it) ==> has(b.lines, mapord[i]) && visited(#it, mapord[i]) && fbp[old(fbn) + i] == ref(b.lines[mapord[i]])
  invariant forall i, j :: {mapord[i], mapord[j]} 0 <= i && i < j && j < nvisited(#it) ==> mapord[i] != mapord[j]

property C17
  functions downsampler.newFieldPairs downsampler.(*fieldPairs).update downsampler.(*fieldPairs).bytes downsampler.(*avgBucket).AddLine downsampler.(*avgBucket).Bytes
  functions downsampler.newFieldValue downsampler.newStringValue downsampler.(*stringFieldValue).bytes downsampler.(*rawFieldValue).bytes downsampler.(*intFieldValue).bytes
  functions influx.TokenEscaped influx.QuotedString
  lemmas scat_next scat_key
  bounded downsampler:TestC17 lines added to a window against an independent oracle
  note that a field's value after an update is the value received last or the average is under contract per value (C16); that update applies exactly the fields of the line is bounded
