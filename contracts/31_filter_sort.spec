package filter

// ---- sorting. The contracts of Len, Less and Swap justify these for tag sets;
// sortp maps positions after sorting to positions before it.
ghost sortp: [Int]Int

def keysorted(K, n) = forall i, j :: 0 <= i && i < j && j < n ==> !sltlex(K[j], K[i])
def tkeys(t) = arr j :: b(t[j].Key)
def tvals(t) = arr j :: b(t[j].Value)

extern sort.IsSorted(data) (r)
  ensures istype(data, influx.TagSet) ==> (r <==> keysorted(tkeys(as(data, influx.TagSet)), len(as(data, influx.TagSet))))

extern sort.Sort(data)
  modifies sortp, as(data, influx.TagSet)[..]
  ensures istype(data, influx.TagSet) ==> forall j :: 0 <= j && j < len(as(data, influx.TagSet)) ==> 0 <= sortp[j] && sortp[j] < len(as(data, influx.TagSet)) && (let p = sortp[j] in as(data, influx.TagSet)[j] == old(as(data, influx.TagSet)[p]))
  ensures istype(data, influx.TagSet) ==> forall i, j :: 0 <= i && i < j && j < len(as(data, influx.TagSet)) ==> sortp[i] != sortp[j]
  ensures istype(data, influx.TagSet) ==> keysorted(tkeys(as(data, influx.TagSet)), len(as(data, influx.TagSet)))

// a line written out with its tags in the order given
def lineof(m, K, V, n, rest) = esc(m, ", ", len(m)) + "," + tagsb(K, V, n) + (if len(rest) == 0 then "" else " " + rest)

contract filter.(*parsedLine).SortTags(l)
  requires l != nil && l.unescaped == nil
  requires len(l.Measurement) <= msglimit() && len(l.Tags) <= msglimit() && forall j :: 0 <= j && j < len(l.Tags) ==> len(l.Tags[j].Key) <= msglimit() && len(l.Tags[j].Value) <= msglimit()
  modifies l.Escaped, l.Tags[..], sortp
  ensures old(keysorted(tkeys(l.Tags), len(l.Tags))) ==> l.Escaped == old(l.Escaped) && forall j :: 0 <= j && j < len(l.Tags) ==> l.Tags[j] == old(l.Tags[j])
  ensures !old(keysorted(tkeys(l.Tags), len(l.Tags))) ==> b(l.Escaped) == lineof(b(l.Measurement), tkeys(l.Tags), tvals(l.Tags), len(l.Tags), b(l.Remainder))
  ensures keysorted(tkeys(l.Tags), len(l.Tags))
  ensures !old(keysorted(tkeys(l.Tags), len(l.Tags))) ==> forall j :: 0 <= j && j < len(l.Tags) ==> 0 <= sortp[j] && sortp[j] < len(l.Tags) && (let p = sortp[j] in l.Tags[j] == old(l.Tags[p]))
  ensures !old(keysorted(tkeys(l.Tags), len(l.Tags))) ==> forall i, j :: 0 <= i && i < j && j < len(l.Tags) ==> sortp[i] != sortp[j]
