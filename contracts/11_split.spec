package batchsplitter

contract batchsplitter.New(buf, chunkSize) (s)
  requires chunkSize <= 9223372036854775807
  ensures s != nil && fresh(s)
  ensures s.buf == buf && s.chunkSize == chunkSize && len(s.out) == 0

contract batchsplitter.(*BatchSplitter).Next(s) (more)
  requires s.chunkSize > 0
  modifies s.buf, s.out
  ensures more <==> len(old(s.buf)) > 0
  ensures more ==> b(s.out) + b(s.buf) == old(b(s.buf))
  ensures more ==> 1 <= len(s.out) && len(s.out) <= s.chunkSize
  ensures more && len(old(s.buf)) <= s.chunkSize ==> len(s.buf) == 0
  ensures more && len(old(s.buf)) > s.chunkSize ==>
     (s.out[len(s.out)-1] == 10 || len(s.out) == s.chunkSize)
     && (forall j :: 0 <= j && j < s.chunkSize && len(s.out) <= j ==> old(s.buf)[j] != 10)
     && (len(s.out) == s.chunkSize && s.out[len(s.out)-1] != 10 ==> forall j :: 0 <= j && j < s.chunkSize ==> old(s.buf)[j] != 10)
  ensures len(s.buf) > 0 ==> ref(s.buf) == ref(old(s.buf))
  ensures more ==> ref(s.out) == ref(old(s.buf))
  ensures !more ==> len(s.out) == 0 && len(s.buf) == 0
  invariant forall j :: i < j && j < s.chunkSize ==> s.buf[j] != 10

contract batchsplitter.(*BatchSplitter).Chunk(s) (c)
  ensures c == s.out

property C02
  functions batchsplitter.New batchsplitter.(*BatchSplitter).Next batchsplitter.(*BatchSplitter).Chunk
  replay batchsplitter:TestC02
