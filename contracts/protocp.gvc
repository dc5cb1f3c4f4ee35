package protocp

# What the reader delivered, what each writer was given, and in which order.
ghost rmCount int
ghost rmMsg map[int]proto.Message
ghost rmErr map[int]error
iface (MessageReader).ReadMessage
  ghostset rmMsg[rmCount] := result0
  ghostset rmErr[rmCount] := result1
  ghostset rmCount := rmCount + 1

ghost awCount int
ghost awTo map[int]MessageWriter
ghost awMsg map[int]proto.Message
ghost awErr map[int]error
iface (MessageWriter).addRow
  params ctx message
  ghostset awTo[awCount] := self
  ghostset awMsg[awCount] := message
  ghostset awErr[awCount] := result
  ghostset awCount := awCount + 1

ghost fiCount int
ghost fiTo map[int]MessageWriter
ghost fiErr map[int]error
ghost fiAfter map[int]int
iface (MessageWriter).finalize
  params ctx
  ghostset fiTo[fiCount] := self
  ghostset fiErr[fiCount] := result
  ghostset fiAfter[fiCount] := awCount
  ghostset fiCount := fiCount + 1

ghost mrCount int
ghost mrErr map[int]error
fnval func(io.Reader) (protocp.MessageReader, error)
  params r
  ensures result1 == nil ==> result0 != nil
  ghostset mrErr[mrCount] := result1
  ghostset mrCount := mrCount + 1


func (*Copier).Copy
  properties K01
  requires cp != nil && cp.newMessageReader != nil && writer != nil
  modifies mrCount, mrErr, rmCount, rmMsg, rmErr, awCount, awTo, awMsg, awErr, fiCount, fiTo, fiErr, fiAfter
  let m = mrCount
  let n = rmCount
  let a = awCount
  let f = fiCount
  ensures opened: mrCount == m + 1
  ensures openerror: mrErr[m] != nil ==> result != nil && rmCount == n && awCount == a && fiCount == f
  ensures order: forall k int :: {awMsg[k]} a <= k && k < awCount ==> awMsg[k] == rmMsg[n + k - a] && awTo[k] == writer && rmErr[n + k - a] == nil
  ensures each: mrErr[m] == nil ==> rmCount >= n + 1 && awCount - a >= rmCount - n - 1 && awCount - a <= rmCount - n
  ensures passed: forall k int :: {awErr[k]} a <= k && k < awCount - 1 ==> awErr[k] == nil
  ensures writeerror: awCount > a && awErr[awCount - 1] != nil ==> result != nil
  ensures readerror: rmCount > n && rmErr[rmCount - 1] != nil && rmErr[rmCount - 1] != io.EOF ==> result != nil
  ensures once: f <= fiCount && fiCount <= f + 1
  ensures finalised: fiCount == f + 1 ==> fiTo[f] == writer && fiAfter[f] == awCount && rmErr[rmCount - 1] == io.EOF && (fiErr[f] != nil ==> result != nil)
  ensures complete: result == nil ==> fiCount == f + 1 && awCount - a == rmCount - n - 1
  ensures ended: mrErr[m] == nil && rmErr[rmCount - 1] == io.EOF ==> fiCount == f + 1
  loop 1 invariant rmCount - n == awCount - a && rmCount >= n
  loop 1 invariant fiCount == f
  loop 1 invariant forall k int :: {awMsg[k]} a <= k && k < awCount ==> awMsg[k] == rmMsg[n + k - a] && awTo[k] == writer && rmErr[n + k - a] == nil
  loop 1 invariant forall k int :: {awErr[k]} a <= k && k < awCount ==> awErr[k] == nil

# The source of records of a file.
ghost opCount int
ghost opErr map[int]error
iface (FileSystem).OpenRead
  params ctx name
  ensures result1 == nil ==> result0 != nil
  ghostset opErr[opCount] := result1
  ghostset opCount := opCount + 1
ghost clCount int
ghost clErr map[int]error
iface (io.Closer).Close
  ghostset clErr[clCount] := result
  ghostset clCount := clCount + 1
extern bufio.NewReaderSize
  params rd size
  ensures result != nil && fresh(result)

func (*Copier).CopyFile
  properties K01
  requires cp != nil && cp.newMessageReader != nil && writer != nil && fs != nil
  modifies mrCount, mrErr, rmCount, rmMsg, rmErr, awCount, awTo, awMsg, awErr, fiCount, fiTo, fiErr, fiAfter, opCount, opErr, clCount, clErr
  let o = opCount
  let c = clCount
  let f = fiCount
  let m = mrCount
  let n = rmCount
  let a = awCount
  ensures opened: opCount == o + 1
  ensures openerror: opErr[o] != nil ==> result != nil && clCount == c && mrCount == m && fiCount == f && awCount == a
  ensures closed: opErr[o] == nil ==> clCount == c + 1 && (clErr[c] != nil ==> result != nil) && mrCount == m + 1
  ensures order: forall k int :: {awMsg[k]} a <= k && k < awCount ==> awMsg[k] == rmMsg[n + k - a] && awTo[k] == writer && rmErr[n + k - a] == nil
  ensures writeerror: awCount > a && awErr[awCount - 1] != nil ==> result != nil
  ensures readerror: rmCount > n && rmErr[rmCount - 1] != nil && rmErr[rmCount - 1] != io.EOF ==> result != nil
  ensures finalised: fiCount <= f + 1 && (fiCount == f + 1 && fiErr[f] != nil ==> result != nil)
  ensures complete: result == nil ==> fiCount == f + 1 && awCount - a == rmCount - n - 1 && rmErr[rmCount - 1] == io.EOF

pred writersOK(cw *compositeRecordWriter) = cw != nil && (forall k int :: {cw.writers[k]} 0 <= k && k < len(cw.writers) ==> cw.writers[k] != nil)
func NewCompositeRecordWriter
  properties K01
  ensures is(result, *compositeRecordWriter) && same(as(result, *compositeRecordWriter).writers, writers) && fresh(as(result, *compositeRecordWriter))

func (*compositeRecordWriter).addRow
  properties K01
  requires writersOK(cw)
  modifies awCount, awTo, awMsg, awErr
  let a = awCount
  ensures range: a <= awCount && awCount <= a + len(cw.writers)
  ensures order: forall k int :: {cw.writers[k]} 0 <= k && k < awCount - a ==> awTo[a + k] == cw.writers[k] && awMsg[a + k] == message
  ensures passed: forall k int :: {awErr[k]} a <= k && k < awCount - 1 ==> awErr[k] == nil
  ensures all: result == nil ==> awCount == a + len(cw.writers) && (awCount > a ==> awErr[awCount - 1] == nil)
  ensures error: result != nil ==> awCount > a && awErr[awCount - 1] != nil
  loop 1 invariant awCount == a + $i
  loop 1 invariant forall k int :: {cw.writers[k]} 0 <= k && k < $i ==> awTo[a + k] == cw.writers[k] && awMsg[a + k] == message
  loop 1 invariant forall k int :: {awErr[k]} a <= k && k < awCount ==> awErr[k] == nil

func (*compositeRecordWriter).finalize
  properties K01
  requires writersOK(cw)
  modifies fiCount, fiTo, fiErr, fiAfter
  let f = fiCount
  ensures all: fiCount == f + len(cw.writers)
  ensures order: forall k int :: {cw.writers[k]} 0 <= k && k < len(cw.writers) ==> fiTo[f + k] == cw.writers[k] && fiAfter[f + k] == awCount
  ensures error: result == nil <==> (forall k int :: {fiErr[k]} f <= k && k < fiCount ==> fiErr[k] == nil)
  loop 1 invariant fiCount == f + $i
  loop 1 invariant forall k int :: {cw.writers[k]} 0 <= k && k < $i ==> fiTo[f + k] == cw.writers[k] && fiAfter[f + k] == awCount
  loop 1 invariant firstErr == nil <==> (forall k int :: {fiErr[k]} f <= k && k < fiCount ==> fiErr[k] == nil)
