package csvcoder

# A header maps every name to a position that holds that name, and no other
# name.
pred headerOK(h *Header) = h != nil && h.m != nil
  && (forall k string :: {has(h.m, k)} has(h.m, k) ==> 0 <= h.m[k] && h.m[k] < len(h.values) && h.values[h.m[k]] == k)
  && (forall i int :: {h.values[i]} 0 <= i && i < len(h.values) ==> has(h.m, h.values[i]))
pred rowOK(r *Row) = r != nil && headerOK(r.h)
pred absent(h *Header, col string) = forall i int :: {h.values[i]} 0 <= i && i < len(h.values) ==> h.values[i] != col

func NewHeader
  properties C01 C02
  ensures headerOK(result) && fresh(result) && same(result.values, values)
  loop 1 invariant h.m != nil
  loop 1 invariant forall k string :: {has(h.m, k)} has(h.m, k) ==> 0 <= h.m[k] && h.m[k] < $i && h.values[h.m[k]] == k
  loop 1 invariant forall i int :: {h.values[i]} 0 <= i && i < $i ==> has(h.m, h.values[i])

func (*Header).ColumnIndex
  properties C01 C02
  requires headerOK(h)
  ensures cell: result >= 0 ==> result < len(h.values) && h.values[result] == col
  ensures absent: result < 0 <==> absent(h, col)
  ensures invalid: result < 0 ==> result == InvalidColumn
  ensures entry: result >= 0 ==> result == h.m[col]

func (*Header).ColumnNames
  properties C01
  requires headerOK(h)
  ensures same(result, h.values)

func (ColumnNumber).IsValid
  properties C01
  ensures result <==> n >= 0
func (ColumnNumber).Offset
  properties C01
  ensures result == n
func (RowNumber).IsValid
  properties C01 C02
  ensures result <==> n >= 0
func (RowNumber).Offset
  properties C01 C02
  ensures result == n
func (RowNumber).Ordinal
  properties C01 C02
  ensures n < maxInt ==> result == n + 1

func NewRow
  properties C01 C02
  ensures fresh(result) && same(result.values, values) && result.h == h && result.num == num && result.fileName == fileName
func (*Row).Strings
  properties C01
  ensures r != nil ==> same(result, r.values)
  ensures r == nil ==> result == nil
func (*Row).Header
  properties C01
  ensures result == ite(r == nil, nil, r.h)
func (*Row).Number
  properties C01 C02
  ensures result == ite(r == nil, InvalidRow, r.num)
func (*Row).Path
  properties C02
  ensures result == ite(r == nil, "", r.fileName)

# What the coder of a cell is given.
ghost cellCount int
ghost cellText map[int]string
ghost cellRow map[int]*Row
ghost cellErr map[int]error
iface (cellParser).ParseCSVCell
  params ctx value field
  ghostset cellText[cellCount] := value
  ghostset cellRow[cellCount] := ctx.r
  ghostset cellErr[cellCount] := result
  ghostset cellCount := cellCount + 1

func NewCellContext
  properties C01
  ensures fresh(result) && result.r == rctx
func (*CellContext).Row
  properties C01
  requires c != nil
  ensures result == c.r

# The extractor of one field.
func inferRegisteredType$1
  properties C01
  requires rowOK(row) && cellParser != nil
  modifies cellCount, cellText, cellRow, cellErr
  let n = cellCount
  let i = row.h.m[colName]
  ensures missing: absent(row.h, colName) ==> result != nil && cellCount == n
  ensures short: !absent(row.h, colName) && i >= len(row.values) ==> result != nil && cellCount == n
  ensures cell: !absent(row.h, colName) && i < len(row.values) ==> cellCount == n + 1 && cellText[n] == row.values[i] && row.h.values[i] == colName && cellRow[n] == row && result == cellErr[n]

# Field extractors, as called by the parser of a row.
ghost fpCount int
ghost fpRow map[int]*Row
ghost fpFn map[int]zzExtractor
ghost fpErr map[int]error
fnval func(*csvcoder.Row, reflect.Value) error
  params row dst
  ghostset fpRow[fpCount] := row
  ghostset fpFn[fpCount] := self
  ghostset fpErr[fpCount] := result
  ghostset fpCount := fpCount + 1

func (*structParser).ParseCSVRow
  properties C01 C02
  requires p != nil && row != nil
  requires forall k int :: {p.fieldParsers[k]} 0 <= k && k < len(p.fieldParsers) ==> p.fieldParsers[k] != nil
  modifies fpCount, fpRow, fpFn, fpErr
  let n = fpCount
  ensures range: n <= fpCount && fpCount <= n + len(p.fieldParsers)
  ensures order: forall k int :: {p.fieldParsers[k]} 0 <= k && k < fpCount - n ==> fpFn[n + k] == p.fieldParsers[k]
  ensures row: forall k int :: {fpRow[k]} n <= k && k < fpCount ==> fpRow[k] == row
  ensures passed: forall k int :: {fpErr[k]} n <= k && k < fpCount - 1 ==> fpErr[k] == nil
  ensures ok: result == nil ==> fpCount == n + len(p.fieldParsers) && (fpCount > n ==> fpErr[fpCount - 1] == nil)
  ensures failed: result != nil ==> fpCount > n && fpErr[fpCount - 1] != nil
  ensures noteof: result != io.EOF
  loop 1 invariant fpCount == n + $i
  loop 1 invariant forall k int :: {p.fieldParsers[k]} 0 <= k && k < $i ==> fpFn[n + k] == p.fieldParsers[k]
  loop 1 invariant forall k int :: {fpRow[k]} n <= k && k < fpCount ==> fpRow[k] == row
  loop 1 invariant forall k int :: {fpErr[k]} n <= k && k < fpCount ==> fpErr[k] == nil

ghost mkCount int
ghost mkVal map[int]any
fnval func() interface{}
  ghostset mkVal[mkCount] := result
  ghostset mkCount := mkCount + 1

pred rtOK(rt *registeredType) = rt != nil && rt.parser != nil && rt.makeZero != nil && (forall k int :: {rt.parser.fieldParsers[k]} 0 <= k && k < len(rt.parser.fieldParsers) ==> rt.parser.fieldParsers[k] != nil)
func (*registeredType).parseRow
  properties C02
  requires rtOK(rt) && row != nil
  modifies fpCount, fpRow, fpFn, fpErr, mkCount, mkVal
  let n = fpCount
  let m = mkCount
  ensures value: mkCount == m + 1 && result0 == mkVal[m]
  ensures kept: forall k int :: {mkVal[k]} k < m ==> mkVal[k] == old(mkVal[k])
  ensures row: forall k int :: {fpRow[k]} n <= k && k < fpCount ==> fpRow[k] == row
  ensures ok: result1 == nil ==> fpCount == n + len(rt.parser.fieldParsers) && (forall k int :: {fpErr[k]} n <= k && k < fpCount ==> fpErr[k] == nil)
  ensures failed: result1 != nil ==> fpCount > n && fpErr[fpCount - 1] != nil
  ensures noteof: result1 != io.EOF

# The rows that the source delivers.
ghost rdCount int
ghost rdVals map[int][]string
ghost rdErr map[int]error
iface (RowReader).Read
  ghostset rdVals[rdCount] := result0
  ghostset rdErr[rdCount] := result1
  ghostset rdCount := rdCount + 1

pred parserOK(fp *FileParser) = fp != nil && fp.r != nil && headerOK(fp.hdr) && rtOK(fp.rt)

func (*FileParser).parseHeader
  properties C01 C02
  requires fp != nil && fp.r != nil && !fp.hdrOpt.noHeader
  modifies fp.hdr, fp.rowNum, rdCount, rdVals, rdErr
  let n = rdCount
  ensures read: rdCount == n + 1
  ensures failed: rdErr[n] != nil ==> result != nil
  ensures ok: result == nil ==> headerOK(fp.hdr) && same(fp.hdr.values, rdVals[n]) && fp.rowNum == 1
  ensures required: result == nil ==> forall c string :: {has(fp.hdrOpt.expectedColumns, c)} has(fp.hdrOpt.expectedColumns, c) ==> !absent(fp.hdr, c)
  loop 1 invariant len(missing) == 0 ==> forall c string :: {has(fp.hdrOpt.expectedColumns, c)} visited(c) ==> !absent(fp.hdr, c)

func (*FileParser).Read
  properties C02
  requires parserOK(fp)
  modifies fp.rowNum, fpCount, fpRow, fpFn, fpErr, mkCount, mkVal, rdCount, rdVals, rdErr
  let n = rdCount
  let f = fpCount
  let m = mkCount
  let num = fp.rowNum
  ensures one: rdCount == n + 1
  ensures eof: rdErr[n] == io.EOF <==> result1 == io.EOF
  ensures readerror: rdErr[n] != nil ==> result1 != nil && fpCount == f && mkCount == m
  ensures row: rdErr[n] == nil ==> forall k int :: {fpRow[k]} f <= k && k < fpCount ==> same(fpRow[k].values, rdVals[n]) && fpRow[k].h == fp.hdr && fpRow[k].num == num && fpRow[k].fileName == fp.filePath
  ensures value: rdErr[n] == nil ==> mkCount == m + 1 && result0 == mkVal[m]
  ensures ok: result1 == nil ==> rdErr[n] == nil && fpCount == f + len(fp.rt.parser.fieldParsers) && (forall k int :: {fpErr[k]} f <= k && k < fpCount ==> fpErr[k] == nil)
  ensures kept: (forall k int :: {rdErr[k]} k < n ==> rdErr[k] == old(rdErr[k])) && (forall k int :: {mkVal[k]} k < m ==> mkVal[k] == old(mkVal[k]))
  ensures number: rdErr[n] != io.EOF && num < maxInt ==> fp.rowNum == num + 1

ghost cbCount int
ghost cbVal map[int]any
ghost cbErr map[int]error
fnval func(interface{}) error
  params v
  ghostset cbVal[cbCount] := v
  ghostset cbErr[cbCount] := result
  ghostset cbCount := cbCount + 1

func (*FileParser).ReadAll
  properties C02
  requires parserOK(fp) && callback != nil
  modifies fp.rowNum, fpCount, fpRow, fpFn, fpErr, mkCount, mkVal, rdCount, rdVals, rdErr, cbCount, cbVal, cbErr
  let n = rdCount
  let m = mkCount
  let c = cbCount
  ensures all: result == nil ==> rdErr[rdCount - 1] == io.EOF && rdCount - n == cbCount - c + 1 && mkCount - m == cbCount - c
  ensures passed: forall k int :: {rdErr[k]} n <= k && k < rdCount - 1 ==> rdErr[k] == nil
  ensures order: forall k int :: {cbVal[k]} c <= k && k < cbCount ==> cbVal[k] == mkVal[k - c + m]
  ensures accepted: forall k int :: {cbErr[k]} c <= k && k < cbCount - 1 ==> cbErr[k] == nil
  ensures stop: result == nil ==> (cbCount > c ==> cbErr[cbCount - 1] == nil)
  ensures reported: rdErr[rdCount - 1] != nil && rdErr[rdCount - 1] != io.EOF ==> result != nil
  ensures count: rdCount > n && cbCount - c <= mkCount - m && mkCount - m <= rdCount - n
  ensures every: cbCount - c >= rdCount - n - 1
  loop 1 invariant rdCount - n == cbCount - c && mkCount - m == cbCount - c && rdCount >= n
  loop 1 invariant parserOK(fp)
  loop 1 invariant forall k int :: {rdErr[k]} n <= k && k < rdCount ==> rdErr[k] == nil
  loop 1 invariant forall k int :: {cbVal[k]} c <= k && k < cbCount ==> cbVal[k] == mkVal[k - c + m]
  loop 1 invariant forall k int :: {cbErr[k]} c <= k && k < cbCount ==> cbErr[k] == nil
