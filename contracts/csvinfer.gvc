package csvinfer

# What the csv package makes of a text: an error, or rows of equal length.
logic csvOK(s string) bool
logic csvRows(s string) int
logic csvCols(s string) int
logic csvCell(s string, r int, c int) string
logic readerOf(s string) *strings.Reader
extern strings.NewReader
  params s
  ensures result == readerOf(s) && result != nil
logic textOf(r *strings.Reader) string
axiom reader-text: forall s string :: {readerOf(s)} textOf(readerOf(s)) == s
logic csvText(r *csv.Reader) string
extern encoding/csv.NewReader
  params r
  ensures result != nil && fresh(result)
  ensures is(r, *strings.Reader) ==> csvText(result) == textOf(as(r, *strings.Reader))
extern (*encoding/csv.Reader).ReadAll
  params r
  ensures result1 == nil <==> csvOK(csvText(r))
  ensures result1 == nil ==> len(result0) == csvRows(csvText(r)) && csvCols(csvText(r)) <= 2147483647 && (result0 == nil || fresh(result0))
  ensures result1 == nil ==> forall k int :: {result0[k]} 0 <= k && k < len(result0) ==> len(result0[k]) == csvCols(csvText(r))
  ensures result1 == nil ==> forall k int, j int :: {result0[k][j]} 0 <= k && k < len(result0) && 0 <= j && j < csvCols(csvText(r)) ==> result0[k][j] == csvCell(csvText(r), k, j)

ghost infCount int
ghost infText map[int]string
ghost infOpts map[int]*recordinfer.Options
ghost infOut map[int]*recordinfer.InferredProto
ghost infErr map[int]error
func InferProto
  loop 1 invariant b != nil && b.opts == opts
  loop 1 invariant square(b.rows)
  loop 1 invariant b.rows == nil || fresh(b.rows)
  loop 1 invariant b.rows == nil || arrof(b.rows) != arrof(rows)
  loop 1 invariant len(b.rows) == $i
  loop 1 invariant forall k int :: {rows[k]} 0 <= k && k < len(rows) ==> len(rows[k]) == csvCols(csvLines)
  loop 1 invariant forall k int, j int :: {rows[k][j]} 0 <= k && k < len(rows) && 0 <= j && j < csvCols(csvLines) ==> rows[k][j] == csvCell(csvLines, k, j)
  loop 1 invariant forall k int :: {b.rows[k]} 0 <= k && k < $i ==> same(b.rows[k], rows[k])
  loop 1 invariant forall k int, j int :: {csvCell(csvLines, k, j)} 0 <= k && k < $i && 0 <= j && j < csvCols(csvLines) ==> b.rows[k][j] == csvCell(csvLines, k, j)
  properties R01 R02
  params csvLines opts
  requires opts != nil
  ensures refused: result1 == nil <==> csvOK(csvLines) && csvRows(csvLines) >= 2 && csvCols(csvLines) > 0
  ensures schema: result1 == nil ==> schemaOf(result0, csvLines, opts)
  ghostset infText[infCount] := csvLines
  ghostset infOpts[infCount] := opts
  ghostset infOut[infCount] := result0
  ghostset infErr[infCount] := result1
  ghostset infCount := infCount + 1
