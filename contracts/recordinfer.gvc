package recordinfer

# A candidate type is a function that returns the type when a text denotes a
# value of it: always the same type, whose texts are those it takes.
logic takes(f zzInferrer, v string) bool
logic timeKind(f zzInferrer) *timeColumnType
logic floatKind(f zzInferrer) bool
pred isTime(t *timeColumnType, v string) = ite(t.loc == nil, timeOK(t.layout, v, time.UTC), timeOK(t.layout, v, t.loc))
pred isNumber(float bool, v string) = ite(float, floatOK(v, 32), inInt(v, 64))
pred isType(ct columnType) = is(ct, *timeColumnType) && as(ct, *timeColumnType) != nil || is(ct, *numberColumnType) && as(ct, *numberColumnType) != nil || is(ct, *stringColumnType)
pred fits(ct columnType, v string) = is(ct, *timeColumnType) && as(ct, *timeColumnType) != nil && isTime(as(ct, *timeColumnType), v) || is(ct, *numberColumnType) && as(ct, *numberColumnType) != nil && isNumber(as(ct, *numberColumnType).floatingPoint, v) || is(ct, *stringColumnType)
axiom int-takes: forall v string :: {takes(inferInt64Format, v)} takes(inferInt64Format, v) <==> inInt(v, 64)
axiom float-takes: forall v string :: {takes(inferFloat32Format, v)} takes(inferFloat32Format, v) <==> floatOK(v, 32)
axiom int-kind: timeKind(inferInt64Format) == nil && !floatKind(inferInt64Format)
axiom float-kind: timeKind(inferFloat32Format) == nil && floatKind(inferFloat32Format)
fnval func(string) (recordinfer.columnType, error)
  params value
  ensures result1 == nil
  ensures (result0 != nil) <==> takes(self, value)
  ensures result0 != nil ==> fits(result0, value)
  ensures result0 != nil ==> ite(timeKind(self) != nil, is(result0, *timeColumnType) && as(result0, *timeColumnType) == timeKind(self), is(result0, *numberColumnType) && as(result0, *numberColumnType).floatingPoint == floatKind(self))

func inferInt64Format
  properties R01
  params value
  ensures taken: result1 == nil && ((result0 != nil) <==> inInt(value, 64))
  ensures kind: result0 != nil ==> is(result0, *numberColumnType) && as(result0, *numberColumnType) != nil && !as(result0, *numberColumnType).floatingPoint
func inferFloat32Format
  properties R01
  params value
  ensures taken: result1 == nil && ((result0 != nil) <==> floatOK(value, 32))
  ensures kind: result0 != nil ==> is(result0, *numberColumnType) && as(result0, *numberColumnType) != nil && as(result0, *numberColumnType).floatingPoint
func (*timeColumnType).asInferrerFunc$[func(string) (recordinfer.columnType, error)]
  properties R01
  params value
  requires t != nil
  ensures taken: result1 == nil && ((result0 != nil) <==> isTime(t, value))
  ensures kind: result0 != nil ==> is(result0, *timeColumnType) && as(result0, *timeColumnType) == t
  defines timeKind(self) == t
  defines forall v string :: {takes(self, v)} takes(self, v) <==> isTime(t, v)
func (*timeColumnType).asInferrerFunc
  properties R01
  requires t != nil
  ensures result != nil && timeKind(result) == t && (forall v string :: {takes(result, v)} takes(result, v) <==> isTime(t, v))
func candidateTimeColumnTypes
  properties R01
  params loc
  ensures zone: forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] != nil && result[k].loc == loc
func timeFormatInferrers
  properties R01
  params loc
  ensures forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] != nil && timeKind(result[k]) != nil
  loop 1 invariant forall k int :: {out[k]} 0 <= k && k < len(out) ==> out[k] != nil && timeKind(out[k]) != nil

# The words for the types.
pred typeWord(ct columnType) string = ite(is(ct, *timeColumnType), "google.protobuf.Timestamp", ite(is(ct, *numberColumnType), ite(as(ct, *numberColumnType).floatingPoint, "float", "int64"), "string"))
iface (columnType).protoType
  requires isType(self)
  ensures result == typeWord(self)
func (*numberColumnType).protoType
  properties R01 R02
  requires t != nil
  ensures result == ite(t.floatingPoint, "float", "int64")
func (*stringColumnType).protoType
  properties R01 R02
  ensures result == "string"
func (*timeColumnType).protoType
  properties R01 R02
  ensures result == "google.protobuf.Timestamp"
func columnTypesEqual
  properties R01
  params a b
  requires isType(a) && isType(b)
  ensures result <==> typeWord(a) == typeWord(b)

# A table of texts: a header and at least one row of the same length.
pred square(rows [][]string) = forall k int :: {rows[k]} 0 <= k && k < len(rows) ==> len(rows[k]) == len(rows[0])
pred column(cv *columnValues) = cv != nil && len(cv.rows) > 0 && square(cv.rows) && 0 <= cv.index && cv.index < len(cv.rows[0])
func (*columnValues).columnName
  properties R02
  requires column(cv)
  ensures result == cv.rows[0][cv.index]
func (*columnValues).rawValues
  properties R01 R02
  requires column(cv)
  ensures count: len(result) == len(cv.rows) - 1
  ensures values: forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] == cv.rows[k+1][cv.index]
  loop 1 invariant len(values) == $i
  loop 1 invariant forall k int :: {values[k]} 0 <= k && k < $i ==> values[k] == cv.rows[k+1][cv.index]
func (*columnValues).inferType
  properties R01
  params cv opts
  requires column(cv) && opts != nil
  let col = cv.index
  ensures total: result1 == nil && result0 != nil && isType(result0)
  ensures accepts: forall k int :: {cv.rows[k]} 1 <= k && k < len(cv.rows) ==> fits(result0, cv.rows[k][col])
  ensures text-last: len(cv.rows) > 1 && is(result0, *stringColumnType) ==> exists k int :: 1 <= k && k < len(cv.rows) && !floatOK(cv.rows[k][col], 32)
  ensures float-after-int: len(cv.rows) > 1 && is(result0, *stringColumnType) || is(result0, *numberColumnType) && as(result0, *numberColumnType).floatingPoint ==> exists k int :: 1 <= k && k < len(cv.rows) && !inInt(cv.rows[k][col], 64)
  loop 1 invariant len(inferrers) >= 2
  loop 1 invariant inferrers[len(inferrers)-2] == inferInt64Format
  loop 1 invariant forall j int :: {inferrers[j]} 0 <= j && j < len(inferrers) - 2 ==> timeKind(inferrers[j]) != nil
  loop 1 invariant forall j int :: {inferrers[j]} 0 <= j && j < $i && len(cv.rows) > 1 ==> exists k int :: 1 <= k && k < len(cv.rows) && !takes(inferrers[j], cv.rows[k][col])
  loop 2 invariant colType != nil ==> isType(colType) && !is(colType, *stringColumnType)
  loop 2 invariant $i > 0 ==> colType != nil
  loop 2 invariant colType != nil ==> len(cv.rows) > 1
  loop 2 invariant everyValueIsColType
  loop 2 invariant forall k int :: {cv.rows[k]} 1 <= k && k <= $i ==> fits(colType, cv.rows[k][col])
  loop 2 invariant colType != nil ==> ite(timeKind(inferer) != nil, is(colType, *timeColumnType) && as(colType, *timeColumnType) == timeKind(inferer), is(colType, *numberColumnType) && as(colType, *numberColumnType).floatingPoint == floatKind(inferer))

# Tables, schemas and mappings.
func NewRecordBasedInferrer
  properties R01 R02
  params opts
  ensures result != nil && fresh(result) && result.opts == opts && result.rows == nil
func (*RecordBasedInferrer).AddRow
  properties R01
  params b row
  requires b != nil && square(b.rows)
  modifies b.rows, elems(b.rows)
  ensures ragged: result != nil <==> len(old(b.rows)) > 0 && len(row) != len(old(b.rows[0]))
  ensures refused: result != nil ==> same(b.rows, old(b.rows))
  ensures added: result == nil ==> len(b.rows) == len(old(b.rows)) + 1 && same(b.rows[len(b.rows)-1], row)
  ensures kept: result == nil ==> (forall k int :: {b.rows[k]} 0 <= k && k < len(old(b.rows)) ==> same(b.rows[k], old(b.rows[k])))
  ensures square: square(b.rows)
  ensures result == nil ==> same(b.rows, old(b.rows)) || fresh(b.rows) || arrof(b.rows) == arrof(old(b.rows))
func columnNameToFieldName
  pureuf
  params colName
extern (*regexp.Regexp).ReplaceAllString
  pureuf
  params re src repl
extern sort.Slice
  params x less
  modifies elems(as(x, []string))
  ensures forall i int :: {as(x, []string)[i]} 0 <= i && i < len(as(x, []string)) ==> exists j int :: 0 <= j && j < len(as(x, []string)) && as(x, []string)[i] == old(as(x, []string)[j])
func (*columnValues).statisticalComment
  properties R02
  requires column(cv)
  loop 2 invariant keys == nil || fresh(keys)
pred columnIs(c *inferredColumn, rows [][]string, i int) = c != nil && c.csvColumnName == rows[0][i] && c.fieldName == columnNameToFieldName(rows[0][i]) && c.tag == i + 1 && isType(c.columnType) && (forall k int :: {rows[k]} 1 <= k && k < len(rows) ==> fits(c.columnType, rows[k][i]))
func (*RecordBasedInferrer).Build
  properties R01 R02
  params b
  requires b != nil && b.opts != nil && square(b.rows)
  ensures few: result1 == nil <==> len(b.rows) >= 2 && len(b.rows[0]) > 0
  ensures named: result1 == nil ==> result0 != nil && result0.messageName == b.opts.MessageName && result0.packageName == b.opts.PackageName
  ensures go: result1 == nil ==> ite(b.opts.GoPackageName != "" || b.opts.GoProtoImport != "", result0.goOpts != nil && result0.goOpts.GoPackageName == b.opts.GoPackageName && result0.goOpts.ProtoImport == b.opts.GoProtoImport, result0.goOpts == nil)
  ensures columns: result1 == nil ==> len(result0.columns) == len(b.rows[0]) && (forall i int :: {result0.columns[i]} 0 <= i && i < len(result0.columns) ==> columnIs(result0.columns[i], b.rows, i))
  loop 1 invariant len(result.columns) == i
  loop 1 invariant result.columns == nil || fresh(result.columns)
  loop 1 invariant 0 <= i
  loop 1 invariant forall k int :: {result.columns[k]} 0 <= k && k < i ==> columnIs(result.columns[k], b.rows, k)

# What a type adds to the mapping of its column.
pred zoneName(t *timeColumnType) string = ite(t.loc == nil, "", t.loc.String())
extern (*time.Location).String
  pureuf
  params l
iface (columnType).updateMapping
  params mapping
  requires isType(self) && mapping != nil
  modifies mapping.ParsingInfo
  ensures is(self, *timeColumnType) ==> is(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) != nil && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat != nil && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat.GoLayout == as(self, *timeColumnType).layout && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat.TimeZoneName == zoneName(as(self, *timeColumnType))
func (*timeColumnType).updateMapping
  properties R01 R02
  params t mapping
  requires t != nil && mapping != nil
  modifies mapping.ParsingInfo
  ensures is(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) != nil && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat != nil && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat.GoLayout == t.layout && as(mapping.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat).TimeFormat.TimeZoneName == zoneName(t)
func (*numberColumnType).updateMapping
  properties R02
  params t mapping
func (*stringColumnType).updateMapping
  properties R02
  params t mapping
iface (columnType).protoImports
  requires isType(self)
  ensures ite(is(self, *timeColumnType), len(result) == 1 && result[0] == "google/protobuf/timestamp.proto", len(result) == 0)
func (*timeColumnType).protoImports
  properties R02
  ensures len(result) == 1 && result[0] == "google/protobuf/timestamp.proto"
func (*numberColumnType).protoImports
  properties R02
  ensures len(result) == 0
func (*stringColumnType).protoImports
  properties R02
  ensures len(result) == 0

pred schemaOK(ip *InferredProto) = ip != nil && len(ip.columns) <= 2147483647 && (forall k int :: {ip.columns[k]} 0 <= k && k < len(ip.columns) ==> ip.columns[k] != nil && isType(ip.columns[k].columnType) && ip.columns[k].tag == k + 1)
pred entryIs(m *recordtoproto.ColumnToFieldMapping, c *inferredColumn, k int) = m != nil && m.ColumnIndex == k && m.ProtoTag == k + 1 && m.ColName == c.csvColumnName && m.ProtoName == c.fieldName && m.ProtoType == typeWord(c.columnType) && m.Comment == c.comment && !m.Ignored
func (*InferredProto).Mapping
  properties R02
  params ip
  requires schemaOK(ip)
  ensures named: result != nil && result.PackageName == ip.packageName && result.MessageName == ip.messageName && result.GoOptions == ip.goOpts
  ensures entries: len(result.ColumnToFieldMappings) == len(ip.columns) && (forall k int :: {result.ColumnToFieldMappings[k]} 0 <= k && k < len(ip.columns) ==> entryIs(result.ColumnToFieldMappings[k], ip.columns[k], k))
  ensures only: len(result.ExtraFieldDefinitions) == 0
  loop 1 invariant m.ColumnToFieldMappings == nil || fresh(m.ColumnToFieldMappings)
  loop 1 invariant len(m.ColumnToFieldMappings) == $i
  loop 1 invariant forall k int :: {m.ColumnToFieldMappings[k]} 0 <= k && k < $i ==> fresh(m.ColumnToFieldMappings[k]) && entryIs(m.ColumnToFieldMappings[k], ip.columns[k], k)
func (*inferredColumn).protoFieldCode
  properties R02
  params c
  requires c != nil && isType(c.columnType)
  ensures result == "  " + typeWord(c.columnType) + " " + c.fieldName + " = " + strconv.Itoa(c.tag) + ";"
func (*InferredProto).Code
  properties R02
  params ip
  requires schemaOK(ip)
  loop 1 invariant imports == nil || fresh(imports)

# The schema of a text: one column per column of the text, its type accepting
# every cell below the header.
pred schemaOf(ip *InferredProto, s string, opts *Options) = ip != nil && ip.messageName == opts.MessageName && ip.packageName == opts.PackageName && ite(opts.GoPackageName != "" || opts.GoProtoImport != "", ip.goOpts != nil && ip.goOpts.GoPackageName == opts.GoPackageName && ip.goOpts.ProtoImport == opts.GoProtoImport, ip.goOpts == nil) && len(ip.columns) == csvCols(s) && len(ip.columns) <= 2147483647 && (forall i int :: {ip.columns[i]} 0 <= i && i < len(ip.columns) ==> ip.columns[i] != nil && ip.columns[i].csvColumnName == csvCell(s, 0, i) && ip.columns[i].tag == i + 1 && isType(ip.columns[i].columnType) && (forall k int :: {csvCell(s, k, i)} 1 <= k && k < csvRows(s) ==> fits(ip.columns[i].columnType, csvCell(s, k, i))))
