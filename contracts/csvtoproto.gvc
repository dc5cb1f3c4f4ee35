package csvtoproto

# The text of comments: lines that begin with // and end with their line. (Only
# the rules that make such a text.)
logic commentText(s string) bool
axiom comment-none: commentText("")
axiom comment-line: forall a string, l string :: {commentText(a), contains(l, "\n")} commentText(a) && contains(l, "//") && !contains(l, "\n") ==> commentText(a + (l + "\n"))
axiom comment-trimmed: forall a string, l string :: {commentText(a), strings.TrimRight(l, " ")} commentText(a) && contains(strings.TrimRight(l, " "), "//") && !contains(strings.TrimRight(l, " "), "\n") ==> commentText(a + (strings.TrimRight(l, " ") + "\n"))

extern go/format.Source
  params src
extern github.com/mitchellh/go-wordwrap.WrapString
  pureuf
  params s lim
extern github.com/golang/glog.Warningf
  params format args
extern strings.Repeat
  pureuf
  params s count
  ensures s == " " ==> len(result) == count && !contains(result, "\n")
extern strings.Split
  params s sep
  ensures sep != "" ==> len(result) >= 1 && fresh(result)
  ensures sep != "" ==> forall k int :: {result[k]} 0 <= k && k < len(result) ==> !contains(result[k], sep)
extern strings.TrimRight
  pureuf
  params s cutset
  ensures hasPrefix(s, result)
  ensures cutset == " " && contains(s, "// ") ==> contains(result, "//")
  ensures !contains(s, "\n") ==> !contains(result, "\n")

# Nothing of a mapping is changed by generating code from it.
pred columnOK(c *recordtoproto.ColumnToFieldMapping) = c != nil && (is(c.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) ==> as(c.ParsingInfo, *recordtoproto.ColumnToFieldMapping_TimeFormat) != nil) && (is(c.ParsingInfo, *recordtoproto.ColumnToFieldMapping_DurationFormat) ==> as(c.ParsingInfo, *recordtoproto.ColumnToFieldMapping_DurationFormat) != nil)
pred mappingOK(m *recordtoproto.RecordProtoMapping) = m != nil && (forall k int :: {m.ColumnToFieldMappings[k]} 0 <= k && k < len(m.ColumnToFieldMappings) ==> columnOK(m.ColumnToFieldMappings[k])) && (forall k int :: {m.ExtraFieldDefinitions[k]} 0 <= k && k < len(m.ExtraFieldDefinitions) ==> m.ExtraFieldDefinitions[k] != nil)
func GenerateCode
  properties P01
  requires mappingOK(mapping)
  params mapping genProto genGo
  ensures !genProto ==> result0 == ""
  ensures !genGo ==> result1 == ""
  ensures result2 != nil ==> result0 == "" && result1 == ""
  ensures untyped: genGo && result2 == nil ==> forall k int :: {mapping.ColumnToFieldMappings[k]} 0 <= k && k < len(mapping.ColumnToFieldMappings) && !mapping.ColumnToFieldMappings[k].Ignored ==> supported(mapping.ColumnToFieldMappings[k].ProtoType) && mapping.ColumnToFieldMappings[k].ProtoName != ""

# The imports of a message definition: each needed file once and nothing else.
func sortImports
  properties P01
  params paths
  ensures needed: forall i int :: {result[i]} 0 <= i && i < len(result) ==> exists j int :: 0 <= j && j < len(paths) && paths[j] == result[i]
  ensures all: forall j int :: {paths[j]} 0 <= j && j < len(paths) ==> exists i int :: 0 <= i && i < len(result) && result[i] == paths[j]
  ensures once: forall i int, j int :: {result[i], result[j]} 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
  loop 1 invariant m != nil && fresh(m) && (forall j int :: {paths[j]} 0 <= j && j < $i ==> has(m, paths[j])) && (forall s string :: {has(m, s)} has(m, s) ==> exists j int :: 0 <= j && j < $i && paths[j] == s)
  loop 2 invariant out == nil || fresh(out)
  loop 2 invariant forall i int :: {out[i]} 0 <= i && i < len(out) ==> visited(out[i]) && has(m, out[i])
  loop 2 invariant forall s string :: {visited(s)} visited(s) ==> exists i int :: 0 <= i && i < len(out) && out[i] == s
  loop 2 invariant forall i int, j int :: {out[i], out[j]} 0 <= i && i < j && j < len(out) ==> out[i] != out[j]
func importStatements
  properties P01
  params paths
  loop 1 invariant statements == nil || fresh(statements)
  loop 1 invariant len(statements) == $i && forall k int :: {statements[k]} 0 <= k && k < $i ==> statements[k] == "import " + goQuoted(paths[k]) + ";"

# A comment cannot end early or start code.
func formatProtoComment
  properties P01
  params comment indent
  requires 0 <= indent && indent <= 70
  ensures none: comment == "" ==> result == ""
  ensures lines: commentText(result)
  loop 1 invariant commentText(out)

# The message definition: the columns that are not ignored, and then the extra
# fields, in order.
func (*codeGenerator).protoCode
  properties P01
  params cg
  requires cg != nil && mappingOK(cg.mapping)
  loop 1 invariant fieldDefs == nil || fresh(fieldDefs)
  loop 1 invariant forall j int :: {fieldDefs[j]} 0 <= j && j < len(fieldDefs) ==> fieldDefs[j] != nil

# A record type of Go has one Go type for each supported type of a column.
pred supported(t string) = t == "int32" || t == "int64" || t == "float" || t == "double" || t == "string" || t == "google.protobuf.Timestamp" || t == "google.protobuf.Duration"
pred scalarOf(t string) string = ite(t == "float", "float32", ite(t == "double", "float64", t))
pred needsText(t string) = t == "google.protobuf.Timestamp" || t == "google.protobuf.Duration"
func getFieldTypeCode
  properties P01
  params c2f fieldName
  requires columnOK(c2f) && len(fieldName) > 0
  ensures unsupported: !supported(c2f.ProtoType) ==> result1 != nil
  ensures result1 == nil <==> result0 != nil
  ensures scalar: supported(c2f.ProtoType) && !needsText(c2f.ProtoType) ==> result1 == nil && result0.topLevelCode == "" && result0.typeName == scalarOf(c2f.ProtoType)
  ensures named: result1 == nil && needsText(c2f.ProtoType) ==> result0.typeName == strings.ToLower(fieldName[0:1]) + fieldName[1:] + ite(c2f.ProtoType == "google.protobuf.Duration", "Duration", "Time")
func getGoToProtoFieldExpression
  properties P01
  params inExpr outVar protoType
  ensures unsupported: !supported(protoType) ==> result1 != nil
  ensures result1 == nil <==> result0 != nil
  ensures copied: supported(protoType) && !needsText(protoType) ==> result1 == nil && result0.valueExpr == inExpr && result0.parseStatements == ""
  ensures parsed: needsText(protoType) ==> result1 == nil && result0.valueExpr == outVar && contains(result0.parseStatements, outVar + ", err := csvtoprotoparse." + ite(protoType == "google.protobuf.Duration", "DurationToDurationProto(" + inExpr + ".duration())", "TimeToTimestamp(" + inExpr + ".time())"))

# No two fields have the same Go name.
func goCamelCase
  pureuf
  params name
  ensures len(name) > 0 ==> len(result) > 0
  loop 1 invariant 0 <= i && len(b) >= ite(i > 0, 1, 0) && (b == nil || fresh(b))
  loop 2 invariant 0 <= i && len(b) >= 1 && fresh(b) && i < len(name)
func (goNames).add
  properties P01
  params used protoName
  requires used != nil && len(protoName) > 0
  modifies entries(used)
  ensures len(result) > 0
  ensures new: !old(has(used, result) && used[result])
  ensures used: forall k string :: {used[k]} (old(used[k]) ==> used[k]) && (used[k] && !old(used[k]) ==> k == result || k == "Get" + result)
  ensures used[result] && used["Get" + result]
  loop 1 invariant len(name) > 0
func csvTag
  properties P01
  params colName
  ensures let tag := "csv:" + goQuoted(colName); result == ite(contains(tag, "`"), goQuoted(tag), "`" + tag + "`")
func (*codeGenerator).sharedTemplateParams
  properties P01
  params cg
  requires cg != nil && cg.mapping != nil
  ensures result1 == nil ==> result0 != nil && fresh(result0)
  ensures result1 == nil <==> cg.mapping.GoOptions != nil && cg.mapping.GoOptions.GoPackageName != ""
func (*codeGenerator).makeStructCode
  properties P01
  params cg
  requires cg != nil && mappingOK(cg.mapping)
  let cols = cg.mapping.ColumnToFieldMappings
  ensures result1 == nil ==> result0 != nil
  ensures untyped: result1 == nil ==> forall k int :: {cols[k]} 0 <= k && k < len(cols) && !cols[k].Ignored ==> supported(cols[k].ProtoType) && cols[k].ProtoName != ""
  loop 1 invariant fresh(fieldLines) && fresh(protoNames) && fresh(recordNames) && protoNames != nil && recordNames != nil && params != nil
  loop 1 invariant len(fieldLines) >= 1 && len(protoFieldLiterals) == len(fieldLines) - 1
  loop 1 invariant (topLevelLines == nil || fresh(topLevelLines)) && (toProtoInitStatements == nil || fresh(toProtoInitStatements)) && (protoFieldLiterals == nil || fresh(protoFieldLiterals))
  loop 1 invariant forall k int :: {cols[k]} 0 <= k && k < $i && !cols[k].Ignored ==> supported(cols[k].ProtoType) && cols[k].ProtoName != ""
func (*codeGenerator).goCode
  properties P01
  params cg
  requires cg != nil && mappingOK(cg.mapping)
  let cols = cg.mapping.ColumnToFieldMappings
  ensures untyped: result1 == nil ==> forall k int :: {cols[k]} 0 <= k && k < len(cols) && !cols[k].Ignored ==> supported(cols[k].ProtoType) && cols[k].ProtoName != ""
  ensures result1 != nil ==> result0 == ""
func lowerAt
  pureuf
  params s i
  requires 0 <= i
  ensures result <==> i < len(s) && 97 <= s[i] && s[i] <= 122
