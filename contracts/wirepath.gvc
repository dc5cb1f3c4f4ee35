package wirepath

axiom lower-twice: forall s string :: {strings.ToLower(strings.ToLower(s))} strings.ToLower(strings.ToLower(s)) == strings.ToLower(s)

# ---- W01: texts of paths -------------------------------------------------

func setSlotBasedOnMapKeyLiteral
  properties W01
  requires out != nil
  modifies out.Slot
  let k = strings.ToLower(typeName)
  ensures int32: k == "int32" ==> (result == nil <==> inInt(literal, 32)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyInt32) && as(out.Slot, *wirepath.WirePath_MapKeyInt32).MapKeyInt32 == intVal(literal))
  ensures sint32: k == "sint32" ==> (result == nil <==> inInt(literal, 32)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeySint32) && as(out.Slot, *wirepath.WirePath_MapKeySint32).MapKeySint32 == intVal(literal))
  ensures sfixed32: k == "sfixed32" ==> (result == nil <==> inInt(literal, 32)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeySfixed32) && as(out.Slot, *wirepath.WirePath_MapKeySfixed32).MapKeySfixed32 == intVal(literal))
  ensures int64: k == "int64" ==> (result == nil <==> inInt(literal, 64)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyInt64) && as(out.Slot, *wirepath.WirePath_MapKeyInt64).MapKeyInt64 == intVal(literal))
  ensures sint64: k == "sint64" ==> (result == nil <==> inInt(literal, 64)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeySint64) && as(out.Slot, *wirepath.WirePath_MapKeySint64).MapKeySint64 == intVal(literal))
  ensures sfixed64: k == "sfixed64" ==> (result == nil <==> inInt(literal, 64)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeySfixed64) && as(out.Slot, *wirepath.WirePath_MapKeySfixed64).MapKeySfixed64 == intVal(literal))
  ensures uint32: k == "uint32" ==> (result == nil <==> inUint(literal, 32)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyUint32) && as(out.Slot, *wirepath.WirePath_MapKeyUint32).MapKeyUint32 == intVal(literal))
  ensures fixed32: k == "fixed32" ==> (result == nil <==> inUint(literal, 32)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyFixed32) && as(out.Slot, *wirepath.WirePath_MapKeyFixed32).MapKeyFixed32 == intVal(literal))
  ensures uint64: k == "uint64" ==> (result == nil <==> inUint(literal, 64)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyUint64) && as(out.Slot, *wirepath.WirePath_MapKeyUint64).MapKeyUint64 == intVal(literal))
  ensures fixed64: k == "fixed64" ==> (result == nil <==> inUint(literal, 64)) && (result == nil ==> is(out.Slot, *wirepath.WirePath_MapKeyFixed64) && as(out.Slot, *wirepath.WirePath_MapKeyFixed64).MapKeyFixed64 == intVal(literal))
  ensures bool: k == "bool" && (literal == "0" || literal == "1") ==> result == nil && is(out.Slot, *wirepath.WirePath_MapKeyBool) && (as(out.Slot, *wirepath.WirePath_MapKeyBool).MapKeyBool <==> literal == "1")
  ensures boolerror: k == "bool" && literal != "0" && literal != "1" ==> result != nil
  ensures unknown: k != "int32" && k != "sint32" && k != "sfixed32" && k != "int64" && k != "sint64" && k != "sfixed64" && k != "uint32" && k != "fixed32" && k != "uint64" && k != "fixed64" && k != "bool" ==> result != nil
  ensures kept: result != nil ==> same(out.Slot, old(out.Slot))

# The expression for a part of a path is anchored and matches at least one
# character.
axiom part: forall s string :: {reMatch(pathPartRegexp, s)} reMatch(pathPartRegexp, s) ==> reStart(pathPartRegexp, s) == 0 && reGroup(pathPartRegexp, s, 0) != ""


# A path text is cut at a slash outside string literals: the part is a prefix
# of the text, and nothing but one slash is dropped. An empty element is an
# error.
ghost neCount int
ghost neText map[int]string
ghost nePart map[int]string
ghost neRest map[int]string
ghost neErr map[int]error
func nextPathElem
  properties W01
  requires literal != ""
  ensures cut: result2 == nil ==> result0 != "" && (literal == result0 && result1 == "" || literal == result0 + "/" + result1 && result1 != "" || literal == result0 + result1 && result1 != "")
  ghostset neText[neCount] := literal
  ghostset nePart[neCount] := result0
  ghostset neRest[neCount] := result1
  ghostset neErr[neCount] := result2
  ghostset neCount := neCount + 1

# An element text gives one element.
pred slotText(s string, g int) string = reGroup(parseRegexp, s, g)
ghost peCount int
ghost peText map[int]string
ghost peOut map[int]*wirepath.WirePath
ghost peErr map[int]error
ghost peElement map[int]any
ghost peName map[int]string
ghost peSlot map[int]any
func parsePathElem
  properties W01
  requires reGroups(parseRegexp) == 7 && reGroups(protobufStringElemRegexp) == 4
  ensures nomatch: !reMatch(parseRegexp, s) ==> result1 != nil
  ensures fresh: result1 == nil ==> result0 != nil && fresh(result0) && result0.Child == nil
  ensures self: result1 == nil && slotText(s, 1) != "" ==> is(result0.Element, *wirepath.WirePath_SpecialPath_) && as(result0.Element, *wirepath.WirePath_SpecialPath_).SpecialPath == wirepath.WirePath_SELF && result0.Slot == nil
  ensures number: result1 == nil && slotText(s, 1) == "" ==> inInt(slotText(s, 2), 32) && is(result0.Element, *wirepath.WirePath_FieldNumber) && as(result0.Element, *wirepath.WirePath_FieldNumber).FieldNumber == intVal(slotText(s, 2)) && result0.FieldName == slotText(s, 3)
  ensures noslot: result1 == nil && slotText(s, 1) == "" && slotText(s, 4) == "" && slotText(s, 5) == "" && slotText(s, 6) == "" ==> result0.Slot == nil
  ensures index: result1 == nil && slotText(s, 1) == "" && slotText(s, 4) != "" ==> inInt(slotText(s, 4), 64) && is(result0.Slot, *wirepath.WirePath_RepeatedFieldOffset) && as(result0.Slot, *wirepath.WirePath_RepeatedFieldOffset).RepeatedFieldOffset == intVal(slotText(s, 4))
  ensures stringkey: result1 == nil && slotText(s, 1) == "" && slotText(s, 4) == "" && slotText(s, 5) != "" ==> is(result0.Slot, *wirepath.WirePath_MapKeyString) && psOK(slotText(s, 5)) && as(result0.Slot, *wirepath.WirePath_MapKeyString).MapKeyString == psVal(slotText(s, 5))
  let k = strings.ToLower(slotText(s, 7))
  let other = reMatch(parseRegexp, s) && slotText(s, 1) == "" && slotText(s, 4) == "" && slotText(s, 5) == "" && slotText(s, 6) != ""
  ensures int32: result1 == nil && other && k == "int32" ==> inInt(slotText(s, 6), 32) && is(result0.Slot, *wirepath.WirePath_MapKeyInt32) && as(result0.Slot, *wirepath.WirePath_MapKeyInt32).MapKeyInt32 == intVal(slotText(s, 6))
  ensures sint32: result1 == nil && other && k == "sint32" ==> inInt(slotText(s, 6), 32) && is(result0.Slot, *wirepath.WirePath_MapKeySint32) && as(result0.Slot, *wirepath.WirePath_MapKeySint32).MapKeySint32 == intVal(slotText(s, 6))
  ensures sfixed32: result1 == nil && other && k == "sfixed32" ==> inInt(slotText(s, 6), 32) && is(result0.Slot, *wirepath.WirePath_MapKeySfixed32) && as(result0.Slot, *wirepath.WirePath_MapKeySfixed32).MapKeySfixed32 == intVal(slotText(s, 6))
  ensures int64: result1 == nil && other && k == "int64" ==> inInt(slotText(s, 6), 64) && is(result0.Slot, *wirepath.WirePath_MapKeyInt64) && as(result0.Slot, *wirepath.WirePath_MapKeyInt64).MapKeyInt64 == intVal(slotText(s, 6))
  ensures sint64: result1 == nil && other && k == "sint64" ==> inInt(slotText(s, 6), 64) && is(result0.Slot, *wirepath.WirePath_MapKeySint64) && as(result0.Slot, *wirepath.WirePath_MapKeySint64).MapKeySint64 == intVal(slotText(s, 6))
  ensures sfixed64: result1 == nil && other && k == "sfixed64" ==> inInt(slotText(s, 6), 64) && is(result0.Slot, *wirepath.WirePath_MapKeySfixed64) && as(result0.Slot, *wirepath.WirePath_MapKeySfixed64).MapKeySfixed64 == intVal(slotText(s, 6))
  ensures uint32: result1 == nil && other && k == "uint32" ==> inUint(slotText(s, 6), 32) && is(result0.Slot, *wirepath.WirePath_MapKeyUint32) && as(result0.Slot, *wirepath.WirePath_MapKeyUint32).MapKeyUint32 == intVal(slotText(s, 6))
  ensures fixed32: result1 == nil && other && k == "fixed32" ==> inUint(slotText(s, 6), 32) && is(result0.Slot, *wirepath.WirePath_MapKeyFixed32) && as(result0.Slot, *wirepath.WirePath_MapKeyFixed32).MapKeyFixed32 == intVal(slotText(s, 6))
  ensures uint64: result1 == nil && other && k == "uint64" ==> inUint(slotText(s, 6), 64) && is(result0.Slot, *wirepath.WirePath_MapKeyUint64) && as(result0.Slot, *wirepath.WirePath_MapKeyUint64).MapKeyUint64 == intVal(slotText(s, 6))
  ensures fixed64: result1 == nil && other && k == "fixed64" ==> inUint(slotText(s, 6), 64) && is(result0.Slot, *wirepath.WirePath_MapKeyFixed64) && as(result0.Slot, *wirepath.WirePath_MapKeyFixed64).MapKeyFixed64 == intVal(slotText(s, 6))
  ensures bool: result1 == nil && other && k == "bool" ==> (slotText(s, 6) == "0" || slotText(s, 6) == "1") && is(result0.Slot, *wirepath.WirePath_MapKeyBool) && (as(result0.Slot, *wirepath.WirePath_MapKeyBool).MapKeyBool <==> slotText(s, 6) == "1")
  ensures unknown: other && k != "int32" && k != "sint32" && k != "sfixed32" && k != "int64" && k != "sint64" && k != "sfixed64" && k != "uint32" && k != "fixed32" && k != "uint64" && k != "fixed64" && k != "bool" ==> result1 != nil
  ghostset peText[peCount] := s
  ghostset peOut[peCount] := result0
  ghostset peErr[peCount] := result1
  ghostset peElement[peCount] := result0.Element
  ghostset peName[peCount] := result0.FieldName
  ghostset peSlot[peCount] := result0.Slot
  ghostset peCount := peCount + 1

# Whether a text is a string literal, and what it denotes: each element of the
# literal is a character, a hex or octal escape or an escaped character.
logic bodyOK(u string) bool
logic bodyVal(u string) string
pred elemG(u string, g int) string = reGroup(protobufStringElemRegexp, u, g)
pred escaped(c string) string = ite(c == "a", "\a", ite(c == "b", "\b", ite(c == "f", "\f", ite(c == "n", "\n", ite(c == "r", "\r", ite(c == "t", "\t", ite(c == "v", "\v", c)))))))
pred escapable(c string) bool = c == "a" || c == "b" || c == "f" || c == "n" || c == "r" || c == "t" || c == "v" || c == "\\" || c == "'" || c == "\""
pred elemOK(u string) bool = reMatch(protobufStringElemRegexp, u) && (elemG(u, 4) != "" || elemG(u, 1) != "" && radixOK(elemG(u, 1), 16, 8) || elemG(u, 1) == "" && elemG(u, 2) != "" && radixOK(elemG(u, 2), 8, 8) || elemG(u, 1) == "" && elemG(u, 2) == "")
pred elemVal(u string) string = ite(elemG(u, 4) != "", elemG(u, 4), ite(elemG(u, 1) != "", strfrom(radixVal(elemG(u, 1), 16)), ite(elemG(u, 2) != "", strfrom(radixVal(elemG(u, 2), 8)), escaped(elemG(u, 3)))))
pred elemRest(u string) string = u[len(elemG(u, 0)):]
axiom body-end: bodyOK("") && bodyVal("") == ""
axiom body-elem: forall u string :: {bodyOK(u)} u != "" ==> (bodyOK(u) <==> elemOK(u) && bodyOK(elemRest(u)))
axiom body-value: forall u string :: {bodyVal(u)} u != "" && bodyOK(u) ==> bodyVal(u) == elemVal(u) + bodyVal(elemRest(u))
# The escaped character is one that may be escaped.
axiom escape: forall u string :: {elemG(u, 3)} elemG(u, 3) == "" || escapable(elemG(u, 3))
axiom one: forall u string :: {elemG(u, 3)} reMatch(protobufStringElemRegexp, u) ==> elemG(u, 1) != "" || elemG(u, 2) != "" || elemG(u, 3) != "" || elemG(u, 4) != ""
pred psOK(s string) bool = hasPrefix(s, "\"") && hasSuffix(s, "\"") && len(s) >= 2 && bodyOK(s[1:len(s)-1])
pred psVal(s string) string = bodyVal(s[1:len(s)-1])
func parseProtobufStringLiteral
  properties W01
  requires reGroups(protobufStringElemRegexp) == 4
  ensures result1 == nil <==> psOK(literal)
  ensures result1 == nil ==> result0 == psVal(literal)
  let body = literal[1:len(literal)-1]
  loop 1 invariant bodyOK(body) <==> bodyOK(unparsed)
  loop 1 invariant bodyOK(body) ==> bodyVal(body) == string(deref(out)) + bodyVal(unparsed)
  loop 1 invariant out != nil && fresh(out)

func FromProto
  properties W01 W02
  ensures result1 == nil && result0 != nil && fresh(result0) && result0.proto == proto

func ParseString
  properties W01
  requires reGroups(parseRegexp) == 7 && reGroups(protobufStringElemRegexp) == 4
  modifies neCount, neText, nePart, neRest, neErr, peCount, peText, peOut, peErr, peElement, peName, peSlot
  let n = neCount
  let m = peCount
  let text = strings.TrimSpace(wirePathLiteral)
  ensures empty: text == "" ==> result0 == nil && result1 == nil
  ensures pairs: peCount - m <= neCount - n && neCount - n <= peCount - m + 1
  ensures first: text != "" ==> neCount > n && neText[n] == text
  ensures texts: forall i int :: {neText[n+i]} 0 < i && i < neCount - n ==> neText[n+i] == neRest[n+i-1]
  ensures parts: forall i int :: {peText[m+i]} 0 <= i && i < peCount - m ==> peText[m+i] == nePart[n+i]
  ensures badcut: neCount > n && neErr[neCount-1] != nil ==> result1 != nil
  ensures badelement: peCount > m && peErr[peCount-1] != nil ==> result1 != nil
  ensures all: result1 == nil && text != "" ==> neCount - n == peCount - m && neRest[neCount-1] == ""
  ensures good: result1 == nil ==> (forall i int :: {peErr[m+i]} 0 <= i && i < peCount - m ==> peErr[m+i] == nil && neErr[n+i] == nil)
  ensures top: result1 == nil && text != "" ==> result0 != nil && result0.proto == peOut[m]
  ensures chain: result1 == nil ==> (forall i int :: {peOut[m+i]} 0 <= i && i < peCount - m - 1 ==> peOut[m+i].Child == peOut[m+i+1])
  ensures last: result1 == nil && text != "" ==> peOut[peCount-1].Child == nil
  ensures kept: result1 == nil ==> (forall i int :: {peOut[m+i]} 0 <= i && i < peCount - m ==> same(peOut[m+i].Element, peElement[m+i]) && peOut[m+i].FieldName == peName[m+i] && same(peOut[m+i].Slot, peSlot[m+i]))
  loop 1 invariant neCount - n == peCount - m && neCount >= n
  loop 1 invariant neCount == n ==> rest == text
  loop 1 invariant neCount > n ==> neText[n] == text && rest == neRest[neCount-1]
  loop 1 invariant forall i int :: {neText[n+i]} 0 < i && i < neCount - n ==> neText[n+i] == neRest[n+i-1]
  loop 1 invariant forall i int :: {peText[m+i]} 0 <= i && i < peCount - m ==> peText[m+i] == nePart[n+i]
  loop 1 invariant forall i int :: {peErr[m+i]} 0 <= i && i < peCount - m ==> peErr[m+i] == nil && neErr[n+i] == nil
  loop 1 invariant (parent == nil) <==> peCount == m
  loop 1 invariant peCount > m ==> parent == peOut[peCount-1] && topLevel == peOut[m] && parent.Child == nil
  loop 1 invariant forall i int :: {peOut[m+i]} 0 <= i && i < peCount - m ==> peOut[m+i] != nil && fresh(peOut[m+i])
  loop 1 invariant forall i int, j int :: {peOut[m+i], peOut[m+j]} 0 <= i && i < j && j < peCount - m ==> peOut[m+i] != peOut[m+j]
  loop 1 invariant forall i int :: {peOut[m+i]} 0 <= i && i < peCount - m - 1 ==> peOut[m+i].Child == peOut[m+i+1]
  loop 1 invariant forall i int :: {peOut[m+i]} 0 <= i && i < peCount - m ==> same(peOut[m+i].Element, peElement[m+i]) && peOut[m+i].FieldName == peName[m+i] && same(peOut[m+i].Slot, peSlot[m+i])

# ---- W02: values of paths ------------------------------------------------
#
# The environment: what protobuf reflection offers. Messages do not change
# during a call; the functions below are determined by their arguments.
logic mapKeyKind(m protoreflect.Map) protoreflect.Kind
pred keyFits(k any, kind protoreflect.Kind) bool =
     (kind == protoreflect.StringKind ==> is(k, string))
  && (kind == protoreflect.BoolKind ==> is(k, bool))
  && (kind == protoreflect.Int32Kind || kind == protoreflect.Sint32Kind || kind == protoreflect.Sfixed32Kind ==> is(k, int32))
  && (kind == protoreflect.Int64Kind || kind == protoreflect.Sint64Kind || kind == protoreflect.Sfixed64Kind ==> is(k, int64))
  && (kind == protoreflect.Uint32Kind || kind == protoreflect.Fixed32Kind ==> is(k, uint32))
  && (kind == protoreflect.Uint64Kind || kind == protoreflect.Fixed64Kind ==> is(k, uint64))
pred isKeyType(k any) bool = is(k, string) || is(k, bool) || is(k, int32) || is(k, int64) || is(k, uint32) || is(k, uint64)

iface (google.golang.org/protobuf/reflect/protoreflect.ProtoMessage).ProtoReflect
  pureuf
  ensures result != nil
iface (google.golang.org/protobuf/reflect/protoreflect.Message).Descriptor
  pureuf
  ensures result != nil
iface (google.golang.org/protobuf/reflect/protoreflect.Message).Interface
  pureuf
  ensures result != nil
iface (google.golang.org/protobuf/reflect/protoreflect.Message).Get
  pureuf
  params fd
  requires described: fd != nil
  ensures is(result.Interface(), protoreflect.Map) ==> fd.MapKey() != nil && mapKeyKind(as(result.Interface(), protoreflect.Map)) == fd.MapKey().Kind()
iface (google.golang.org/protobuf/reflect/protoreflect.Message).NewField
  pureuf
  params fd
  requires described: fd != nil
  ensures is(result.Interface(), protoreflect.Map) ==> fd.MapKey() != nil && mapKeyKind(as(result.Interface(), protoreflect.Map)) == fd.MapKey().Kind()
iface (google.golang.org/protobuf/reflect/protoreflect.MessageDescriptor).Fields
  pureuf
  ensures result != nil
iface (google.golang.org/protobuf/reflect/protoreflect.FieldDescriptors).ByNumber
  pureuf
  params n
iface (google.golang.org/protobuf/reflect/protoreflect.FieldDescriptor).MapKey
  pureuf
iface (google.golang.org/protobuf/reflect/protoreflect.FieldDescriptor).Kind
  pureuf
iface (google.golang.org/protobuf/reflect/protoreflect.Descriptor).FullName
  pureuf
iface (google.golang.org/protobuf/reflect/protoreflect.Descriptor).Name
  pureuf
iface (google.golang.org/protobuf/reflect/protoreflect.List).Len
  pureuf
  ensures 0 <= result
iface (google.golang.org/protobuf/reflect/protoreflect.List).Get
  pureuf
  params i
  requires inrange: 0 <= i && i < self.Len()
iface (google.golang.org/protobuf/reflect/protoreflect.List).NewElement
  pureuf
iface (google.golang.org/protobuf/reflect/protoreflect.Map).Get
  pureuf
  params k
  requires keykind: isKeyType(k.Interface()) && keyFits(k.Interface(), mapKeyKind(self))
iface (google.golang.org/protobuf/reflect/protoreflect.Map).NewValue
  pureuf
extern google.golang.org/protobuf/reflect/protoreflect.ValueOfMessage
  pureuf
  params m
  ensures same(result.Interface(), m)
extern google.golang.org/protobuf/reflect/protoreflect.ValueOf
  pureuf
  params v
  ensures isKeyType(v) ==> same(result.Interface(), v)
extern (google.golang.org/protobuf/reflect/protoreflect.Value).Interface
  pureuf
extern (google.golang.org/protobuf/reflect/protoreflect.Value).IsValid
  pureuf
  params v
  ensures result <==> v.Interface() != nil
extern (google.golang.org/protobuf/reflect/protoreflect.Value).Map
  pureuf
  params v
  requires ismap: is(v.Interface(), protoreflect.Map)
  ensures same(result, as(v.Interface(), protoreflect.Map))
extern (google.golang.org/protobuf/reflect/protoreflect.Value).MapKey
  pureuf
  params v
  requires iskey: isKeyType(v.Interface())
  ensures same(result.Interface(), v.Interface())
extern (google.golang.org/protobuf/reflect/protoreflect.MapKey).Interface
  pureuf
extern (google.golang.org/protobuf/reflect/protoreflect.MapKey).IsValid
  pureuf
  params k
  ensures result <==> k.Interface() != nil
extern (google.golang.org/protobuf/reflect/protoreflect.Kind).String
  pureuf
axiom key-value: forall v protoreflect.Value :: {protoreflect.MapKey(v).Interface()} same(protoreflect.MapKey(v).Interface(), v.Interface())
axiom no-key: zero(protoreflect.MapKey).Interface() == nil

# Accessors of paths: paths do not change.
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetElement
  pureuf
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetSpecialPath
  pureuf
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetFieldNumber
  pureuf
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetFieldName
  pureuf
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetChild
  pureuf
extern (*github.com/google/xtoproto/proto/wirepath.WirePath).GetSlot
  pureuf
extern google.golang.org/protobuf/proto.Clone
  params m
  ensures tag(result) == tag(m)
  ensures is(m, *wirepath.WirePath) ==> as(result, *wirepath.WirePath) != nil && fresh(as(result, *wirepath.WirePath))

# The oneof wrappers of a path are not nil pointers.
pred slotsOK() bool = forall p *wirepath.WirePath :: {p.GetSlot()}
     (is(p.GetSlot(), *wirepath.WirePath_RepeatedFieldOffset) ==> as(p.GetSlot(), *wirepath.WirePath_RepeatedFieldOffset) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyString) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyString) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyInt32) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyInt32) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyInt64) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyInt64) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyUint32) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyUint32) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyUint64) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyUint64) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeySint32) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeySint32) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeySint64) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeySint64) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed32) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyFixed32) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed64) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyFixed64) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed32) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeySfixed32) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed64) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeySfixed64) != nil)
  && (is(p.GetSlot(), *wirepath.WirePath_MapKeyBool) ==> as(p.GetSlot(), *wirepath.WirePath_MapKeyBool) != nil)

# The key and the kind of key that the slot of an element names.
pred keyKind(p *wirepath.WirePath) protoreflect.Kind =
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyString), protoreflect.StringKind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyInt32), protoreflect.Int32Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyInt64), protoreflect.Int64Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyUint32), protoreflect.Uint32Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyUint64), protoreflect.Uint64Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySint32), protoreflect.Sint32Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySint64), protoreflect.Sint64Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed32), protoreflect.Fixed32Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed64), protoreflect.Fixed64Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed32), protoreflect.Sfixed32Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed64), protoreflect.Sfixed64Kind,
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyBool), protoreflect.BoolKind, protoreflect.Kind(0)))))))))))))
pred keyGo(p *wirepath.WirePath) any =
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyString), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyString).MapKeyString),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyInt32), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyInt32).MapKeyInt32),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyInt64), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyInt64).MapKeyInt64),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyUint32), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyUint32).MapKeyUint32),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyUint64), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyUint64).MapKeyUint64),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySint32), any(as(p.GetSlot(), *wirepath.WirePath_MapKeySint32).MapKeySint32),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySint64), any(as(p.GetSlot(), *wirepath.WirePath_MapKeySint64).MapKeySint64),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed32), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyFixed32).MapKeyFixed32),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyFixed64), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyFixed64).MapKeyFixed64),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed32), any(as(p.GetSlot(), *wirepath.WirePath_MapKeySfixed32).MapKeySfixed32),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeySfixed64), any(as(p.GetSlot(), *wirepath.WirePath_MapKeySfixed64).MapKeySfixed64),
  ite(is(p.GetSlot(), *wirepath.WirePath_MapKeyBool), any(as(p.GetSlot(), *wirepath.WirePath_MapKeyBool).MapKeyBool), any(nil)))))))))))))

func extractSlotMapKeyKind
  properties W02
  ensures result == keyKind(proto)
func slotMapKeyValue
  properties W02
  requires p != nil && slotsOK()
  ensures kind: keyKind(p.proto) != 0 ==> same(result.Interface(), keyGo(p.proto))
  ensures none: keyKind(p.proto) == 0 ==> result.Interface() == nil

# What one element of a path denotes at a message.
pred selfStep(p *wirepath.WirePath) bool = p.GetElement() == nil || p.GetSpecialPath() == wirepath.WirePath_SELF
pred fieldAt(p *wirepath.WirePath, w proto.Message) protoreflect.FieldDescriptor = w.ProtoReflect().Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.GetFieldNumber()))
pred baseOK(p *wirepath.WirePath, w proto.Message) bool = selfStep(p) || fieldAt(p, w) != nil
pred baseVal(p *wirepath.WirePath, w proto.Message) protoreflect.Value = ite(selfStep(p), protoreflect.ValueOfMessage(w.ProtoReflect()), w.ProtoReflect().Get(fieldAt(p, w)))
pred isIndex(p *wirepath.WirePath) bool = is(p.GetSlot(), *wirepath.WirePath_RepeatedFieldOffset)
pred indexOfSlot(p *wirepath.WirePath) int = as(p.GetSlot(), *wirepath.WirePath_RepeatedFieldOffset).RepeatedFieldOffset
pred indexOK(p *wirepath.WirePath, b any) bool = is(b, protoreflect.List) && 0 <= indexOfSlot(p) && indexOfSlot(p) < as(b, protoreflect.List).Len()
pred keyOK(p *wirepath.WirePath, w proto.Message) bool = keyKind(p) != 0 && !selfStep(p) && is(baseVal(p, w).Interface(), protoreflect.Map) && fieldAt(p, w).MapKey().Kind() == keyKind(p)
pred stepOK(p *wirepath.WirePath, w proto.Message) bool = baseOK(p, w) && (p.GetSlot() == nil || isIndex(p) && indexOK(p, baseVal(p, w).Interface()) || keyOK(p, w))
pred entryOf(b any, k protoreflect.MapKey) protoreflect.Value = as(b, protoreflect.Map).Get(k)
logic stepVal(p *wirepath.WirePath, w proto.Message) protoreflect.Value
pred stepDef(p *wirepath.WirePath, w proto.Message, v protoreflect.Value) bool =
     (p.GetSlot() == nil ==> same(v, baseVal(p, w)))
  && (isIndex(p) ==> same(v, as(baseVal(p, w).Interface(), protoreflect.List).Get(indexOfSlot(p))))
  && (keyKind(p) != 0 ==> (forall k protoreflect.MapKey :: {as(baseVal(p, w).Interface(), protoreflect.Map).Get(k)} same(k.Interface(), keyGo(p)) ==> same(v, as(baseVal(p, w).Interface(), protoreflect.Map).Get(k))))

# reaches(p, w, v): following p from w gives v; fails(p, w): it gives nothing.
logic reaches(p *wirepath.WirePath, w proto.Message, v protoreflect.Value) bool
logic fails(p *wirepath.WirePath, w proto.Message) bool
pred steps() bool = forall p *wirepath.WirePath, w proto.Message :: {stepVal(p, w)} stepOK(p, w) ==> stepDef(p, w, stepVal(p, w))
pred below(p *wirepath.WirePath, w proto.Message) any = stepVal(p, w).Interface()
pred reachRules() bool =
     (forall w proto.Message, v protoreflect.Value :: {reaches(nil, w, v)} same(v, protoreflect.ValueOfMessage(w.ProtoReflect())) ==> reaches(nil, w, v))
  && (forall p *wirepath.WirePath, w proto.Message, v protoreflect.Value :: {reaches(p, w, v)} p != nil && stepOK(p, w) && p.GetChild() == nil && same(v, stepVal(p, w)) ==> reaches(p, w, v))
  && (forall p *wirepath.WirePath, w proto.Message, v protoreflect.Value :: {reaches(p, w, v)} p != nil && stepOK(p, w) && p.GetChild() != nil && is(below(p, w), protoreflect.Message) && reaches(p.GetChild(), as(below(p, w), protoreflect.Message).Interface(), v) ==> reaches(p, w, v))
pred failRules() bool =
     (forall p *wirepath.WirePath, w proto.Message :: {fails(p, w)} p != nil && !stepOK(p, w) ==> fails(p, w))
  && (forall p *wirepath.WirePath, w proto.Message :: {fails(p, w)} p != nil && stepOK(p, w) && p.GetChild() != nil && !is(below(p, w), protoreflect.Message) ==> fails(p, w))
  && (forall p *wirepath.WirePath, w proto.Message :: {fails(p, w)} p != nil && stepOK(p, w) && p.GetChild() != nil && is(below(p, w), protoreflect.Message) && fails(p.GetChild(), as(below(p, w), protoreflect.Message).Interface()) ==> fails(p, w))

func getValue
  properties W02
  requires ctx != nil && ctx.withinValue != nil && slotsOK() && steps() && reachRules() && failRules()
  let p = ite(ctx.path == nil, nil, ctx.path.proto)
  ensures value: err == nil ==> reaches(p, ctx.withinValue, result0)
  ensures error: err != nil ==> fails(p, ctx.withinValue)
func GetValue
  properties W02
  requires within != nil && slotsOK() && steps() && reachRules() && failRules()
  let q = ite(p == nil, nil, p.proto)
  ensures value: err == nil ==> reaches(q, within, result0)
  ensures error: err != nil ==> fails(q, within)
func (*getValueContext).string
  properties W02
  trusted walks to the root context, whose message is the one given to GetValue
  requires c != nil && slotsOK()
func debugString
  properties W02
  requires slotsOK()
func extractPrettyPathElem
  properties W02
  requires slotsOK()
  ensures result0 != nil
func (*WirePath).child
  properties W02
  requires p != nil
  ensures (result == nil) <==> p.proto.GetChild() == nil
  ensures result != nil ==> fresh(result) && result.proto == p.proto.GetChild()
func (*WirePath).withoutChild
  properties W02
  requires p != nil && p.proto != nil
  ensures result != nil && fresh(result)
