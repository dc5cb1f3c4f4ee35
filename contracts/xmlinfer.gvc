package xmlinfer

# Counts of example values, and of how often an element occurs in its parents.
func (*attrFieldCandidate).recordExampleValue
  properties M01
  params ac s
  requires ac != nil && ac.sampleValueCounts != nil && ac.sampleValueCounts[s] < 9223372036854775807
  modifies entries(ac.sampleValueCounts)
  ensures counted: ac.sampleValueCounts[s] == old(ac.sampleValueCounts[s]) + 1
  ensures others: forall k string :: {ac.sampleValueCounts[k]} k != s ==> ac.sampleValueCounts[k] == old(ac.sampleValueCounts[k]) && (has(ac.sampleValueCounts, k) <==> old(has(ac.sampleValueCounts, k)))
func (*chardataFieldCandidate).recordExampleValue
  properties M01
  params cdf s
  requires cdf != nil && cdf.sampleValueCounts != nil && cdf.sampleValueCounts[s] < 9223372036854775807
  modifies entries(cdf.sampleValueCounts)
  ensures counted: cdf.sampleValueCounts[s] == old(cdf.sampleValueCounts[s]) + 1
  ensures others: forall k string :: {cdf.sampleValueCounts[k]} k != s ==> cdf.sampleValueCounts[k] == old(cdf.sampleValueCounts[k]) && (has(cdf.sampleValueCounts, k) <==> old(has(cdf.sampleValueCounts, k)))
func (*elementFieldCandidate).recordCardinality
  properties M01
  params ef c
  requires ef != nil && ef.cardinalityCounts != nil && ef.cardinalityCounts[c] < 9223372036854775807
  modifies entries(ef.cardinalityCounts)
  ensures counted: ef.cardinalityCounts[c] == old(ef.cardinalityCounts[c]) + 1
  ensures others: forall k int :: {ef.cardinalityCounts[k]} k != c ==> ef.cardinalityCounts[k] == old(ef.cardinalityCounts[k]) && (has(ef.cardinalityCounts, k) <==> old(has(ef.cardinalityCounts, k)))
func newAttrFieldCandidate
  properties M01
  params n
  ensures result != nil && fresh(result) && result.name == n && result.sampleValueCounts != nil && fresh(result.sampleValueCounts) && len(result.sampleValueCounts) == 0
func newChardataFieldCandidate
  properties M01
  ensures result != nil && fresh(result) && result.sampleValueCounts != nil && fresh(result.sampleValueCounts) && len(result.sampleValueCounts) == 0

# An element is repeated when some parent contains it more than once.
func (*elementFieldCandidate).inferIsRepeated
  properties M01
  params ef
  requires ef != nil
  ensures more-than-one: result <==> exists c int :: has(ef.cardinalityCounts, c) && c > 1 && ef.cardinalityCounts[c] > 0
  loop 1 invariant forall c int :: {visited(c)} visited(c) ==> !(c > 1 && ef.cardinalityCounts[c] > 0)

# The fields of a message have different names and the candidates of an element
# are those with its name.
func (*structCandidate).getElement
  properties M01
  params sc name
  requires sc != nil && (forall k int :: {sc.elemFields[k]} 0 <= k && k < len(sc.elemFields) ==> sc.elemFields[k] != nil && sc.elemFields[k].sc != nil)
  ensures none: result == nil ==> forall k int :: {sc.elemFields[k]} 0 <= k && k < len(sc.elemFields) ==> sc.elemFields[k].sc.name != name
  ensures found: result != nil ==> result.sc.name == name && exists k int :: 0 <= k && k < len(sc.elemFields) && sc.elemFields[k] == result
  loop 1 invariant forall k int :: {sc.elemFields[k]} 0 <= k && k < $i ==> sc.elemFields[k].sc.name != name
func (*structCandidate).getAttr
  properties M01
  params sc name
  requires sc != nil && (forall k int :: {sc.attrFields[k]} 0 <= k && k < len(sc.attrFields) ==> sc.attrFields[k] != nil)
  ensures none: result == nil ==> forall k int :: {sc.attrFields[k]} 0 <= k && k < len(sc.attrFields) ==> sc.attrFields[k].name != name
  ensures found: result != nil ==> result.name == name && exists k int :: 0 <= k && k < len(sc.attrFields) && sc.attrFields[k] == result
  loop 1 invariant forall k int :: {sc.attrFields[k]} 0 <= k && k < $i ==> sc.attrFields[k].name != name

# The type of example values.
logic passes(f zzPred, s string) bool
fnval func(string) bool
  params s
  ensures result <==> passes(self, s)
func allStringsPass
  properties M01
  params strs pred
  requires pred != nil
  ensures result <==> forall k int :: {strs[k]} 0 <= k && k < len(strs) ==> passes(pred, strs[k])
  loop 1 invariant forall k int :: {strs[k]} 0 <= k && k < $i ==> passes(pred, strs[k])
extern github.com/jhump/protoreflect/desc/builder.FieldTypeInt64
  pureuf
extern github.com/jhump/protoreflect/desc/builder.FieldTypeDouble
  pureuf
extern github.com/jhump/protoreflect/desc/builder.FieldTypeString
  pureuf
logic typeFrom(f zzType) *builder.FieldType
axiom type-int: typeFrom(builder.FieldTypeInt64) == builder.FieldTypeInt64()
axiom type-double: typeFrom(builder.FieldTypeDouble) == builder.FieldTypeDouble()
axiom type-string: typeFrom(builder.FieldTypeString) == builder.FieldTypeString()
fnval func() *builder.FieldType
  ensures result == typeFrom(self)
func inferFieldTypeFromExampleStrings
  properties M01
  params exampleCounts
  requires len(exampleCounts) <= 2147483647 && forall s string :: {has(exampleCounts, s)} has(exampleCounts, s) ==> exampleCounts[s] > 0 && exampleCounts[s] <= 2147483647
  let ints = forall s string :: {has(exampleCounts, s)} has(exampleCounts, s) ==> inInt(s, 64)
  let numbers = forall s string :: {has(exampleCounts, s)} has(exampleCounts, s) ==> floatOK(s, 64)
  ensures total: result1 == nil
  ensures none: len(exampleCounts) == 0 ==> result0 == builder.FieldTypeString()
  ensures ints: len(exampleCounts) > 0 && ints ==> result0 == builder.FieldTypeInt64()
  ensures numbers: len(exampleCounts) > 0 && !ints && numbers ==> result0 == builder.FieldTypeDouble()
  ensures text: !ints && !numbers ==> result0 == builder.FieldTypeString()
  loop 1 invariant forall s string :: {visited(s)} visited(s) ==> exists k int :: 0 <= k && k < len(examples) && examples[k] == s
  loop 1 invariant forall k int :: {examples[k]} 0 <= k && k < len(examples) ==> has(exampleCounts, examples[k])
  loop 1 invariant len(examples) == visits() && len(examples) <= total && total <= 2147483647 * len(examples)
  loop 2 invariant $i <= 2
  loop 2 invariant $i >= 1 ==> !ints
  loop 2 invariant $i >= 2 ==> !numbers
func inferFieldTypeFromExampleStrings$1
  properties M01
  params s
  ensures result <==> inInt(s, 64)
  defines forall v string :: {passes(self, v)} passes(self, v) <==> inInt(v, 64)
func inferFieldTypeFromExampleStrings$2
  properties M01
  params s
  ensures result <==> floatOK(s, 64)
  defines forall v string :: {passes(self, v)} passes(self, v) <==> floatOK(v, 64)
func inferFieldTypeFromExampleStrings$3
  properties M01
  params s
  ensures result
  defines forall v string :: {passes(self, v)} passes(self, v)
