package textcoder

# What the strconv functions decide: whether a text is a decimal integer, its
# value, whether it is a floating point number of a size, and its value.
logic intOK(s string) bool
logic uintOK(s string) bool
logic intVal(s string) int
logic radixOK(s string, base int, bits int) bool
logic radixVal(s string, base int) int
logic sradixOK(s string, base int, bits int) bool  ## the same with an optional sign
logic sradixVal(s string, base int) int
logic floatOK(s string, bits int) bool
logic floatVal(s string, bits int) float64
pred intMax(bits int) int = ite(bits == 8, 127, ite(bits == 16, 32767, ite(bits == 32, 2147483647, 9223372036854775807)))
pred uintMax(bits int) int = ite(bits == 8, 255, ite(bits == 16, 65535, ite(bits == 32, 4294967295, 18446744073709551615)))
pred inInt(s string, bits int) = intOK(s) && 0 - intMax(bits) - 1 <= intVal(s) && intVal(s) <= intMax(bits)
pred inUint(s string, bits int) = uintOK(s) && 0 <= intVal(s) && intVal(s) <= uintMax(bits)

# Equal for ==, or the same value (which includes NaN).
pred sameNumber(a float64, b float64) = a == b || same(a, b)

extern strconv.ParseInt
  pureuf
  params s base bitSize
  ensures base == 10 && (bitSize == 0 || bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64) ==> (result1 == nil <==> inInt(s, bitSize))
  ensures base == 10 && result1 == nil ==> result0 == intVal(s)
  ensures base != 10 ==> (result1 == nil <==> sradixOK(s, base, bitSize))
  ensures base != 10 && result1 == nil ==> result0 == sradixVal(s, base)
extern strconv.Atoi
  pureuf
  params s
  ensures result1 == nil <==> inInt(s, 64)
  ensures result1 == nil ==> result0 == intVal(s)
extern strconv.ParseUint
  pureuf
  params s base bitSize
  ensures base == 10 && (bitSize == 0 || bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64) ==> (result1 == nil <==> inUint(s, bitSize))
  ensures base == 10 && result1 == nil ==> result0 == intVal(s)
  ensures base != 10 ==> (result1 == nil <==> radixOK(s, base, bitSize))
  ensures base != 10 && result1 == nil ==> result0 == radixVal(s, base)
  ensures result1 == nil && bitSize == 8 ==> result0 <= 255
extern strconv.Itoa
  pureuf
  params i
  ensures inInt(result, 64) && intVal(result) == i
  ensures i >= 0 ==> uintOK(result)
extern strconv.FormatInt
  pureuf
  params i base
  ensures base == 10 ==> intOK(result) && intVal(result) == i
extern strconv.FormatUint
  pureuf
  params i base
  ensures base == 10 ==> uintOK(result) && intOK(result) && intVal(result) == i
extern strconv.ParseFloat
  pureuf
  params s bitSize
  ensures bitSize == 32 || bitSize == 64 ==> (result1 == nil <==> floatOK(s, bitSize))
  ensures result1 == nil ==> same(result0, floatVal(s, bitSize))
  ensures bitSize == 32 ==> same(float32(floatVal(s, 32)), floatVal(s, 32))
extern strconv.FormatFloat
  pureuf
  params f fmt prec bitSize
  ensures (fmt == 'g' || fmt == 'e' || fmt == 'f') && prec == 0 - 1 && bitSize == 64 ==> floatOK(result, 64) && same(floatVal(result, 64), f)
  ensures (fmt == 'g' || fmt == 'e' || fmt == 'f') && prec == 0 - 1 && bitSize == 32 ==> floatOK(result, 32) && same(float32(floatVal(result, 32)), float32(f))
axiom decimal: forall i int :: {strconv.Itoa(i)} intOK(strconv.Itoa(i)) && intVal(strconv.Itoa(i)) == i && (i >= 0 ==> uintOK(strconv.Itoa(i)))
pred goQuoted(s string) string = strconv.Quote(s)
pred decimal(i int) string = strconv.Itoa(i)
axiom lower-true: strings.ToLower("true") == "true"
axiom lower-false: strings.ToLower("false") == "false"

func RegisterBasicTypes$[func(string, *int) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inInt(s, 64)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *int8) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inInt(s, 8)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *int16) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inInt(s, 16)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *int32) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inInt(s, 32)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *int64) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inInt(s, 64)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *uint) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inUint(s, 64)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *uint8) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inUint(s, 8)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *uint16) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inUint(s, 16)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *uint32) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inUint(s, 32)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *uint64) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> inUint(s, 64)
  ensures result == nil ==> *dst == intVal(s)
func RegisterBasicTypes$[func(string, *float64) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> floatOK(s, 64)
  ensures result == nil ==> same(*dst, floatVal(s, 64))
func RegisterBasicTypes$[func(string, *float32) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil <==> floatOK(s, 32)
  ensures result == nil ==> same(*dst, float32(floatVal(s, 32)))
func RegisterBasicTypes$[func(string, *string) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures result == nil && *dst == s
pred trueWord(w string) = w == "true" || w == "1" || w == "on" || w == "yes"
pred falseWord(w string) = w == "false" || w == "0" || w == "off" || w == "no"
func RegisterBasicTypes$[func(string, *bool) error]
  properties X02
  params s dst
  requires dst != nil
  modifies *dst
  ensures known: result == nil <==> trueWord(strings.ToLower(s)) || falseWord(strings.ToLower(s))
  ensures value: result == nil ==> (*dst <==> trueWord(strings.ToLower(s)))
  ensures true: s == "true" ==> result == nil && *dst
  ensures false: s == "false" ==> result == nil && !*dst

func RegisterBasicTypes$[func(int) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inInt(result0, 64) && intVal(result0) == v
func RegisterBasicTypes$[func(int8) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inInt(result0, 8) && intVal(result0) == v
func RegisterBasicTypes$[func(int16) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inInt(result0, 16) && intVal(result0) == v
func RegisterBasicTypes$[func(int32) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inInt(result0, 32) && intVal(result0) == v
func RegisterBasicTypes$[func(int64) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inInt(result0, 64) && intVal(result0) == v
func RegisterBasicTypes$[func(uint) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inUint(result0, 64) && intVal(result0) == v
func RegisterBasicTypes$[func(uint8) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inUint(result0, 8) && intVal(result0) == v
func RegisterBasicTypes$[func(uint16) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inUint(result0, 16) && intVal(result0) == v
func RegisterBasicTypes$[func(uint32) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inUint(result0, 32) && intVal(result0) == v
func RegisterBasicTypes$[func(uint64) (string, error)]
  properties X02
  params v
  ensures result1 == nil && inUint(result0, 64) && intVal(result0) == v
func RegisterBasicTypes$[func(float64) (string, error)]
  properties X02
  params v
  ensures result1 == nil && floatOK(result0, 64) && sameNumber(floatVal(result0, 64), v)
func RegisterBasicTypes$[func(float32) (string, error)]
  properties X02
  params v
  ensures result1 == nil && floatOK(result0, 32) && sameNumber(float32(floatVal(result0, 32)), v)
func RegisterBasicTypes$[func(string) (string, error)]
  properties X02
  params v
  ensures result1 == nil && result0 == v
func RegisterBasicTypes$[func(bool) (string, error)]
  properties X02
  params v
  ensures result1 == nil && (v ==> result0 == "true") && (!v ==> result0 == "false")

# The registry: one entry per registered type, and entries are not shared.
pred regOK(r *Registry) = r != nil && r.coders != nil
  && (forall t reflect.Type, u reflect.Type :: {r.coders[t], r.coders[u]} has(r.coders, t) && has(r.coders, u) && r.coders[t] != nil && r.coders[t] == r.coders[u] ==> t == u)
pred unmarshals(t reflect.Type) = reflect.PtrTo(t).Implements(textUnmarshalerInterface)
pred marshals(t reflect.Type) = reflect.PtrTo(t).Implements(textMarshalerInterface)
pred explicit(r *Registry, t reflect.Type) *registryEntry = ite(has(r.coders, t), r.coders[t], nil)
pred basicOf(t reflect.Type) reflect.Type = ite(has(typeOfBasicKindMap, t.Kind()), typeOfBasicKindMap[t.Kind()], nil)
pred basicEntry(r *Registry, t reflect.Type) *registryEntry = ite(basicOf(t) == nil, nil, explicit(r, basicOf(t)))
constglobal typeOfBasicKindMap

func NewRegistry
  properties X01
  ensures regOK(result) && fresh(result) && (forall t reflect.Type :: {has(result.coders, t)} !has(result.coders, t))
func (*Registry).GetDecoder
  properties X01
  requires r != nil && t != nil
  ensures explicit: explicit(r, t) != nil ==> result == explicit(r, t)
  ensures methods: explicit(r, t) == nil && unmarshals(t) ==> is(result, *textEncodingCoder)
  ensures basic: explicit(r, t) == nil && !unmarshals(t) && basicEntry(r, t) != nil ==> is(result, *registryEntry) && fresh(as(result, *registryEntry))
  ensures none: explicit(r, t) == nil && !unmarshals(t) && basicEntry(r, t) == nil ==> result == nil
func (*Registry).GetEncoder
  properties X01
  requires r != nil && t != nil
  ensures explicit: explicit(r, t) != nil ==> result == explicit(r, t)
  ensures methods: explicit(r, t) == nil && marshals(t) ==> is(result, *textEncodingCoder)
  ensures basic: explicit(r, t) == nil && !marshals(t) && basicEntry(r, t) != nil ==> is(result, *registryEntry) && fresh(as(result, *registryEntry))
  ensures none: explicit(r, t) == nil && !marshals(t) && basicEntry(r, t) == nil ==> result == nil
func (*Registry).GetCoder
  properties X01
  requires r != nil && t != nil
  ensures explicit: explicit(r, t) != nil ==> result == explicit(r, t)
  ensures methods: explicit(r, t) == nil && marshals(t) && unmarshals(t) ==> is(result, *textEncodingCoder)
  ensures basic: explicit(r, t) == nil && !(marshals(t) && unmarshals(t)) && basicEntry(r, t) != nil ==> is(result, *registryEntry) && fresh(as(result, *registryEntry))
  ensures none: explicit(r, t) == nil && !(marshals(t) && unmarshals(t)) && basicEntry(r, t) == nil ==> result == nil
func checkSignature
  properties X01
  requires f != nil
func createEncoderFn
  properties X01
  requires t != nil
func createDecoderFn
  properties X01
  requires t != nil
func register
  properties X01
  requires regOK(r) && t != nil
  modifies entries(r.coders), r.coders[t].decode, r.coders[t].encode
  ensures ok: regOK(r)
  ensures failed: result != nil ==> (forall u reflect.Type :: {has(r.coders, u)} (has(r.coders, u) <==> old(has(r.coders, u))) && r.coders[u] == old(r.coders[u]))
  ensures entry: result == nil ==> has(r.coders, t) && r.coders[t] != nil
  ensures kept: result == nil && old(explicit(r, t)) != nil ==> r.coders[t] == old(r.coders[t])
  ensures others: forall u reflect.Type :: {has(r.coders, u)} u != t ==> (has(r.coders, u) <==> old(has(r.coders, u))) && r.coders[u] == old(r.coders[u])
  ensures rest: forall u reflect.Type :: {r.coders[u]} u != t && old(has(r.coders, u)) && old(r.coders[u]) != nil ==> r.coders[u].decode == old(r.coders[u].decode) && r.coders[u].encode == old(r.coders[u].encode)
func (*Registry).Register
  properties X01
  requires regOK(r) && t != nil
  modifies entries(r.coders), r.coders[t].decode, r.coders[t].encode
  ensures ok: regOK(r)
  ensures failed: result != nil ==> (forall u reflect.Type :: {has(r.coders, u)} (has(r.coders, u) <==> old(has(r.coders, u))) && r.coders[u] == old(r.coders[u]))
  ensures entry: result == nil ==> has(r.coders, t) && r.coders[t] != nil
  ensures kept: result == nil && old(explicit(r, t)) != nil ==> r.coders[t] == old(r.coders[t])
  ensures others: forall u reflect.Type :: {has(r.coders, u)} u != t ==> (has(r.coders, u) <==> old(has(r.coders, u))) && r.coders[u] == old(r.coders[u])
  ensures rest: forall u reflect.Type :: {r.coders[u]} u != t && old(has(r.coders, u)) && old(r.coders[u]) != nil ==> r.coders[u].decode == old(r.coders[u].decode) && r.coders[u].encode == old(r.coders[u].encode)

# Contexts.
func NewContext
  properties X03
  ensures fresh(result) && result.values != nil && fresh(result.values)
  ensures forall k any :: {has(result.values, k)} has(result.values, k) <==> k == any(registryKey)
func (*Context).Value
  properties X03
  requires c != nil
  ensures result1 <==> has(c.values, key)
  ensures result1 ==> result0 == c.values[key]
func (*Context).WithValue
  properties X03
  requires c != nil
  ensures fresh(result)
  ensures new: has(result.values, key) && result.values[key] == value
  ensures old: forall k any :: {has(result.values, k)} k != key && has(c.values, k) ==> has(result.values, k) && result.values[k] == c.values[k]
  loop 1 invariant n != nil && n.values != nil && fresh(n) && fresh(n.values) && n.values != c.values
  loop 1 invariant forall k any :: {has(n.values, k)} visited(k) && has(c.values, k) ==> has(n.values, k) && n.values[k] == c.values[k]
  loop 1 invariant forall k any :: {has(n.values, k)} has(n.values, k) ==> k == any(registryKey) || has(c.values, k)
  ensures nothing-else: forall k any :: {has(result.values, k)} k != key && k != any(registryKey) && !has(c.values, k) ==> !has(result.values, k)

# What coders are given.
ghost decCount int
ghost decCtx map[int]*Context
ghost decText map[int]string
ghost decDst map[int]any
ghost decBy map[int]Decoder
ghost decErr map[int]error
iface (Decoder).DecodeText
  params ctx text dst
  ghostset decCtx[decCount] := ctx
  ghostset decText[decCount] := text
  ghostset decDst[decCount] := dst
  ghostset decBy[decCount] := self
  ghostset decErr[decCount] := result
  ghostset decCount := decCount + 1
ghost encCount int
ghost encCtx map[int]*Context
ghost encVal map[int]any
ghost encBy map[int]Encoder
ghost encText map[int]string
ghost encErr map[int]error
iface (Encoder).EncodeText
  params ctx value
  ghostset encCtx[encCount] := ctx
  ghostset encVal[encCount] := value
  ghostset encBy[encCount] := self
  ghostset encText[encCount] := result0
  ghostset encErr[encCount] := result1
  ghostset encCount := encCount + 1

func UnmarshalContext
  properties X03 X01
  requires dst != nil && regOK(defaultRegistry)
  modifies decCount, decCtx, decText, decDst, decBy, decErr
  let n = decCount
  let t = reflect.TypeOf(dst).Elem()
  ensures once: decCount == n || decCount == n + 1
  ensures given: decCount == n + 1 ==> decCtx[n] == ctx && decText[n] == value && decDst[n] == dst && result == decErr[n]
  ensures error: decCount == n ==> result != nil
  ensures explicit: decCount == n + 1 && explicit(defaultRegistry, t) != nil ==> decBy[n] == explicit(defaultRegistry, t)
  ensures called: reflect.TypeOf(dst).Kind() == reflect.Ptr && (explicit(defaultRegistry, t) != nil || unmarshals(t) || basicEntry(defaultRegistry, t) != nil) ==> decCount == n + 1
func Unmarshal
  properties X03
  requires dst != nil && regOK(defaultRegistry)
  modifies decCount, decCtx, decText, decDst, decBy, decErr
  let n = decCount
  ensures given: decCount == n + 1 ==> fresh(decCtx[n]) && decText[n] == value && decDst[n] == dst && result == decErr[n]
  ensures error: decCount == n ==> result != nil
func MarshalContext
  properties X03 X01
  requires value != nil && regOK(defaultRegistry)
  modifies encCount, encCtx, encVal, encBy, encText, encErr
  let n = encCount
  let t = reflect.TypeOf(value)
  ensures once: encCount == n || encCount == n + 1
  ensures given: encCount == n + 1 ==> encCtx[n] == ctx && encVal[n] == value && result0 == encText[n] && result1 == encErr[n]
  ensures error: encCount == n ==> result1 != nil
  ensures explicit: encCount == n + 1 && explicit(defaultRegistry, t) != nil ==> encBy[n] == explicit(defaultRegistry, t)
  ensures called: explicit(defaultRegistry, t) != nil || marshals(t) || basicEntry(defaultRegistry, t) != nil ==> encCount == n + 1
func Marshal
  properties X03
  requires value != nil && regOK(defaultRegistry)
  modifies encCount, encCtx, encVal, encBy, encText, encErr
  let n = encCount
  ensures given: encCount == n + 1 ==> fresh(encCtx[n]) && encVal[n] == value && result0 == encText[n] && result1 == encErr[n]
  ensures error: encCount == n ==> result1 != nil

fnval func(*textcoder.Context, string, interface{}) error
  params ctx text dst
  ghostset decCtx[decCount] := ctx
  ghostset decText[decCount] := text
  ghostset decDst[decCount] := dst
  ghostset decErr[decCount] := result
  ghostset decCount := decCount + 1
fnval func(*textcoder.Context, interface{}) (string, error)
  params ctx value
  ghostset encCtx[encCount] := ctx
  ghostset encVal[encCount] := value
  ghostset encText[encCount] := result0
  ghostset encErr[encCount] := result1
  ghostset encCount := encCount + 1
func (*registryEntry).DecodeText
  properties X03
  params cp ctx text dst
  requires cp != nil && cp.decode != nil
  modifies decCount, decCtx, decText, decDst, decErr
  let n = decCount
  ensures decCount == n + 1 && decCtx[n] == ctx && decText[n] == text && decDst[n] == dst && result == decErr[n]
func (*registryEntry).EncodeText
  properties X03
  params cp ctx value
  requires cp != nil && cp.encode != nil
  modifies encCount, encCtx, encVal, encText, encErr
  let n = encCount
  ensures encCount == n + 1 && encCtx[n] == ctx && encVal[n] == value && result0 == encText[n] && result1 == encErr[n]

# Types with text methods of their own.
ghost umCount int
ghost umText map[int]string
ghost umOf map[int]any
ghost umErr map[int]error
iface (encoding.TextUnmarshaler).UnmarshalText
  params text
  ghostset umText[umCount] := string(text)
  ghostset umOf[umCount] := self
  ghostset umErr[umCount] := result
  ghostset umCount := umCount + 1
func (*textEncodingCoder).DecodeText
  properties X01 X03
  params c ctx text dst
  modifies umCount, umText, umOf, umErr
  let n = umCount
  ensures methods: is(dst, encoding.TextUnmarshaler) ==> umCount == n + 1 && umText[n] == text && umOf[n] == dst && result == umErr[n]
  ensures none: !is(dst, encoding.TextUnmarshaler) ==> umCount == n && result != nil
ghost mtCount int
ghost mtOf map[int]any
ghost mtText map[int]string
ghost mtErr map[int]error
iface (encoding.TextMarshaler).MarshalText
  ghostset mtOf[mtCount] := self
  ghostset mtText[mtCount] := string(result0)
  ghostset mtErr[mtCount] := result1
  ghostset mtCount := mtCount + 1
func (*textEncodingCoder).EncodeText
  properties X01 X03
  params c ctx value
  modifies mtCount, mtOf, mtErr, mtText
  let n = mtCount
  ensures methods: is(value, encoding.TextMarshaler) ==> mtCount == n + 1 && mtOf[n] == value && result1 == mtErr[n] && result0 == mtText[n]
  ensures none: !is(value, encoding.TextMarshaler) ==> mtCount == n && result1 != nil
