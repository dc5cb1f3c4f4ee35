# RDF terms and triples, and the N-Triples notation.
package github.com/google/xtoproto/rdf/ntriples

# Terms -----------------------------------------------------------------------------
# A literal is what its three parts say; implementations of the interface are
# taken to answer the same at every call.
iface (Literal).LexicalForm
  pureuf
  ensures is(self, *genericLiteral) ==> result == as(self, *genericLiteral).lexicalForm
iface (Literal).Datatype
  pureuf
  ensures is(self, *genericLiteral) ==> result == as(self, *genericLiteral).datatype
iface (Literal).LanguageTag
  pureuf
  ensures is(self, *genericLiteral) ==> result == as(self, *genericLiteral).langTag

func (*genericLiteral).LexicalForm
  properties N01 N02
  requires gl != nil
  ensures result == gl.lexicalForm
func (*genericLiteral).Datatype
  properties N01 N02
  requires gl != nil
  ensures result == gl.datatype
func (*genericLiteral).LanguageTag
  properties N01 N02
  requires gl != nil
  ensures result == gl.langTag
func NewLiteral
  properties N01 N02
  ensures is(result, *genericLiteral) && as(result, *genericLiteral) != nil && fresh(as(result, *genericLiteral))
  ensures as(result, *genericLiteral).lexicalForm == lexicalForm && as(result, *genericLiteral).datatype == datatype && as(result, *genericLiteral).langTag == langTag

# The kinds. A subject or object holds one thing: what is not a blank node and
# not a literal is an IRI.
pred subjBlank(s *Subject) bool = s.blankNodeID != ""
pred subjOK(s *Subject) bool = s != nil && (s.blankNodeID == "" || s.iri == "")
pred objLiteral(o *Object) bool = o.lit != nil
pred objBlank(o *Object) bool = o.blankNodeID != ""
pred objOK(o *Object) bool = o != nil && (o.lit == nil || o.blankNodeID == "" && o.iri == "") && (o.blankNodeID == "" || o.iri == "")

func NewSubjectIRI
  properties N01 N02
  ensures subjOK(result) && fresh(result) && result.iri == iri && result.blankNodeID == ""
func NewSubjectBlankNodeID
  properties N01 N02
  ensures subjOK(result) && fresh(result) && result.blankNodeID == blankNodeID && result.iri == ""
func (*Subject).IsIRI
  properties N01 N02
  requires s != nil
  ensures result <==> !subjBlank(s)
func (*Subject).IsBlankNode
  properties N01 N02
  requires s != nil
  ensures result <==> subjBlank(s)
func (*Subject).IRI
  properties N01 N02
  requires s != nil
  ensures result == s.iri
func (*Subject).BlankNodeID
  properties N01 N02
  requires s != nil
  ensures result == s.blankNodeID

func NewObjectLiteral
  properties N01 N02
  ensures objOK(result) && fresh(result) && result.lit == lit && result.iri == "" && result.blankNodeID == ""
func NewObjectIRI
  properties N01 N02
  ensures objOK(result) && fresh(result) && result.lit == nil && result.iri == iri && result.blankNodeID == ""
func NewObjectBlankNodeID
  properties N01 N02
  ensures objOK(result) && fresh(result) && result.lit == nil && result.iri == "" && result.blankNodeID == blankNodeID
func NewObjectFromSubject
  properties N01 N02
  requires subjOK(s)
  ensures objOK(result) && fresh(result) && result.lit == nil && result.iri == s.iri && result.blankNodeID == s.blankNodeID
func (*Object).IsIRI
  properties N01 N02
  requires objOK(o)
  ensures result <==> !objLiteral(o) && !objBlank(o)
func (*Object).IsLiteral
  properties N01 N02
  requires objOK(o)
  ensures result <==> objLiteral(o)
func (*Object).IsBlankNode
  properties N01 N02
  requires objOK(o)
  ensures result <==> objBlank(o)
func (*Object).IRI
  properties N01 N02
  requires o != nil
  ensures result == o.iri
func (*Object).BlankNodeID
  properties N01 N02
  requires o != nil
  ensures result == o.blankNodeID
func (*Object).Literal
  properties N01 N02
  requires o != nil
  ensures result == o.lit

func NewTriple
  properties N01 N02
  ensures result != nil && fresh(result) && result.subject == s && result.predicate == predicate && result.object == o
func (*Triple).Subject
  properties N01 N02
  requires t != nil
  ensures result == t.subject
func (*Triple).Predicate
  properties N01 N02
  requires t != nil
  ensures result == t.predicate
func (*Triple).Object
  properties N01 N02
  requires t != nil
  ensures result == t.object

# Equality ----------------------------------------------------------------------------
pred litsEq(a Literal, b Literal) bool = a.LexicalForm() == b.LexicalForm() && a.Datatype() == b.Datatype() && a.LanguageTag() == b.LanguageTag()
pred subjEq(a *Subject, b *Subject) bool = a.iri == b.iri && a.blankNodeID == b.blankNodeID
pred objEq(a *Object, b *Object) bool = a.iri == b.iri && a.blankNodeID == b.blankNodeID && (a.lit == nil <==> b.lit == nil) && (a.lit != nil && b.lit != nil ==> litsEq(a.lit, b.lit))
func LiteralsEqual
  properties N01
  requires a != nil && b != nil
  ensures result <==> litsEq(a, b)
func IRIsEqual
  properties N01
  ensures result <==> a == b
func SubjectsEqual
  properties N01
  requires subjOK(a) && subjOK(b)
  ensures result <==> subjEq(a, b)
func ObjectsEqual
  properties N01
  requires objOK(a) && objOK(b)
  ensures result <==> objEq(a, b)
pred tripleOK(t *Triple) bool = t != nil && subjOK(t.subject) && objOK(t.object)
func TriplesEqual
  properties N01
  requires tripleOK(a) && tripleOK(b)
  ensures result <==> subjEq(a.subject, b.subject) && a.predicate == b.predicate && objEq(a.object, b.object)
func triplePartsEqual
  properties N01
  requires tripleOK(a) && tripleOK(b)
  ensures (result0 <==> subjEq(a.subject, b.subject)) && (result1 <==> a.predicate == b.predicate) && (result2 <==> objEq(a.object, b.object))

lemma equal-equivalence [N01]: forall a *Object, b *Object, c *Object :: objEq(a, a) && (objEq(a, b) ==> objEq(b, a)) && (objEq(a, b) && objEq(b, c) ==> objEq(a, c))

# Writing -------------------------------------------------------------------------------
# The characters that a literal escapes, and the text of a literal's inside.
logic canon(in string, i int) string  ## of the part from byte i on
logic canonN(in string, i int) string  ## the same function; keeps the rule from being applied without end
pred escOf(r int) string = ite(r == '"', "\\\"", ite(r == '\\', "\\\\", ite(r == '\n', "\\n", ite(r == '\r', "\\r", runestr(r)))))
axiom canon-same: forall in string, i int :: {canon(in, i)} canon(in, i) == canonN(in, i)
axiom canon-end: forall in string, i int :: {canon(in, i)} i >= len(in) ==> canon(in, i) == ""
axiom canon-step: forall in string, i int :: {canon(in, i)} 0 <= i && i < len(in) ==> canon(in, i) == escOf(runeat(in, i)) + canonN(in, i + runewidth(in, i))
func canonicalStringLiteral
  properties N02
  ensures result1 == nil && result0 == canon(in, 0)
  loop 1 invariant quoted + canon(in, strpos()) == canon(in, 0)

pred litText(l Literal) string = "\"" + canon(l.LexicalForm(), 0) + "\"" + ite(l.LanguageTag() != "", "@" + l.LanguageTag(), ite(l.Datatype() != "", "^^<" + string(l.Datatype()) + ">", ""))
pred subjText(s *Subject) string = ite(subjBlank(s), "_:" + string(s.blankNodeID), "<" + string(s.iri) + ">")
pred objText(o *Object) string = ite(objBlank(o), "_:" + string(o.blankNodeID), ite(objLiteral(o), litText(o.lit), "<" + string(o.iri) + ">"))
func LiteralString
  properties N02
  requires l != nil
  ensures result == litText(l)
func (*Subject).String
  properties N02
  requires subjOK(s)
  ensures result == subjText(s)
func (*Object).String
  properties N02
  requires objOK(o)
  ensures result == objText(o)
func (*Triple).String
  properties N02
  requires tripleOK(t)
  ensures result == subjText(t.subject) + " <" + string(t.predicate) + "> " + objText(t.object) + " ."

# Reading ---------------------------------------------------------------------------------
# The inside of a literal is a sequence of pieces: plain characters (group 1),
# short escapes (group 2) and numeric escapes (group 3).
pred pieceG(s string, i int, g int) string = faGroup(stringLiteralCharCapture, s, i, g)
pred uOK(c string) bool = sradixOK(c[2:], 16, 64) && (0 <= sradixVal(c[2:], 16) && sradixVal(c[2:], 16) < 0xD800 || 0xDFFF < sradixVal(c[2:], 16) && sradixVal(c[2:], 16) <= 0x10FFFF)
pred uText(c string) string = runestr(sradixVal(c[2:], 16))
pred eOK(c string) bool = c[1] == 't' || c[1] == 'b' || c[1] == 'n' || c[1] == 'r' || c[1] == 'f' || c[1] == '\'' || c[1] == '"' || c[1] == '\\'
pred eText(c string) string = runestr(ite(c[1] == 't', '\t', ite(c[1] == 'b', '\b', ite(c[1] == 'n', '\n', ite(c[1] == 'r', '\r', ite(c[1] == 'f', '\f', ite(c[1] == '\'', '\'', ite(c[1] == '"', '"', '\\'))))))))
pred pieceOK(s string, i int) bool = pieceG(s, i, 1) != "" || pieceG(s, i, 2) != "" || pieceG(s, i, 3) != "" && uOK(pieceG(s, i, 3))
pred pieceText(s string, i int) string = ite(pieceG(s, i, 1) != "", pieceG(s, i, 1), ite(pieceG(s, i, 2) != "", eText(pieceG(s, i, 2)), uText(pieceG(s, i, 3))))
logic unesc(s string, n int) string  ## of the first n pieces
logic unescN(s string, n int) string
axiom unesc-same: forall s string, n int :: {unesc(s, n)} unesc(s, n) == unescN(s, n)
axiom unesc-none: forall s string, n int :: {unesc(s, n)} n <= 0 ==> unesc(s, n) == ""
axiom unesc-step: forall s string, n int :: {unesc(s, n)} n > 0 ==> unesc(s, n) == unescN(s, n-1) + pieceText(s, n-1)
# What the expression captures: a short escape is a backslash and a letter of
# the list, a numeric one has at least four digits.
axiom pieces: forall s string, i int :: {faGroup(stringLiteralCharCapture, s, i, 2)} (pieceG(s, i, 2) == "" || len(pieceG(s, i, 2)) == 2 && eOK(pieceG(s, i, 2)))
axiom pieces-u: forall s string, i int :: {faGroup(stringLiteralCharCapture, s, i, 3)} (pieceG(s, i, 3) == "" || len(pieceG(s, i, 3)) >= 6 && sradixVal(pieceG(s, i, 3)[2:], 16) >= 0)
pred pieceCount(s string) int = faCount(stringLiteralCharCapture, s)
pred litBodyOK(s string) bool = forall i int :: {faGroup(stringLiteralCharCapture, s, i, 1)} 0 <= i && i < pieceCount(s) ==> pieceOK(s, i)
pred litBody(s string) string = unesc(s, pieceCount(s))
func parseStringLiteral
  properties N02
  requires reGroups(stringLiteralCharCapture) == 3
  ensures ok: result1 == nil <==> litBodyOK(in)
  ensures text: result1 == nil ==> result0 == litBody(in)
  loop 1 invariant builder == unesc(in, $i)
  loop 1 invariant forall i int :: {faGroup(stringLiteralCharCapture, in, i, 1)} 0 <= i && i < $i ==> pieceOK(in, i)

# The inside of an IRI reference: plain characters and numeric escapes.
pred iriG(s string, i int, g int) string = faGroup(iriLiteralCharCapture, s, i, g)
pred iriPieceOK(s string, i int) bool = iriG(s, i, 1) != "" || iriG(s, i, 2) != "" && uOK(iriG(s, i, 2))
pred iriPieceText(s string, i int) string = ite(iriG(s, i, 1) != "", iriG(s, i, 1), uText(iriG(s, i, 2)))
logic unesci(s string, n int) string
logic unesciN(s string, n int) string
axiom unesci-same: forall s string, n int :: {unesci(s, n)} unesci(s, n) == unesciN(s, n)
axiom unesci-none: forall s string, n int :: {unesci(s, n)} n <= 0 ==> unesci(s, n) == ""
axiom unesci-step: forall s string, n int :: {unesci(s, n)} n > 0 ==> unesci(s, n) == unesciN(s, n-1) + iriPieceText(s, n-1)
axiom pieces-iri: forall s string, i int :: {faGroup(iriLiteralCharCapture, s, i, 2)} (iriG(s, i, 2) == "" || len(iriG(s, i, 2)) >= 6 && sradixVal(iriG(s, i, 2)[2:], 16) >= 0)
pred iriBodyOK(s string) bool = forall i int :: {faGroup(iriLiteralCharCapture, s, i, 1)} 0 <= i && i < faCount(iriLiteralCharCapture, s) ==> iriPieceOK(s, i)
pred normal(s string) string = ite(percentOK(s), percentNormal(s), s)
func canonicalizeIRILiteral
  properties N02
  requires reGroups(iriLiteralCharCapture) == 2
  ensures ok: result1 == nil <==> iriBodyOK(in)
  ensures text: result1 == nil ==> result0 == normal(unesci(in, faCount(iriLiteralCharCapture, in)))
  loop 1 invariant string(deref(canonical)) == unesci(in, $i)
  loop 1 invariant forall i int :: {faGroup(iriLiteralCharCapture, in, i, 1)} 0 <= i && i < $i ==> iriPieceOK(in, i)

pred tables() bool = reGroups(stringLiteralCharCapture) == 3 && reGroups(iriLiteralCharCapture) == 2 && reGroups(literalRegexp) == 3
pred iriBody(s string) string = normal(unesci(s, faCount(iriLiteralCharCapture, s)))
# An IRI reference is in angle brackets; a blank node label follows _: .
axiom iriref: forall s string :: {reMatch(irirefRegexp, s)} reMatch(irirefRegexp, s) ==> reStart(irirefRegexp, s) == 0 && len(reGroup(irirefRegexp, s, 0)) >= 2
axiom blank: forall s string :: {reMatch(blankNodeLabel, s)} reMatch(blankNodeLabel, s) ==> reStart(blankNodeLabel, s) == 0 && len(reGroup(blankNodeLabel, s, 0)) >= 3
axiom literal: forall s string :: {reMatch(literalRegexp, s)} reMatch(literalRegexp, s) ==> reStart(literalRegexp, s) == 0 && hasPrefix(s, reGroup(literalRegexp, s, 0))
pred irRaw(s string) string = reGroup(irirefRegexp, s, 0)[1:len(reGroup(irirefRegexp, s, 0))-1]
pred irOK(s string) bool = reMatch(irirefRegexp, s) && iriBodyOK(irRaw(s))
pred irRest(s string) string = s[len(reGroup(irirefRegexp, s, 0)):]
func parseIRIRef
  properties N02
  requires tables()
  ensures ok: result2 == nil <==> irOK(input)
  ensures value: result2 == nil ==> string(result0) == iriBody(irRaw(input)) && result1 == irRest(input)
pred bnText(s string) string = reGroup(blankNodeLabel, s, 0)
func parseBlankNode
  properties N02
  ensures ok: result2 == nil <==> reMatch(blankNodeLabel, input)
  ensures value: result2 == nil ==> string(result0) == bnText(input)[2:] && result1 == input[len(bnText(input)):]
pred litG(s string, g int) string = reGroup(literalRegexp, s, g)
pred litOK(s string) bool = reMatch(literalRegexp, s) && litBodyOK(litG(s, 1)) && (litG(s, 3) != "" || litG(s, 2) == "" || iriBodyOK(litG(s, 2)))
pred litRest(s string) string = s[len(litG(s, 0)):]
pred isLit(l Literal, s string) bool = is(l, *genericLiteral) && as(l, *genericLiteral) != nil && as(l, *genericLiteral).lexicalForm == litBody(litG(s, 1)) && as(l, *genericLiteral).langTag == litG(s, 3) && string(as(l, *genericLiteral).datatype) == ite(litG(s, 3) != "", string(LangString), ite(litG(s, 2) != "", iriBody(litG(s, 2)), string(XMLSchemaString)))
func ParseLiteral
  properties N02
  requires tables()
  ensures ok: result2 == nil <==> litOK(input)
  ensures value: result2 == nil ==> isLit(result0, input) && result1 == litRest(input)

pred subOK(s string) bool = len(s) > 0 && (s[0] == '_' && reMatch(blankNodeLabel, s) || s[0] == '<' && irOK(s))
pred subRest(s string) string = ite(s[0] == '_', s[len(bnText(s)):], irRest(s))
pred isSub(r *Subject, s string) bool = ite(s[0] == '_', string(r.blankNodeID) == bnText(s)[2:] && r.iri == "", string(r.iri) == iriBody(irRaw(s)) && r.blankNodeID == "")
func parseSubject
  properties N02
  requires tables()
  ensures ok: result2 == nil <==> subOK(input)
  ensures value: result2 == nil ==> subjOK(result0) && isSub(result0, input) && result1 == subRest(input)
pred obOK(s string) bool = len(s) > 0 && (s[0] == '_' && reMatch(blankNodeLabel, s) || s[0] == '<' && irOK(s) || s[0] == '"' && litOK(s))
pred obRest(s string) string = ite(s[0] == '_', s[len(bnText(s)):], ite(s[0] == '<', irRest(s), litRest(s)))
pred isOb(r *Object, s string) bool = ite(s[0] == '_', string(r.blankNodeID) == bnText(s)[2:] && r.iri == "" && r.lit == nil, ite(s[0] == '<', string(r.iri) == iriBody(irRaw(s)) && r.blankNodeID == "" && r.lit == nil, r.iri == "" && r.blankNodeID == "" && isLit(r.lit, s)))
func parseObject
  properties N02
  requires tables()
  ensures ok: result2 == nil <==> obOK(input)
  ensures value: result2 == nil ==> objOK(result0) && isOb(result0, input) && result1 == obRest(input)

pred skip(s string) string = strings.TrimLeft(s, " \t")
pred line1(s string) string = skip(subRest(s))
pred line2(s string) string = skip(irRest(line1(s)))
pred isTriple(s string) bool = s != "" && s[0] != '#' && subOK(s) && irOK(line1(s)) && obOK(line2(s)) && strings.Trim(obRest(line2(s)), " \t") == "."
# Names for what a line says, so that its grammar is not looked at again.
logic lineTriple(s string) bool
logic lineSubBlank(s string) string
logic lineSubIRI(s string) string
logic linePred(s string) string
logic lineObBlank(s string) string
logic lineObIRI(s string) string
logic lineObLit(s string) bool
logic lineLex(s string) string
logic lineType(s string) string
logic lineLang(s string) string
axiom line-empty: !lineTriple("")
axiom line: forall s string :: {lineTriple(s), reMatch(blankNodeLabel, s)} lineTriple(s) <==> isTriple(s)
axiom line-sub: forall s string :: {lineSubBlank(s), reMatch(blankNodeLabel, s)} lineSubBlank(s) == ite(s[0] == '_', bnText(s)[2:], "") && lineSubIRI(s) == ite(s[0] == '_', "", iriBody(irRaw(s)))
axiom line-pred: forall s string :: {linePred(s), reMatch(blankNodeLabel, s)} linePred(s) == iriBody(irRaw(line1(s)))
pred o2(s string) int = line2(s)[0]
axiom line-ob: forall s string :: {lineObBlank(s), reMatch(blankNodeLabel, s)} lineObBlank(s) == ite(o2(s) == '_', bnText(line2(s))[2:], "") && lineObIRI(s) == ite(o2(s) == '<', iriBody(irRaw(line2(s))), "") && (lineObLit(s) <==> o2(s) == '"')
axiom line-lit: forall s string :: {lineLex(s), reMatch(blankNodeLabel, s)} lineLex(s) == litBody(litG(line2(s), 1)) && lineLang(s) == litG(line2(s), 3) && lineType(s) == ite(litG(line2(s), 3) != "", string(LangString), ite(litG(line2(s), 2) != "", iriBody(litG(line2(s), 2)), string(XMLSchemaString)))
pred asTriple(t *Triple, s string) bool = tripleOK(t) && string(t.subject.blankNodeID) == lineSubBlank(s) && string(t.subject.iri) == lineSubIRI(s) && string(t.predicate) == linePred(s) && string(t.object.blankNodeID) == lineObBlank(s) && string(t.object.iri) == lineObIRI(s) && (t.object.lit != nil <==> lineObLit(s)) && (lineObLit(s) ==> is(t.object.lit, *genericLiteral) && as(t.object.lit, *genericLiteral) != nil && as(t.object.lit, *genericLiteral).lexicalForm == lineLex(s) && as(t.object.lit, *genericLiteral).langTag == lineLang(s) && string(as(t.object.lit, *genericLiteral).datatype) == lineType(s))
pred isComment(s string) bool = s != "" && s[0] == '#'
func ParseLine
  properties N02
  requires tables()
  ensures fresh(result0) || result0 == nil
  ensures ok: result2 == nil <==> lineTriple(line) || isComment(line)
  ensures one: result2 == nil ==> (result0 == nil <==> result1 != nil)
  ensures triple: result0 != nil ==> result2 == nil && lineTriple(line) && !isComment(line) && asTriple(result0, line)
  ensures comment: result1 != nil ==> result2 == nil && isComment(line) && result1.contents == line[1:]

func ParseLines
  properties N02
  requires tables()
  ensures ok: result1 == nil <==> (forall i int :: {lines[i]} 0 <= i && i < len(lines) ==> lineTriple(lines[i]) || isComment(lines[i]))
  ensures result1 == nil ==> (forall k int :: {result0[k]} 0 <= k && k < len(result0) ==> exists i int :: k <= i && i < len(lines) && asTriple(result0[k], lines[i]))
  loop 1 invariant forall i int :: {lines[i]} 0 <= i && i < $i ==> lineTriple(lines[i]) || isComment(lines[i])
  loop 1 invariant len(triples) <= $i && (triples == nil || fresh(triples))
  loop 1 invariant forall k int :: {triples[k]} 0 <= k && k < len(triples) ==> exists i int :: k <= i && i < $i && asTriple(triples[k], lines[i])
