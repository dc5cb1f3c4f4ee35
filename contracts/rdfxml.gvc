# Reading RDF/XML.
package github.com/google/xtoproto/rdf/rdfxml

constglobal coreSyntaxTerms
constglobal oldTerms

# The statements handed out, in order. The receiver of the only exported way to
# read goes on to the end.
ghost trCount int
ghost trOf map[int]*ntriples.Triple
fnval func(*ntriples.Triple) (rdfxml.IterationDecision, error)
  params t
  requires tripleOK(t)
  ensures result1 == nil ==> result0 == Continue
  ghostset trOf[trCount] := t
  ghostset trCount := trCount + 1

# Names ------------------------------------------------------------------------------
pred coreTerm(n ntriples.IRI) bool = n == RDFRoot || n == RDFID || n == RDFAbout || n == RDFParseType || n == RDFResource || n == RDFNodeID || n == RDFDatatype
pred oldTerm(n ntriples.IRI) bool = n == RDF + "aboutEach" || n == RDF + "aboutEachPrefix" || n == RDF + "bagID"
func checkNodeElementURI
  properties D03
  params name
  ensures result != nil <==> coreTerm(name) || oldTerm(name) || name == RDFLI
func checkPropertyElementURI
  properties D03
  params name
  ensures result != nil <==> coreTerm(name) || oldTerm(name) || name == RDFDescription
func xmlNameToIRI
  properties D03
  params n
  ensures string(result) == n.Space + n.Local
pred nameIRI(n xml.Name) string = n.Space + n.Local
pred propTerm(t string) bool = !coreTerm(ntriples.IRI(t)) && !oldTerm(ntriples.IRI(t)) && t != string(RDFDescription) && t != string(RDFLI)
func isPropertyAttr
  properties D03
  params name
  ensures result <==> propTerm(nameIRI(name))
pred xmlAttr(n xml.Name) bool = ite(n.Space == "", reMatch(beginsWithXMLExpr, n.Local), reMatch(xmlnsRE, n.Space) || reMatch(beginsWithXMLExpr, n.Space))
func isXMLAttr
  properties D03
  params name
  ensures result <==> xmlAttr(name)

# A name without a colon; it does not begin with a digit.
pred ncName(s string) bool = reMatch(xmlNameRegexp, s) && !contains(s, ":")
axiom name-start: forall s string :: {reMatch(xmlNameRegexp, s)} reMatch(xmlNameRegexp, s) ==> s != "" && !hasPrefix(s, "0")
func checkXMLName
  properties D02
  params candidate
  ensures result == nil <==> reMatch(xmlNameRegexp, candidate)
func checkXMLNCName
  properties D02
  params candidate
  ensures result == nil <==> ncName(candidate)

# The state of a parser ----------------------------------------------------------------
pred noFragment(s string) string = ite(contains(s, "#"), s[:indexOf(s, "#")], s)
pred curBase(p *Parser) ntriples.IRI = ite(len(p.xmlBaseStack) == 0, ntriples.IRI(""), p.xmlBaseStack[len(p.xmlBaseStack)-1].iri)
pred curLang(p *Parser) string = ite(len(p.langStack) == 0, "", p.langStack[len(p.langStack)-1])
pred basesOK(p *Parser) bool = forall k int :: {p.xmlBaseStack[k]} 0 <= k && k < len(p.xmlBaseStack) ==> p.xmlBaseStack[k] != nil
pred rxOK(p *Parser) bool = p != nil && p.reader != nil && p.declaredIDs != nil && basesOK(p)

func removeFragment
  properties D01
  params baseURI
  ensures string(result) == noFragment(string(baseURI))
func (*Parser).pushBaseURI
  properties D01
  params p baseURI
  requires p != nil && basesOK(p)
  modifies p.xmlBaseStack, elems(p.xmlBaseStack)
  let n = len(p.xmlBaseStack)
  ensures basesOK(p)
  ensures pushed: len(p.xmlBaseStack) == n + 1 && string(p.xmlBaseStack[n].iri) == noFragment(string(baseURI))
  ensures kept: forall k int :: {p.xmlBaseStack[k]} 0 <= k && k < n ==> p.xmlBaseStack[k] == old(p.xmlBaseStack[k])
func (*Parser).popBaseURI
  properties D01
  params p
  requires p != nil && basesOK(p) && len(p.xmlBaseStack) > 0
  modifies p.xmlBaseStack
  ensures popped: len(p.xmlBaseStack) == old(len(p.xmlBaseStack)) - 1
  ensures kept: forall k int :: {p.xmlBaseStack[k]} 0 <= k && k < len(p.xmlBaseStack) ==> p.xmlBaseStack[k] == old(p.xmlBaseStack[k])
func (*Parser).pushLang
  properties D01
  params p lang
  requires p != nil
  modifies p.langStack, elems(p.langStack)
  let n = len(p.langStack)
  ensures pushed: len(p.langStack) == n + 1 && p.langStack[n] == lang
  ensures kept: forall k int :: {p.langStack[k]} 0 <= k && k < n ==> p.langStack[k] == old(p.langStack[k])
func (*Parser).popLang
  properties D01
  params p
  requires p != nil && len(p.langStack) > 0
  modifies p.langStack
  ensures popped: len(p.langStack) == old(len(p.langStack)) - 1
  ensures kept: forall k int :: {p.langStack[k]} 0 <= k && k < len(p.langStack) ==> p.langStack[k] == old(p.langStack[k])
func (*Parser).baseURI
  properties D01
  params p
  requires p != nil && basesOK(p)
  ensures result == curBase(p)
func (*Parser).language
  properties D01
  params p
  requires p != nil
  ensures result == curLang(p)
func NewParser
  properties D01 D02
  params tr opts
  ensures result != nil && fresh(result) && result.reader == tr && len(result.langStack) == 0 && basesOK(result)
  ensures base: len(result.xmlBaseStack) == ite(opts != nil && opts.BaseURL != "", 1, 0) && string(curBase(result)) == ite(opts != nil, noFragment(string(opts.BaseURL)), "")
  ensures names: result.declaredIDs != nil && len(result.declaredIDs) == 0

# References and literals of the scope ---------------------------------------------------
func resolve
  properties D01
  params p s
  requires p != nil && basesOK(p) && groups()
  ensures same-document: s == "" ==> result1 == nil && result0 == curBase(p)
  ensures resolved: s != "" && result1 == nil ==> result0 == curBase(p).ResolveReference(ntriples.IRI(s)).NormalizePercentEncoding()
pred litOf(l ntriples.Literal, s string, datatype string, lang string) bool = is(l, *ntriples.genericLiteral) && as(l, *ntriples.genericLiteral) != nil && as(l, *ntriples.genericLiteral).lexicalForm == s && string(as(l, *ntriples.genericLiteral).datatype) == datatype && as(l, *ntriples.genericLiteral).langTag == lang
func parseLiteral
  properties D01
  params p s
  requires p != nil
  ensures total: result1 == nil
  ensures plain: litOf(result0, s, ite(curLang(p) == "", string(ntriples.XMLSchemaString), ""), curLang(p))

# Identifiers and generated labels ---------------------------------------------------------
func (*Parser).declareID
  properties D02
  params p id
  requires p != nil && p.declaredIDs != nil
  modifies entries(p.declaredIDs)
  ensures twice: result != nil <==> old(p.declaredIDs[id])
  ensures declared: p.declaredIDs[id]
  ensures kept: forall i ntriples.IRI :: {p.declaredIDs[i]} i != id ==> (p.declaredIDs[i] <==> old(p.declaredIDs[i]))
func resolveID
  properties D01 D02
  params p value
  requires rxOK(p) && groups()
  modifies entries(p.declaredIDs)
  let id = curBase(p).ResolveReference(ntriples.IRI("#" + value)).NormalizePercentEncoding()
  ensures name: result1 == nil ==> ncName(value)
  ensures resolved: result1 == nil ==> result0 == id
  ensures twice: old(p.declaredIDs[id]) ==> result1 != nil
  ensures declared: result1 == nil ==> p.declaredIDs[result0]
  ensures kept: forall i ntriples.IRI :: {p.declaredIDs[i]} old(p.declaredIDs[i]) ==> p.declaredIDs[i]
# Every label has a number of its own and begins with a digit, as no written
# label does. The counter is taken to stay in range: what is said about it holds
# until 2^63-1 labels have been made.
ghost spent bool
pred noneObserved(p *Parser) bool = forall l ntriples.BlankNodeID :: {p.observedBlankNodes[l]} !p.observedBlankNodes[l]
pred label(n int, hint string) string = "0gen-" + decimal(n) + ite(hint == "", "", "-" + hint)
pred numbered(p *Parser, n int) bool = spent || p.nextBlankNodeID >= n
axiom digits: forall i int :: {decimal(i)} intVal(decimal(i)) == i && (i >= 0 ==> !contains(decimal(i), "-"))
lemma labels-differ [D02]: forall a int, b int, h string, k string :: a >= 0 && b >= 0 && a != b ==> label(a, h) != label(b, k)
lemma written-differ [D02]: forall a int, h string, s string :: ncName(s) ==> label(a, h) != s
func (*Parser).generateBlankNodeID
  properties D02
  params p
  requires p != nil && (spent || p.nextBlankNodeID >= 0) && noneObserved(p)
  modifies p.nextBlankNodeID, spent
  ghostset spent := spent || p.nextBlankNodeID < 0
  ensures digit: result != "" && hasPrefix(string(result), "0")
  ensures range: spent || p.nextBlankNodeID >= 0
  ensures monotone: old(spent) ==> spent
  ensures new: spent || p.nextBlankNodeID > old(p.nextBlankNodeID) && string(result) == label(p.nextBlankNodeID, "")
  anyloop p.nextBlankNodeID == old(p.nextBlankNodeID)
func (*Parser).generateBlankNodeIDWithHint
  properties D02
  params p hint
  requires p != nil && (spent || p.nextBlankNodeID >= 0) && noneObserved(p) && hint != ""
  modifies p.nextBlankNodeID, spent
  ghostset spent := spent || p.nextBlankNodeID < 0
  ensures digit: result != "" && hasPrefix(string(result), "0")
  ensures range: spent || p.nextBlankNodeID >= 0
  ensures monotone: old(spent) ==> spent
  ensures new: spent || p.nextBlankNodeID > old(p.nextBlankNodeID) && string(result) == label(p.nextBlankNodeID, hint)
  anyloop p.nextBlankNodeID == old(p.nextBlankNodeID)
