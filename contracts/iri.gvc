# IRIs: splitting, recomposing, checking, and resolving references.
package github.com/google/xtoproto/rdf/iri

pred uG(s string, g int) string = reGroup(uriRE, s, g)
pred aG(a string, g int) string = reGroup(iauthorityCaptureRE, a, g)
axiom uri: forall s string :: {reMatch(uriRE, s)} reMatch(uriRE, s) && reGroups(uriRE) == 9 && s == uG(s, 1) + uG(s, 3) + uG(s, 5) + uG(s, 6) + uG(s, 8)
axiom uri-scheme: forall s string :: {reMatch(uriRE, s)} uG(s, 1) == "" && uG(s, 2) == "" || uG(s, 2) != "" && uG(s, 1) == uG(s, 2) + ":"
axiom uri-authority: forall s string :: {reMatch(uriRE, s)} uG(s, 3) == "" && uG(s, 4) == "" || uG(s, 3) == "//" + uG(s, 4)
axiom uri-query: forall s string :: {reMatch(uriRE, s)} uG(s, 6) == "" && uG(s, 7) == "" || uG(s, 6) == "?" + uG(s, 7)
axiom uri-fragment: forall s string :: {reMatch(uriRE, s)} uG(s, 8) == "" && uG(s, 9) == "" || uG(s, 8) == "#" + uG(s, 9)
axiom authority: forall a string :: {reMatch(iauthorityCaptureRE, a)} reMatch(iauthorityCaptureRE, a) ==> reGroups(iauthorityCaptureRE) == 3 && a == aG(a, 1) + aG(a, 2) + aG(a, 3)

# The numbers of the groups.
pred groups() bool = uriRESchemeGroup == 2 && uriREAuthorityWithSlashSlahGroup == 3 && uriREAuthorityGroup == 4 && uriREPathGroup == 5 && uriREQueryWithMarkGroup == 6 && uriREQueryGroup == 7 && uriREFragmentWithHashGroup == 8 && uriREFragmentGroup == 9

# Components ----------------------------------------------------------------------
pred hasAuth(p *parts) bool = p.emptyAuth || p.userInfo != "" || p.host != "" || p.port != ""
pred schemeText(p *parts) string = ite(p.scheme == "", "", p.scheme + ":")
pred authText(p *parts) string = ite(hasAuth(p), "//" + p.userInfo + p.host + p.port, "")
pred fragText(p *parts) string = ite(p.fragment != "" || p.emptyFragment, "#" + p.fragment, "")
pred recomposed(p *parts) string = schemeText(p) + authText(p) + p.path + p.query + fragText(p)
pred queryOK(p *parts) bool = p.query == "" || hasPrefix(p.query, "?")

func (IRI).parts
  properties I01 I02
  requires groups()
  ensures result != nil && fresh(result)
  ensures scheme: result.scheme == uG(string(iri), 2)
  ensures authority: result.userInfo + result.host + result.port == uG(string(iri), 4)
  ensures split: reMatch(iauthorityCaptureRE, uG(string(iri), 4)) ==> result.userInfo == aG(uG(string(iri), 4), 1) && result.host == aG(uG(string(iri), 4), 2) && result.port == aG(uG(string(iri), 4), 3)
  ensures has-authority: hasAuth(result) <==> uG(string(iri), 3) != ""
  ensures path: result.path == uG(string(iri), 5)
  ensures query: result.query == uG(string(iri), 6) && queryOK(result)
  ensures fragment: result.fragment == uG(string(iri), 9)
  ensures has-fragment: (result.fragment != "" || result.emptyFragment) <==> uG(string(iri), 8) != ""
  ensures lossless: recomposed(result) == string(iri)

func (*parts).toIRI
  properties I01 I02
  requires p != nil
  ensures string(result) == recomposed(p)

func (*parts).HasAuthority
  properties I01 I02
  requires p != nil
  ensures result <==> hasAuth(p)
func (*parts).Scheme
  properties I01 I02
  requires p != nil
  ensures result == p.scheme
func (*parts).Host
  properties I01 I02
  requires p != nil
  ensures result == p.host
func (*parts).User
  properties I01 I02
  requires p != nil
  ensures result == p.userInfo
func (*parts).Port
  properties I01 I02
  requires p != nil
  ensures result == p.port
func (*parts).Path
  properties I01 I02
  requires p != nil
  ensures result == p.path
func (*parts).Query
  properties I01 I02
  requires p != nil
  ensures (result == nil) <==> p.query == ""
  ensures result != nil ==> deref(result) == p.query[1:]
func (*parts).Fragment
  properties I01 I02
  requires p != nil
  ensures result0 == p.fragment
  ensures result1 <==> p.emptyFragment || p.fragment != ""

# The same of components behind the interface.
pred asParts(x resolveRefArg) *parts = as(x, *parts)
iface (resolveRefArg).HasAuthority
  ensures is(self, *parts) ==> (result <==> hasAuth(asParts(self)))
iface (resolveRefArg).Scheme
  ensures is(self, *parts) ==> result == asParts(self).scheme
iface (resolveRefArg).Host
  ensures is(self, *parts) ==> result == asParts(self).host
iface (resolveRefArg).User
  ensures is(self, *parts) ==> result == asParts(self).userInfo
iface (resolveRefArg).Port
  ensures is(self, *parts) ==> result == asParts(self).port
iface (resolveRefArg).Path
  ensures is(self, *parts) ==> result == asParts(self).path
iface (resolveRefArg).Query
  ensures is(self, *parts) ==> ((result == nil) <==> asParts(self).query == "") && (result != nil ==> deref(result) == asParts(self).query[1:])
iface (resolveRefArg).Fragment
  ensures is(self, *parts) ==> result0 == asParts(self).fragment && (result1 <==> asParts(self).emptyFragment || asParts(self).fragment != "")

# Resolution ----------------------------------------------------------------------
# RFC 3986, section 5.2.4: the output for the input and output buffers.
logic dots(in string, out string) string
logic dotsN(in string, out string) string  ## the same function; keeps the rules below from being applied without end
pred dropLast(out string) string = ite(contains(out, "/"), out[:lastIndexOf(out, "/")], "")
pred segEnd(in string) int = ite(contains(in[1:], "/"), indexOf(in[1:], "/") + 1, len(in))
axiom dots-end: forall out string :: {dots("", out)} dots("", out) == out
axiom dots-same: forall in string, out string :: {dots(in, out)} dots(in, out) == dotsN(in, out)
axiom dots-a: forall in string, out string :: {dots(in, out)} (hasPrefix(in, "../") ==> dots(in, out) == dotsN(in[3:], out)) && (hasPrefix(in, "./") ==> dots(in, out) == dotsN(in[2:], out))
axiom dots-b: forall in string, out string :: {dots(in, out)} (hasPrefix(in, "/./") ==> dots(in, out) == dotsN(in[2:], out)) && (in == "/." ==> dots(in, out) == dotsN("/", out))
axiom dots-c: forall in string, out string :: {dots(in, out)} (hasPrefix(in, "/../") ==> dots(in, out) == dotsN(in[3:], dropLast(out))) && (in == "/.." ==> dots(in, out) == dotsN("/", dropLast(out)))
axiom dots-d: forall in string, out string :: {dots(in, out)} in == "." || in == ".." ==> dots(in, out) == out
pred dotted(in string) bool = hasPrefix(in, "../") || hasPrefix(in, "./") || hasPrefix(in, "/./") || hasPrefix(in, "/../") || in == "." || in == ".." || in == "/." || in == "/.."
axiom dots-e: forall in string, out string :: {dots(in, out)} in != "" && !dotted(in) ==> dots(in, out) == dotsN(in[segEnd(in):], out + in[:segEnd(in)])

func removeDotSegments
  properties I01
  ensures result == dots(path, "")
  loop 1 invariant dots(in, out) == dots(path, "")

func removeLastSegment
  properties I01
  ensures result == dropLast(path)

pred merged(base string, ref string) string = ite(ref == "", base, ite(hasPrefix(ref, "/"), ref, ite(contains(base, "/"), base[:lastIndexOf(base, "/") + 1], "") + ref))
func resolvePath
  properties I01
  ensures result == dots(merged(base, ref), "")

func formattedQuery
  properties I01
  ensures q == nil ==> result == ""
  ensures q != nil ==> result == "?" + deref(q)

func resolveReference
  properties I01
  requires is(base, *parts) && is(ref, *parts) && asParts(base) != nil && asParts(ref) != nil
  requires queryOK(asParts(base)) && queryOK(asParts(ref))
  let b = asParts(base)
  let r = asParts(ref)
  let own = r.scheme != "" || hasAuth(r)
  let empty = !own && r.path == "" && r.query == ""
  ensures result != nil && fresh(result)
  ensures scheme: result.scheme == ite(r.scheme != "", r.scheme, b.scheme)
  ensures own-authority: own ==> (hasAuth(result) <==> hasAuth(r)) && result.userInfo == r.userInfo && result.host == r.host && result.port == r.port
  ensures base-authority: !own ==> (hasAuth(result) <==> hasAuth(b)) && result.userInfo == b.userInfo && result.host == b.host && result.port == b.port
  ensures own-path: own ==> result.path == dots(r.path, "")
  ensures base-path: !own && r.path == "" ==> result.path == dots(b.path, "")
  ensures absolute-path: !own && hasPrefix(r.path, "/") ==> result.path == dots(r.path, "")
  ensures merged-path: !own && r.path != "" && !hasPrefix(r.path, "/") ==> result.path == dots(merged(ite(b.path == "" && hasAuth(b), "/", b.path), r.path), "")
  ensures query: result.query == ite(empty, b.query, r.query)
  ensures own-fragment: r.fragment != "" || r.emptyFragment ==> fragText(result) == fragText(r)
  ensures no-fragment: r.fragment == "" && !r.emptyFragment && !empty ==> fragText(result) == ""
  ensures base-fragment: r.fragment == "" && !r.emptyFragment && empty ==> fragText(result) == fragText(b)

func (IRI).ResolveReference
  properties I01
  pureuf
  requires groups()

# Checking ------------------------------------------------------------------------
logic percentOK(s string) bool
logic percentNormal(s string) string
func (IRI).normalizePercentEncoding
  trusted octets are decoded in a callback of the regular expression package; checked by the bounded harness
  ensures (result1 == nil) <==> percentOK(string(iri))
  ensures string(result0) == percentNormal(string(iri))

pred checked(re *regexp.Regexp, s string) bool = s == "" || reMatch(re, s)
func Parse
  properties I02
  requires groups()
  let ok = checked(schemeRE, uG(s, 2)) && checked(iauthorityRE, uG(s, 4)) && checked(ipathRE, uG(s, 5)) && checked(iqueryRE, uG(s, 7)) && checked(ifragmentRE, uG(s, 9)) && !(uG(s, 1) == "" && uG(s, 3) == "" && hasPrefix(uG(s, 5), ":")) && percentOK(s)
  ensures accepted: result1 == nil <==> ok
  ensures same: result1 == nil ==> string(result0) == s
  ensures rejected: result1 != nil ==> string(result0) == ""

func (IRI).Check
  properties I02
  requires groups()
  let s = string(iri)
  let ok = checked(schemeRE, uG(s, 2)) && checked(iauthorityRE, uG(s, 4)) && checked(ipathRE, uG(s, 5)) && checked(iqueryRE, uG(s, 7)) && checked(ifragmentRE, uG(s, 9)) && !(uG(s, 1) == "" && uG(s, 3) == "" && hasPrefix(uG(s, 5), ":")) && percentOK(s)
  ensures result == nil <==> ok

func (IRI).NormalizePercentEncoding
  properties I02
  pureuf
  ensures percentOK(string(iri)) ==> string(result) == percentNormal(string(iri))
  ensures !percentOK(string(iri)) ==> result == iri

func init
  properties I01 I02
  ensures groups()
