# S-expressions: the text, positions in it, and the reader.
package github.com/google/xtoproto/sexpr

# Positions ---------------------------------------------------------------------------
# The number of line breaks among the first n characters.
logic rows(a seq[rune], n int) int
logic rowsN(a seq[rune], n int) int  ## the same function; keeps the rule from being applied without end
axiom rows-same: forall a seq[rune], n int :: {rows(a, n)} rows(a, n) == rowsN(a, n)
axiom rows-none: forall a seq[rune], n int :: {rows(a, n)} n <= 0 ==> rows(a, n) == 0
axiom rows-step: forall a seq[rune], n int :: {rows(a, n)} n > 0 ==> rows(a, n) == rowsN(a, n-1) + ite(a[n-1] == '\n', 1, 0)

# The table of the first n characters: where the line breaks are.
pred tableOK(a seq[rune], n int, nl []cursorOffset) bool = len(nl) == rows(a, n) && (forall i int :: {nl[i]} 0 <= i && i < len(nl) ==> 0 <= nl[i] && nl[i] < n && a[nl[i]] == '\n') && (forall i int, j int :: {nl[i], nl[j]} 0 <= i && i < j && j < len(nl) ==> nl[i] < nl[j]) && (forall k int :: {rows(a, k)} 0 <= k && k <= n ==> 0 <= rows(a, k) && rows(a, k) <= len(nl) && (rows(a, k) > 0 ==> nl[rows(a, k)-1] < k) && (rows(a, k) < len(nl) ==> nl[rows(a, k)] >= k))
pred text(sf *strSourceFile) seq[rune] = contents(sf.runes)
pred sfOK(sf *strSourceFile) bool = sf != nil && 0 <= sf.cursor && sf.cursor <= len(sf.runes) && tableOK(text(sf), len(sf.runes), sf.newlineOffsets)
pred startOf(sf *strSourceFile, row int) int = ite(row == 0, 0, sf.newlineOffsets[row-1] + 1)
pred endOf(sf *strSourceFile, row int) int = ite(row < len(sf.newlineOffsets), sf.newlineOffsets[row], len(sf.runes))
pred inText(sf *strSourceFile, o int) bool = 0 <= o && o <= len(sf.runes)
# The position of an offset, and of the offsets outside of the text.
pred isPos(sf *strSourceFile, o int, rc rowCol) bool = ite(inText(sf, o), rc.row == rows(text(sf), o) && rc.col == o - startOf(sf, rows(text(sf), o)), rc.row == 0-1 && rc.col == 0-1)

func newStrSourceFile
  properties S01 S02
  ensures sfOK(result) && fresh(result) && result.name == name && result.cursor == 0 && text(result) == runes(code) && len(result.runes) == runecount(code)
  loop 1 invariant newlineOffsets == nil || fresh(newlineOffsets)
  loop 1 invariant tableOK(contents(runes), $i, newlineOffsets)
func (*strSourceFile).fileName
  properties S01 S02
  requires sf != nil
  ensures result == sf.name
func (*strSourceFile).cursorOffset
  properties S01 S02
  requires sf != nil
  ensures result == sf.cursor
func (*strSourceFile).lineStart
  properties S01
  requires sfOK(sf)
  ensures 0 <= l && l <= len(sf.newlineOffsets) ==> result == startOf(sf, l)
  ensures l < 0 || l > len(sf.newlineOffsets) ==> result == 0-1
func (*strSourceFile).lineLength
  properties S01
  requires sfOK(sf)
  ensures 0 <= l && l <= len(sf.newlineOffsets) ==> result == endOf(sf, l) - startOf(sf, l)
  ensures l < 0 || l > len(sf.newlineOffsets) ==> result == 0-1
func (*strSourceFile).offsetToRowCol
  properties S01
  requires sfOK(sf)
  ensures isPos(sf, co, result)
  loop 1 invariant forall i int :: {sf.newlineOffsets[i]} 0 <= i && i < $i ==> co > sf.newlineOffsets[i]
pred validPos(sf *strSourceFile, row int, col int) bool = 0 <= row && row <= len(sf.newlineOffsets) && 0 <= col && col <= endOf(sf, row) - startOf(sf, row)
func (*strSourceFile).rowColToOffset
  properties S01
  requires sfOK(sf)
  ensures validPos(sf, rc.row, rc.col) ==> result == startOf(sf, rc.row) + rc.col && inText(sf, result)
  ensures !validPos(sf, rc.row, rc.col) ==> result == 0-1
lemma inverse-offset [S01]: forall sf *strSourceFile, o int :: sfOK(sf) && inText(sf, o) ==> validPos(sf, rows(text(sf), o), o - startOf(sf, rows(text(sf), o)))
lemma inverse-row [S01]: forall sf *strSourceFile, r int, c int :: sfOK(sf) && validPos(sf, r, c) ==> rows(text(sf), startOf(sf, r) + c) == r

# Reading characters ----------------------------------------------------------------
pred isStr(self sourceFile) bool = is(self, *strSourceFile) && sfOK(as(self, *strSourceFile))
pred S(self sourceFile) *strSourceFile = as(self, *strSourceFile)
pred atEnd(sf *strSourceFile) bool = sf.cursor == len(sf.runes)
func (*strSourceFile).readRune
  properties S01 S02
  requires sfOK(sf)
  modifies sf.cursor
  let i = sf.cursor
  ensures i == len(sf.runes) ==> result1 == io.EOF && sf.cursor == i
  ensures i < len(sf.runes) ==> result1 == nil && result0 == sf.runes[i] && sf.cursor == i + 1
iface (sourceFile).readRune
  requires isStr(self)
  modifies S(self).cursor
  let i = S(self).cursor
  ensures i == len(S(self).runes) ==> result1 == io.EOF && S(self).cursor == i
  ensures i < len(S(self).runes) ==> result1 == nil && result0 == S(self).runes[i] && S(self).cursor == i + 1
func (*strSourceFile).peekRune
  properties S01 S02
  requires sfOK(sf)
  ensures atEnd(sf) ==> result1 == io.EOF
  ensures !atEnd(sf) ==> result1 == nil && result0 == sf.runes[sf.cursor]
iface (sourceFile).peekRune
  requires isStr(self)
  ensures atEnd(S(self)) ==> result1 == io.EOF
  ensures !atEnd(S(self)) ==> result1 == nil && result0 == S(self).runes[S(self).cursor]
func (*strSourceFile).unreadRune
  properties S01 S02
  requires sfOK(sf)
  modifies sf.cursor
  let i = sf.cursor
  ensures i == 0 ==> result == io.EOF && sf.cursor == i
  ensures i > 0 ==> result == nil && sf.cursor == i - 1
iface (sourceFile).unreadRune
  requires isStr(self)
  modifies S(self).cursor
  let i = S(self).cursor
  ensures i == 0 ==> result == io.EOF && S(self).cursor == i
  ensures i > 0 ==> result == nil && S(self).cursor == i - 1
iface (sourceFile).cursorOffset
  requires isStr(self)
  ensures result == S(self).cursor
iface (sourceFile).fileName
  requires isStr(self)
  ensures result == S(self).name
iface (sourceFile).offsetToRowCol
  params co
  requires isStr(self)
  ensures isPos(S(self), co, result)

# Forms ------------------------------------------------------------------------------
# What a form was made of. Factories are the environment: the forms they make
# keep what they were given, and only comments and white space are valueless.
logic fKind(f form.Form) int
logic fText(f form.Form) string
logic fNum(f form.Form) constant.Value
logic fSpan(f form.Form) form.SourcePosition
logic fLen(f form.Form) int
# The extent it was given: row and column of the start and of the end.
logic fR0(f form.Form) int
logic fC0(f form.Form) int
logic fR1(f form.Form) int
logic fC1(f form.Form) int
pred spanKept(f form.Form, span form.SourcePosition) bool = same(fSpan(f), span) && (is(span, *simpleSourceSpan) ==> fR0(f) == as(span, *simpleSourceSpan).s.row && fC0(f) == as(span, *simpleSourceSpan).s.col && fR1(f) == as(span, *simpleSourceSpan).e.row && fC1(f) == as(span, *simpleSourceSpan).e.col)
logic fSub(f form.Form, k int) form.Form
ghost fkErrors int  ## the number of factory calls that failed
iface (FormFactory).NewWhitespaceForm
  params value span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 1 && fText(result0) == value && spanKept(result0, span) && is(result0, form.Valueless)
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)
iface (FormFactory).NewCommentForm
  params value span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 2 && fText(result0) == value && spanKept(result0, span) && is(result0, form.Valueless)
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)
iface (FormFactory).NewStringForm
  params value span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 3 && fText(result0) == value && spanKept(result0, span) && !is(result0, form.Valueless)
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)
iface (FormFactory).NewSymbolForm
  params value span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 4 && fText(result0) == value && spanKept(result0, span) && !is(result0, form.Valueless)
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)
iface (FormFactory).NewNumberForm
  params value span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 5 && same(fNum(result0), value) && spanKept(result0, span) && !is(result0, form.Valueless)
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)
iface (FormFactory).NewList
  params forms span
  ensures result1 == nil ==> result0 != nil && fKind(result0) == 6 && spanKept(result0, span) && fLen(result0) == len(forms) && !is(result0, form.Valueless)
  ensures result1 == nil ==> (forall k int :: {fSub(result0, k)} 0 <= k && k < len(forms) ==> same(fSub(result0, k), forms[k]))
  ghostset fkErrors := ite(result1 == nil, fkErrors, fkErrors + 1)

# The grammar: where the form that begins at a place ends, or -1. ------------------------
pred isWS(r int) bool = r == ' ' || r == '\t' || r == '\n'
pred isDelim(r int) bool = isWS(r) || r == '(' || r == ')' || r == '"'
pred comment(a seq[rune], n int, i int) bool = a[i] == '/' && i + 1 < n && (a[i+1] == '/' || a[i+1] == '*')
logic chars(a seq[rune], i int, j int) string  ## the text from i to j
logic charsN(a seq[rune], i int, j int) string
axiom slash: forall r int :: {runestr(r)} r == 47 ==> runestr(r) == "/"
axiom chars-same: forall a seq[rune], i int, j int :: {chars(a, i, j)} chars(a, i, j) == charsN(a, i, j)
axiom chars-none: forall a seq[rune], i int, j int :: {charsN(a, i, j)} j <= i ==> charsN(a, i, j) == ""
axiom chars-step: forall a seq[rune], i int, j int :: {chars(a, i, j)} j > i ==> chars(a, i, j) == charsN(a, i, j-1) + runestr(a[j-1])
logic wsEnd(a seq[rune], n int, i int) int
logic wsEndN(a seq[rune], n int, i int) int
axiom ws-same: forall a seq[rune], n int, i int :: {wsEnd(a, n, i)} wsEnd(a, n, i) == wsEndN(a, n, i)
axiom ws-step: forall a seq[rune], n int, i int :: {wsEnd(a, n, i)} 0 <= i && i <= n ==> wsEnd(a, n, i) == ite(i < n && isWS(a[i]), wsEndN(a, n, i+1), i)
logic tokEnd(a seq[rune], n int, i int) int
logic tokEndN(a seq[rune], n int, i int) int
axiom tok-same: forall a seq[rune], n int, i int :: {tokEnd(a, n, i)} tokEnd(a, n, i) == tokEndN(a, n, i)
axiom tok-end: forall a seq[rune], n int, i int :: {tokEndN(a, n, i)} i == n ==> tokEndN(a, n, i) == i
axiom tok-step: forall a seq[rune], n int, i int :: {tokEnd(a, n, i)} 0 <= i && i <= n ==> tokEnd(a, n, i) == ite(i < n && !isDelim(a[i]) && !comment(a, n, i), tokEndN(a, n, i+1), i)
logic lineEnd(a seq[rune], n int, i int) int
logic lineEndN(a seq[rune], n int, i int) int
axiom line-same: forall a seq[rune], n int, i int :: {lineEnd(a, n, i)} lineEnd(a, n, i) == lineEndN(a, n, i)
axiom line-step: forall a seq[rune], n int, i int :: {lineEnd(a, n, i)} 0 <= i && i <= n ==> lineEnd(a, n, i) == ite(i < n && a[i] != '\n', lineEndN(a, n, i+1), i)
logic blockEnd(a seq[rune], n int, i int, star bool) int
logic blockEndN(a seq[rune], n int, i int, star bool) int
axiom block-same: forall a seq[rune], n int, i int, s bool :: {blockEnd(a, n, i, s)} blockEnd(a, n, i, s) == blockEndN(a, n, i, s)
axiom block-step: forall a seq[rune], n int, i int, s bool :: {blockEnd(a, n, i, s)} 0 <= i && i <= n ==> blockEnd(a, n, i, s) == ite(i >= n, 0-1, ite(a[i] == '/' && s, i + 1, blockEndN(a, n, i+1, a[i] == '*')))
# The end of a string from a place inside of it, and its text in quotes.
logic strEnd(a seq[rune], n int, i int, esc bool) int
logic strEndN(a seq[rune], n int, i int, esc bool) int
axiom str-same: forall a seq[rune], n int, i int, e bool :: {strEnd(a, n, i, e)} strEnd(a, n, i, e) == strEndN(a, n, i, e)
axiom str-step: forall a seq[rune], n int, i int, e bool :: {strEnd(a, n, i, e)} 0 <= i && i <= n ==> strEnd(a, n, i, e) == ite(i >= n || a[i] == '\n' && e, 0-1, ite(a[i] == '"' && !e, i + 1, strEndN(a, n, i+1, a[i] == '\\' && !e)))
logic quoted(a seq[rune], i int, j int) string
logic quotedN(a seq[rune], i int, j int) string
axiom quoted-same: forall a seq[rune], i int, j int :: {quoted(a, i, j)} quoted(a, i, j) == quotedN(a, i, j)
axiom quoted-none: forall a seq[rune], i int, j int :: {quotedN(a, i, j)} j <= i ==> quotedN(a, i, j) == ""
axiom quoted-step: forall a seq[rune], i int, j int :: {quoted(a, i, j)} j > i ==> quoted(a, i, j) == quotedN(a, i, j-1) + ite(a[j-1] == '\n', "\\n", runestr(a[j-1]))
logic unquoteOK(s string) bool
logic unquoteVal(s string) string
extern strconv.Unquote
  pureuf
  params s
  ensures result1 == nil <==> unquoteOK(s)
  ensures result1 == nil ==> result0 == unquoteVal(s)

# Numbers.
extern go/constant.MakeUint64
  pureuf
  params x
extern go/constant.MakeInt64
  pureuf
  params x
extern go/constant.MakeFloat64
  pureuf
  params x
logic isInf(f float64) bool
logic isNaN(f float64) bool
extern math.IsInf
  params f sign
  ensures sign == 0 ==> (result <==> isInf(f))
extern math.IsNaN
  params f
  ensures result <==> isNaN(f)
pred finite(s string) bool = floatOK(s, 64) && !isInf(floatVal(s, 64)) && !isNaN(floatVal(s, 64))
pred isNum(s string) bool = radixOK(s, 0, 64) || sradixOK(s, 0, 64) || finite(s)
pred badNum(s string) bool = !isNum(s) && reMatch(possibleNumberRegexp, s)
pred isConst(v constant.Value, s string) bool = ite(radixOK(s, 0, 64), same(v, constant.MakeUint64(radixVal(s, 0))), ite(sradixOK(s, 0, 64), same(v, constant.MakeInt64(sradixVal(s, 0))), same(v, constant.MakeFloat64(floatVal(s, 64)))))
func parseNumber
  properties S02
  ensures result1 != nil <==> badNum(s)
  ensures result0 != nil <==> isNum(s)
  ensures result0 != nil ==> fresh(result0)
  ensures radixOK(s, 0, 64) ==> result0.uint64 != nil && *result0.uint64 == radixVal(s, 0) && result0.int64 == nil && result0.float64 == nil
  ensures !radixOK(s, 0, 64) && sradixOK(s, 0, 64) ==> result0.int64 != nil && *result0.int64 == sradixVal(s, 0) && result0.uint64 == nil && result0.float64 == nil
  ensures !radixOK(s, 0, 64) && !sradixOK(s, 0, 64) && finite(s) ==> result0.float64 != nil && same(*result0.float64, floatVal(s, 64)) && result0.int64 == nil && result0.uint64 == nil
func (number).constValue
  properties S02
  requires n.uint64 != nil || n.int64 != nil || n.float64 != nil
  ensures n.float64 != nil ==> same(result, constant.MakeFloat64(*n.float64))
  ensures n.float64 == nil && n.int64 != nil ==> same(result, constant.MakeInt64(*n.int64))
  ensures n.float64 == nil && n.int64 == nil ==> same(result, constant.MakeUint64(*n.uint64))

# The grammar -------------------------------------------------------------------------
# What begins at i: white space, a comment, a string, a list, a quoted form or a token.
pred atWS(a seq[rune], n int, i int) bool = isWS(a[i])
pred quotedText(a seq[rune], n int, i int) string = "\"" + quoted(a, i+1, strEnd(a, n, i+1, false) - 1) + "\""
pred tokenAt(a seq[rune], n int, i int) string = chars(a, i, tokEnd(a, n, i))
pred valueless(a seq[rune], n int, i int) bool = isWS(a[i]) || comment(a, n, i)
logic fEnd(a seq[rune], n int, i int) int  ## the end of the form that begins at i, or -1
logic fEndN(a seq[rune], n int, i int) int
logic listEnd(a seq[rune], n int, i int) int  ## the end of a list from a place inside of it, or -1
logic listEndN(a seq[rune], n int, i int) int
logic skipTo(a seq[rune], n int, i int) int  ## the next place that is neither white space nor comment, or -1
logic skipToN(a seq[rune], n int, i int) int
axiom fend-same: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} fEnd(a, n, i) == fEndN(a, n, i)
axiom list-same: forall a seq[rune], n int, i int :: {listEnd(a, n, i)} listEnd(a, n, i) == listEndN(a, n, i)
axiom skip-same: forall a seq[rune], n int, i int :: {skipTo(a, n, i)} skipTo(a, n, i) == skipToN(a, n, i)
axiom fend-ws: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && isWS(a[i]) ==> fEnd(a, n, i) == wsEnd(a, n, i)
axiom fend-string: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && a[i] == '"' ==> fEnd(a, n, i) == ite(strEnd(a, n, i+1, false) >= 0 && unquoteOK(quotedText(a, n, i)), strEnd(a, n, i+1, false), 0-1)
axiom fend-list: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && a[i] == '(' ==> fEnd(a, n, i) == listEndN(a, n, i+1)
axiom fend-close: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && a[i] == ')' ==> fEnd(a, n, i) == 0-1
axiom fend-quote: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && a[i] == '\'' ==> fEnd(a, n, i) == ite(skipToN(a, n, i+1) < 0 || skipToN(a, n, i+1) >= n, 0-1, fEndN(a, n, skipToN(a, n, i+1)))
axiom fend-line: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && comment(a, n, i) && a[i+1] == '/' ==> fEnd(a, n, i) == lineEnd(a, n, i+2)
axiom fend-block: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && comment(a, n, i) && a[i+1] == '*' ==> fEnd(a, n, i) == blockEnd(a, n, i+2, false)
axiom fend-token: forall a seq[rune], n int, i int :: {fEnd(a, n, i)} 0 <= i && i < n && !isDelim(a[i]) && a[i] != '\'' && !comment(a, n, i) ==> fEnd(a, n, i) == ite(badNum(tokenAt(a, n, i)), 0-1, tokEnd(a, n, i))
axiom list-step: forall a seq[rune], n int, i int :: {listEnd(a, n, i)} 0 <= i && i <= n ==> listEnd(a, n, i) == ite(i >= n, 0-1, ite(a[i] == ')', i + 1, ite(fEndN(a, n, i) < 0, 0-1, listEndN(a, n, fEndN(a, n, i)))))
axiom skip-step: forall a seq[rune], n int, i int :: {skipTo(a, n, i)} 0 <= i && i <= n ==> skipTo(a, n, i) == ite(i < n && valueless(a, n, i), ite(fEndN(a, n, i) < 0, 0-1, skipToN(a, n, fEndN(a, n, i))), i)

# Where the k-th form of a list begins, the list's inside beginning at i.
logic kid(a seq[rune], n int, i int, k int) int
logic kidN(a seq[rune], n int, i int, k int) int
axiom kid-same: forall a seq[rune], n int, i int, k int :: {kid(a, n, i, k)} kid(a, n, i, k) == kidN(a, n, i, k)
axiom kid-first: forall a seq[rune], n int, i int :: {kid(a, n, i, 0)} kid(a, n, i, 0) == i
axiom kid-step: forall a seq[rune], n int, i int, k int :: {kid(a, n, i, k)} k > 0 ==> kid(a, n, i, k) == fEndN(a, n, kidN(a, n, i, k-1))

# The column of a place is the distance to the start of its row.
pred isCol(a seq[rune], o int, c int) bool = 0 <= c && c <= o && (o - c == 0 || a[o-c-1] == '\n') && (forall k int :: {a[k]} o - c <= k && k < o ==> a[k] != '\n' && rows(a, k+1) == rows(a, k))
pred extent(f form.Form, a seq[rune], i int, j int) bool = fR0(f) == rows(a, i) && isCol(a, i, fC0(f)) && fR1(f) == rows(a, j) && isCol(a, j, fC1(f))
lemma column [S01]: forall sf *strSourceFile, o int, rc rowCol :: sfOK(sf) && inText(sf, o) && isPos(sf, o, rc) ==> isCol(text(sf), o, rc.col)

# The form f is what is written at i.
logic formIs(f form.Form, a seq[rune], n int, i int) bool
logic formIsN(f form.Form, a seq[rune], n int, i int) bool
axiom form-same: forall f form.Form, a seq[rune], n int, i int :: {formIs(f, a, n, i)} formIs(f, a, n, i) <==> formIsN(f, a, n, i)
axiom form-is: forall f form.Form, a seq[rune], n int, i int :: {formIs(f, a, n, i), fKind(f)} formIs(f, a, n, i) <==> (0 <= i && i < n && i < fEnd(a, n, i) && fEnd(a, n, i) <= n && f != nil && (is(f, form.Valueless) <==> valueless(a, n, i)) && extent(f, a, i, fEnd(a, n, i)) && (isWS(a[i]) ==> fKind(f) == 1 && fText(f) == chars(a, i, fEnd(a, n, i))) && (comment(a, n, i) ==> fKind(f) == 2 && fText(f) == chars(a, i, fEnd(a, n, i))) && (a[i] == '"' ==> fKind(f) == 3 && fText(f) == unquoteVal(quotedText(a, n, i))) && (a[i] == '(' ==> fKind(f) == 6 && fLen(f) >= 0 && a[fEnd(a, n, i) - 1] == ')' && kid(a, n, i+1, fLen(f)) == fEnd(a, n, i) - 1 && (forall k int :: {fSub(f, k)} 0 <= k && k < fLen(f) ==> formIsN(fSub(f, k), a, n, kid(a, n, i+1, k)))) && (a[i] == '\'' ==> fKind(f) == 6 && fLen(f) == 2 && fKind(fSub(f, 0)) == 4 && fText(fSub(f, 0)) == "QUOTE" && extent(fSub(f, 0), a, i, i+1) && formIsN(fSub(f, 1), a, n, skipTo(a, n, i+1)) && fEnd(a, n, i) == fEnd(a, n, skipTo(a, n, i+1))) && (!isDelim(a[i]) && a[i] != '\'' && !comment(a, n, i) ==> ite(isNum(tokenAt(a, n, i)), fKind(f) == 5 && isConst(fNum(f), tokenAt(a, n, i)), fKind(f) == 4 && fText(f) == tokenAt(a, n, i))))

# The reader -----------------------------------------------------------------------------
pred frOK(fr *FormReader) bool = fr != nil && isStr(fr.src) && fr.factory != nil && (forall r int :: {has(fr.readTable, r)} has(fr.readTable, r) <==> r == '\'') && fr.readTable['\''] != nil
pred A(fr *FormReader) seq[rune] = contents(S(fr.src).runes)
pred N(fr *FormReader) int = len(S(fr.src).runes)
pred at(fr *FormReader) int = S(fr.src).cursor
pred readOK(fr *FormReader, i int, f form.Form) bool = i < at(fr) && at(fr) <= N(fr) && at(fr) == fEnd(A(fr), N(fr), i) && f != nil && (is(f, form.Valueless) <==> valueless(A(fr), N(fr), i)) && formIs(f, A(fr), N(fr), i)
func (*FormReader).makeSpan
  properties S01 S02
  requires frOK(fr)
  ensures result != nil && fresh(result) && result.name == S(fr.src).name && isPos(S(fr.src), start, result.s) && isPos(S(fr.src), end, result.e) && (inText(S(fr.src), start) ==> isCol(A(fr), start, result.s.col)) && (inText(S(fr.src), end) ==> isCol(A(fr), end, result.e.col))
func (*FormReader).readWhitespace
  properties S01 S02
  requires frOK(fr) && at(fr) < N(fr) && isWS(A(fr)[at(fr)])
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> readOK(fr, i, result0)
  ensures result1 != nil ==> fkErrors > old(fkErrors)
  loop 1 invariant frOK(fr) && i <= at(fr) && wsEnd(A(fr), N(fr), at(fr)) == wsEnd(A(fr), N(fr), i)
  loop 1 invariant literal == chars(A(fr), i, at(fr))
  loop 1 invariant at(fr) > i ==> len(literal) > 0
func (*FormReader).readString
  properties S01 S02
  requires frOK(fr) && at(fr) < N(fr) && A(fr)[at(fr)] == '"'
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> readOK(fr, i, result0)
  ensures result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
  loop 1 invariant frOK(fr) && i < at(fr) && at(fr) <= N(fr) && strEnd(A(fr), N(fr), at(fr), prevCharWasEscape) == strEnd(A(fr), N(fr), i+1, false)
  loop 1 invariant value == "\"" + quoted(A(fr), i+1, at(fr))
func (*FormReader).readPossibleComment
  properties S01 S02
  requires frOK(fr) && 0 < at(fr) && A(fr)[at(fr)-1] == '/' && start == at(fr) - 1 && chars(A(fr), at(fr)-1, at(fr)) == "/"
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr) - 1
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result2 == nil ==> (result1 <==> comment(A(fr), N(fr), i))
  ensures result2 == nil && result1 ==> readOK(fr, i, result0)
  ensures result2 == nil && !result1 ==> at(fr) == i + 1 && fkErrors == old(fkErrors)
  ensures result2 != nil ==> comment(A(fr), N(fr), i) && fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
  anyloop frOK(fr)
  anyloop i + 2 <= at(fr) && at(fr) <= N(fr) && fkErrors == old(fkErrors)
  anyloop comment(A(fr), N(fr), i)
  anyloop contents == chars(A(fr), i, at(fr))
  anyloop A(fr)[i+1] == '/'
  anyloop A(fr)[i+1] == '*'
  anyloop lineEnd(A(fr), N(fr), at(fr)) == lineEnd(A(fr), N(fr), i+2)
  anyloop blockEnd(A(fr), N(fr), at(fr), prevRuneWasStar) == blockEnd(A(fr), N(fr), i+2, false)
func (*FormReader).makeFormFromSymbolOrNumberToken
  properties S01 S02
  requires frOK(fr)
  modifies fkErrors
  ensures fkErrors >= old(fkErrors)
  ensures result1 == nil ==> result0 != nil && !badNum(token) && !is(result0, form.Valueless) && ite(isNum(token), fKind(result0) == 5 && isConst(fNum(result0), token), fKind(result0) == 4 && fText(result0) == token)
  ensures result1 == nil && inText(S(fr.src), start) && inText(S(fr.src), end) ==> extent(result0, A(fr), start, end)
  ensures result1 != nil ==> badNum(token) || fkErrors > old(fkErrors)
func (*FormReader).makeFormFromReaderRequiredSymbol
  properties S01 S02
  requires frOK(fr)
  modifies fkErrors
  ensures fkErrors >= old(fkErrors)
  ensures result1 == nil ==> result0 != nil && !is(result0, form.Valueless) && fKind(result0) == 4 && fText(result0) == rr
  ensures result1 == nil && inText(S(fr.src), start) && inText(S(fr.src), end) ==> extent(result0, A(fr), start, end)
  ensures result1 != nil ==> fkErrors > old(fkErrors)
pred isTok(a seq[rune], n int, i int) bool = !isDelim(a[i]) && a[i] != '\'' && !comment(a, n, i)
func (*FormReader).readNumberSymbolOrComment
  properties S01 S02
  requires frOK(fr) && at(fr) < N(fr) && (A(fr)[at(fr)] == ')' || comment(A(fr), N(fr), at(fr)) || isTok(A(fr), N(fr), at(fr)))
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> readOK(fr, i, result0)
  ensures result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
  loop 1 invariant frOK(fr)
  loop 1 invariant i <= at(fr) && at(fr) <= N(fr)
  loop 1 invariant fkErrors == old(fkErrors)
  loop 1 invariant tokEnd(A(fr), N(fr), at(fr)) == tokEnd(A(fr), N(fr), i)
  loop 1 invariant literal == chars(A(fr), i, at(fr))
  loop 1 invariant at(fr) > i ==> len(literal) > 0
  loop 1 invariant at(fr) == i ==> len(literal) == 0
  loop 1 invariant at(fr) > i ==> isTok(A(fr), N(fr), i)
func (*FormReader).readList
  properties S01 S02
  requires frOK(fr) && at(fr) < N(fr) && A(fr)[at(fr)] == '('
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> readOK(fr, i, result0)
  ensures result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
  loop 1 invariant frOK(fr) && i < at(fr) && at(fr) <= N(fr) && fkErrors >= old(fkErrors)
  loop 1 invariant listEnd(A(fr), N(fr), at(fr)) == listEnd(A(fr), N(fr), i+1)
  loop 1 invariant forms == nil || fresh(forms)
  loop 1 invariant at(fr) == kid(A(fr), N(fr), i+1, len(forms))
  loop 1 invariant forall k int :: {forms[k]} 0 <= k && k < len(forms) ==> formIs(forms[k], A(fr), N(fr), kid(A(fr), N(fr), i+1, k))
func (*FormReader).readFormEvenTrivial
  properties S01 S02
  requires frOK(fr)
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures i >= N(fr) ==> result1 == io.EOF && at(fr) == i
  ensures i < N(fr) && result1 == nil ==> readOK(fr, i, result0)
  ensures i < N(fr) && result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
func (*FormReader).ReadForm
  properties S01 S02
  requires frOK(fr)
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  let p = skipTo(A(fr), N(fr), at(fr))
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> i <= p && p < N(fr) && readOK(fr, p, result0) && !valueless(A(fr), N(fr), p)
  ensures p == N(fr) && fkErrors == old(fkErrors) ==> result1 == io.EOF
  ensures result1 != nil ==> p < 0 || p == N(fr) || fEnd(A(fr), N(fr), p) < 0 || fkErrors > old(fkErrors)
  loop 1 invariant frOK(fr) && i <= at(fr) && at(fr) <= N(fr) && fkErrors >= old(fkErrors)
  loop 1 invariant skipTo(A(fr), N(fr), at(fr)) == p

# Quotes: the handlers of the reader's table.
iface (ReaderMacroResult).Skip
  requires is(self, *simpleReaderMacroResult) && as(self, *simpleReaderMacroResult) != nil
  ensures result == as(self, *simpleReaderMacroResult).skip
iface (ReaderMacroResult).Form
  requires is(self, *simpleReaderMacroResult) && as(self, *simpleReaderMacroResult) != nil
  ensures same(result, as(self, *simpleReaderMacroResult).form)
func (simpleReaderMacroResult).Skip
  properties S02
  ensures result == r.skip
func (simpleReaderMacroResult).Form
  properties S02
  ensures same(result, r.form)
fnval func(*sexpr.FormReader) (sexpr.ReaderMacroResult, error)
  params fr
  requires frOK(fr) && at(fr) < N(fr) && A(fr)[at(fr)] == '\''
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> is(result0, *simpleReaderMacroResult) && as(result0, *simpleReaderMacroResult) != nil && !as(result0, *simpleReaderMacroResult).skip && readOK(fr, i, as(result0, *simpleReaderMacroResult).form)
  ensures result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)
func registerQuoteMacroChars$[func(*sexpr.FormReader) (sexpr.ReaderMacroResult, error)]
  properties S01 S02
  requires frOK(fr) && at(fr) < N(fr) && A(fr)[at(fr)] == '\''
  modifies S(fr.src).cursor, fkErrors
  let i = at(fr)
  ensures frOK(fr) && fkErrors >= old(fkErrors)
  ensures result1 == nil ==> is(result0, *simpleReaderMacroResult) && as(result0, *simpleReaderMacroResult) != nil && !as(result0, *simpleReaderMacroResult).skip && readOK(fr, i, as(result0, *simpleReaderMacroResult).form)
  ensures result1 != nil ==> fEnd(A(fr), N(fr), i) < 0 || fkErrors > old(fkErrors)

func newFormReader
  properties S01 S02
  ensures frOK(result) && fresh(result) && at(result) == 0 && A(result) == runes(code) && N(result) == runecount(code) && S(result.src).name == name
iface (Option).apply
  params fr
  requires frOK(fr)
  modifies fr.factory
  ensures fr.factory != nil
func NewFileReader
  properties S01 S02
  requires forall k int :: {opts[k]} 0 <= k && k < len(opts) ==> opts[k] != nil
  ensures frOK(result) && at(result) == 0 && A(result) == runes(contents) && N(result) == runecount(contents) && S(result.src).name == fileName
  loop 1 invariant frOK(fr)

# The default factory keeps what it is given, and its lists have the forms that have values.
logic valued(a seq[form.Form], n int) int
logic valuedN(a seq[form.Form], n int) int
axiom valued-same: forall a seq[form.Form], n int :: {valued(a, n)} valued(a, n) == valuedN(a, n)
axiom valued-none: forall a seq[form.Form], n int :: {valued(a, n)} n <= 0 ==> valued(a, n) == 0
axiom valued-step: forall a seq[form.Form], n int :: {valued(a, n)} n > 0 ==> valued(a, n) == valuedN(a, n-1) + ite(is(a[n-1], form.Valueless), 0, 1)
func (*defaultFactory).NewList
  properties S02
  requires forall k int :: {forms[k]} 0 <= k && k < len(forms) ==> forms[k] != nil
  let n = len(forms)
  ensures result1 == nil && is(result0, *list) && fresh(as(result0, *list)) && same(as(result0, *list).span, span)
  ensures len(as(result0, *list).val) == valued(contents(forms), n)
  ensures forall k int :: {forms[k]} 0 <= k && k < n && !is(forms[k], form.Valueless) ==> 0 <= valued(contents(forms), k) && valued(contents(forms), k) < len(as(result0, *list).val) && same(as(result0, *list).val[valued(contents(forms), k)], forms[k])
  loop 1 invariant valueForms == nil || fresh(valueForms)
  loop 1 invariant len(valueForms) == valued(contents(forms), $i)
  loop 1 invariant forall k int :: {valued(contents(forms), k)} 0 <= k && k <= $i ==> 0 <= valued(contents(forms), k) && valued(contents(forms), k) <= valued(contents(forms), $i)
  loop 1 invariant forall k int :: {forms[k]} 0 <= k && k < $i && !is(forms[k], form.Valueless) ==> valued(contents(forms), k) < len(valueForms) && same(valueForms[valued(contents(forms), k)], forms[k])
func (*defaultFactory).NewStringForm
  properties S02
  ensures result1 == nil && is(result0, *stringForm) && fresh(as(result0, *stringForm)) && as(result0, *stringForm).val == value && same(as(result0, *stringForm).span, span)
func (*defaultFactory).NewCommentForm
  properties S02
  ensures result1 == nil && is(result0, *commentForm) && fresh(as(result0, *commentForm)) && as(result0, *commentForm).literal == value && same(as(result0, *commentForm).span, span)
func (*defaultFactory).NewWhitespaceForm
  properties S02
  ensures result1 == nil && is(result0, *whitespaceForm) && fresh(as(result0, *whitespaceForm)) && as(result0, *whitespaceForm).literal == value && same(as(result0, *whitespaceForm).span, span)
func (*defaultFactory).NewNumberForm
  properties S02
  ensures result1 == nil && is(result0, *numberForm) && fresh(as(result0, *numberForm)) && same(as(result0, *numberForm).val, value) && same(as(result0, *numberForm).span, span)
func (*defaultFactory).NewSymbolForm
  properties S02
  ensures result1 == nil && is(result0, *symbolForm) && fresh(as(result0, *symbolForm)) && as(result0, *symbolForm).literal == value && same(as(result0, *symbolForm).span, span)
func (*stringForm).StringValue
  properties S02
  requires f != nil
  ensures result == f.val
func (*symbolForm).SymbolLiteral
  properties S02
  requires f != nil
  ensures result == f.literal
func (*numberForm).Number
  properties S02
  requires f != nil
  ensures same(result, f.val)
func (*commentForm).CommentLiteral
  properties S02
  requires f != nil
  ensures result == f.literal
func (*whitespaceForm).Whitespace
  properties S02
  requires f != nil
  ensures result == f.literal
func (*list).Len
  properties S02
  requires f != nil
  ensures result == len(f.val)
func (*list).Nth
  properties S02
  requires f != nil && 0 <= n && n < len(f.val)
  ensures same(result, f.val[n])
func (*list).Subforms
  properties S02
  requires f != nil
  ensures same(result, f.val)
func (*list).SourcePosition
  properties S01
  requires f != nil
  ensures same(result, f.span)
func (*stringForm).SourcePosition
  properties S01
  requires f != nil
  ensures same(result, f.span)
func (*symbolForm).SourcePosition
  properties S01
  requires f != nil
  ensures same(result, f.span)
func (*numberForm).SourcePosition
  properties S01
  requires f != nil
  ensures same(result, f.span)
