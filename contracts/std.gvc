# Contracts assumed of the standard library.
package std

extern sort.Strings
  params x
  modifies elems(x)
  ensures forall i int :: {x[i]} 0 <= i && i < len(x) ==> exists j int :: 0 <= j && j < len(x) && x[i] == old(x[j])
  ensures forall j int :: {old(x[j])} 0 <= j && j < len(x) ==> exists i int :: 0 <= i && i < len(x) && x[i] == old(x[j])
  ensures (forall i int, j int :: {old(x[i]), old(x[j])} 0 <= i && i < j && j < len(x) ==> old(x[i]) != old(x[j])) ==> (forall i int, j int :: {x[i], x[j]} 0 <= i && i < j && j < len(x) ==> x[i] != x[j])

# Regular expressions: what is matched depends on the expression and the text.
logic reMatch(re *regexp.Regexp, s string) bool
logic reGroup(re *regexp.Regexp, s string, i int) string
logic reGroups(re *regexp.Regexp) int
logic reStart(re *regexp.Regexp, s string) int
extern (*regexp.Regexp).FindStringSubmatch
  params re s
  ensures (len(result) > 0) <==> reMatch(re, s)
  ensures (result == nil) <==> !reMatch(re, s)
  ensures reMatch(re, s) ==> len(reGroup(re, s, 0)) <= len(s)
  ensures len(result) > 0 ==> fresh(result) && len(result) == reGroups(re) + 1
  ensures forall i int :: {result[i]} 0 <= i && i < len(result) ==> result[i] == reGroup(re, s, i)
extern (*regexp.Regexp).FindStringIndex
  params re s
  ensures len(result) == 0 || len(result) == 2 && fresh(result) && 0 <= result[0] && result[0] <= result[1] && result[1] <= len(s)
  ensures (len(result) == 2) <==> reMatch(re, s)
  ensures len(result) == 2 ==> s[result[0]:result[1]] == reGroup(re, s, 0)
  ensures len(result) == 2 ==> result[0] == reStart(re, s)
extern (*regexp.Regexp).MatchString
  params re s
  ensures result <==> reMatch(re, s)
# All matches, one after another.
logic faCount(re *regexp.Regexp, s string) int
logic faGroup(re *regexp.Regexp, s string, i int, g int) string
extern (*regexp.Regexp).FindAllStringSubmatch
  params re s n
  ensures n < 0 ==> len(result) == faCount(re, s)
  ensures forall i int :: {result[i]} 0 <= i && i < len(result) ==> fresh(result[i]) && len(result[i]) == reGroups(re) + 1
  ensures forall i int, g int :: {result[i][g]} 0 <= i && i < len(result) && 0 <= g && g <= reGroups(re) ==> result[i][g] == faGroup(re, s, i, g)
extern unicode/utf8.ValidRune
  pureuf
  params r
  ensures result <==> 0 <= r && r < 0xD800 || 0xDFFF < r && r <= 0x10FFFF
extern encoding/json.Marshal
  params v
  ensures is(v, []string) ==> result1 == nil
