package codegen

# The import table: no two entries are referred to by the same name, except
# blank imports; entries are never nil and never change once recorded.
pred defsOK(i *Imports) = (forall k int :: {i.defs[k]} 0 <= k && k < len(i.defs) ==> i.defs[k] != nil)
  && (forall j int, k int :: {i.defs[j], i.defs[k]} 0 <= j && j < k && k < len(i.defs) && i.defs[j].packageName == i.defs[k].packageName ==> i.defs[j].packageName == "_")
pred importsOK(i *Imports) = i != nil && defsOK(i) && i.customSuggestAliases == nil
pred defAs(i *Imports, k int, p string, n string, al bool) = i.defs[k].path == p && i.defs[k].packageName == n && i.defs[k].isAlias == al
pred recorded(i *Imports, r *Import) = exists k int :: 0 <= k && k < len(i.defs) && defAs(i, k, r.path, r.packageName, r.isAlias)
pred hasPath(i *Imports, p string) = exists k int :: 0 <= k && k < len(i.defs) && i.defs[k].path == p

guarded Imports.defs by lock

func zzNewImports
  properties G01
  ensures importsOK(result) && fresh(result) && len(result.defs) == 0

func (lockedImports).findByImportPath
  properties G01
  requires i.i != nil && defsOK(i.i) && lockstate(i.i.lock) == -1
  ensures found: result != nil ==> exists k int :: 0 <= k && k < len(i.i.defs) && i.i.defs[k] == result && result.path == importPath && (forall j int :: {i.i.defs[j]} 0 <= j && j < k ==> i.i.defs[j].path != importPath)
  ensures none: result == nil ==> forall k int :: {i.i.defs[k]} 0 <= k && k < len(i.i.defs) ==> i.i.defs[k].path != importPath
  loop 1 invariant forall k int :: {i.i.defs[k]} 0 <= k && k < $i ==> i.i.defs[k].path != importPath

func (lockedImports).findByPackageName
  properties G01
  requires i.i != nil && defsOK(i.i) && lockstate(i.i.lock) == -1
  ensures found: result != nil ==> exists k int :: 0 <= k && k < len(i.i.defs) && i.i.defs[k] == result && result.packageName == packageName && (forall j int :: {i.i.defs[j]} 0 <= j && j < k ==> i.i.defs[j].packageName != packageName)
  ensures none: result == nil ==> forall k int :: {i.i.defs[k]} 0 <= k && k < len(i.i.defs) ==> i.i.defs[k].packageName != packageName
  loop 1 invariant forall k int :: {i.i.defs[k]} 0 <= k && k < $i ==> i.i.defs[k].packageName != packageName

func (*Imports).FindByImportPath
  properties G01 T03
  requires importsOK(i) && lockstate(i.lock) == 0
  ensures found: result != nil ==> recorded(i, result) && result.path == importPath
  ensures none: result == nil ==> !hasPath(i, importPath)

func (*Imports).FindByPackageName
  properties G01 T03
  requires importsOK(i) && lockstate(i.lock) == 0
  ensures found: result != nil ==> recorded(i, result) && result.packageName == packageName
  ensures none: result == nil ==> forall k int :: {i.defs[k]} 0 <= k && k < len(i.defs) ==> i.defs[k].packageName != packageName

func (*Imports).RegisterAliased
  properties G01 T03
  requires importsOK(i) && lockstate(i.lock) == 0
  modifies i.defs, elems(i.defs)
  let n = len(i.defs)
  let taken = exists k int :: 0 <= k && k < len(i.defs) && i.defs[k].packageName == alias && i.defs[k].path != importPath
  ensures invariant: importsOK(i)
  ensures kept: forall k int :: 0 <= k && k < n ==> i.defs[k] == old(i.defs[k])
  ensures refused: result1 != nil ==> result0 == nil && same(i.defs, old(i.defs))
  ensures reason: alias != "_" ==> ((result1 != nil) <==> (alias == "" || taken))
  ensures recorded: result1 == nil ==> result0 != nil && result0.path == importPath && result0.packageName == alias && recorded(i, result0)
  ensures once: len(i.defs) <= n + 1
  ensures same: old(exists k int :: 0 <= k && k < len(i.defs) && i.defs[k].packageName == alias && i.defs[k].path == importPath) && alias != "_" ==> len(i.defs) == n

func (*Imports).registerUnaliased
  properties G01 T03
  purefn *
  requires importsOK(i) && lockstate(i.lock) == 0
  modifies i.defs, elems(i.defs)
  let n = len(i.defs)
  ensures invariant: importsOK(i)
  ensures kept: forall k int :: 0 <= k && k < n ==> i.defs[k] == old(i.defs[k])
  ensures refused: result1 != nil ==> result0 == nil && same(i.defs, old(i.defs))
  ensures reason: result1 != nil ==> exists k int :: 0 <= k && k < len(i.defs) && i.defs[k].packageName == i.AssumedPackageName(importPath)
  ensures recorded: result1 == nil ==> result0 != nil && result0.path == importPath && recorded(i, result0) && !result0.isAlias && result0.packageName == i.AssumedPackageName(importPath)
  ensures once: len(i.defs) <= n + 1

func (*Imports).Register
  properties G01 T03
  purefn *
  requires importsOK(i) && lockstate(i.lock) == 0
  modifies i.defs, elems(i.defs)
  maypanic !hasPath(i, importPath)
  let n = len(i.defs)
  ensures invariant: importsOK(i)
  ensures kept: forall k int :: 0 <= k && k < n ==> i.defs[k] == old(i.defs[k])
  ensures recorded: result != nil && result.path == importPath && recorded(i, result)
  ensures again: old(hasPath(i, importPath)) ==> same(i.defs, old(i.defs))
  anyloop same(i.defs, old(i.defs))
  anyloop forall k int :: {i.defs[k]} 0 <= k && k < n ==> i.defs[k] == old(i.defs[k])
  anyloop importsOK(i)
  ensures once: !old(hasPath(i, importPath)) ==> len(i.defs) == n + 1 && i.defs[n].path == importPath

func (*Import).Path
  properties G01
  requires s != nil
  ensures result == s.path
func (*Import).PackageName
  properties G01
  requires s != nil
  ensures result == s.packageName
func (*Import).Alias
  properties G01
  requires s != nil
  ensures result == ite(s.isAlias, s.packageName, "")

func GoToolsAssumedPackageName
  properties G01
  pureuf

func (*Import).GoFragment
  properties G01
  requires s != nil
  ensures result == ite(s.isAlias, s.packageName + " " + strconv.Quote(s.path), strconv.Quote(s.path))
