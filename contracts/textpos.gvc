package textpos

# A file of a set: its positions are [base, base+size] and fit in an int,
# with one value to spare for the base of the next file.
pred fileOK(f *File) = f != nil && f.base >= 1 && f.size >= 0 && f.base + f.size < maxInt

# The set invariant: ranges are disjoint, ordered by addition, below s.base.
pred filesOK(s *FileSet) = (forall i int :: {s.files[i]} 0 <= i && i < len(s.files) ==> fileOK(s.files[i]) && s.files[i].base + s.files[i].size < s.base)
  && (forall i int, j int :: {s.files[i], s.files[j]} 0 <= i && i < j && j < len(s.files) ==> s.files[i].base + s.files[i].size < s.files[j].base)
pred inSet(s *FileSet, f *File) = exists k int :: 0 <= k && k < len(s.files) && s.files[k] == f
pred setOK(s *FileSet) = s != nil && s.base >= 1 && filesOK(s) && (s.last == nil || inSet(s, s.last))
pred covers(f *File, p int) = f.base <= p && p <= f.base + f.size

guarded FileSet.base by mutex rw
guarded FileSet.files by mutex rw
guarded FileSet.last by mutex rw
guarded File.lines by mutex
guarded File.infos by mutex

func NewFileSet
  properties T01
  ensures setOK(result) && fresh(result) && len(result.files) == 0

func (*FileSet).Base
  properties T01 T03
  requires s != nil && lockstate(s.mutex) == 0
  ensures result == s.base

func (*FileSet).AddFile
  properties T01 T03
  requires setOK(s) && lockstate(s.mutex) == 0
  let b = ite(base < 0, s.base, base)
  modifies s.base, s.files, s.last, elems(s.files)
  panics rejects: b < s.base || size < 0 || b + size + 1 > maxInt
  onpanic unchanged: s.base == old(s.base) && same(s.files, old(s.files)) && s.last == old(s.last)
  onpanic unchanged: forall i int :: 0 <= i && i < len(s.files) ==> s.files[i] == old(s.files[i])
  ensures invariant: setOK(s)
  ensures appended: len(s.files) == old(len(s.files)) + 1 && s.files[len(s.files)-1] == result
  ensures kept: forall i int :: 0 <= i && i < old(len(s.files)) ==> s.files[i] == old(s.files[i])
  ensures range: result.base == b && result.size == size && s.base == b + size + 1
  ensures result: fresh(result) && fileOK(result) && result.name == filename && result.set == s

func (*FileSet).file
  properties T01 T03
  requires setOK(s) && lockstate(s.mutex) == 0
  modifies s.last
  ensures invariant: setOK(s)
  ensures found: result != nil ==> inSet(s, result) && covers(result, p)
  ensures none: result == nil ==> forall i int :: {s.files[i]} 0 <= i && i < len(s.files) ==> !covers(s.files[i], p)

func (*FileSet).File
  properties T01 T03
  requires setOK(s) && lockstate(s.mutex) == 0
  modifies s.last
  ensures invariant: setOK(s)
  ensures found: f != nil ==> inSet(s, f) && covers(f, p)
  ensures none: f == nil ==> forall i int :: {s.files[i]} 0 <= i && i < len(s.files) ==> !covers(s.files[i], p)

# The lookup is a function of the position alone: two files of a set that
# cover a position are the same file.
lemma lookup_unique [T01]: forall s *FileSet, f *File, g *File, p int :: setOK(s) && inSet(s, f) && inSet(s, g) && covers(f, p) && covers(g, p) ==> f == g

func (*File).Name
  properties T01
  requires f != nil
  ensures result == f.name
func (*File).Base
  properties T01
  requires f != nil
  ensures result == f.base
func (*File).Size
  properties T01
  requires f != nil
  ensures result == f.size

func (*File).Pos
  properties T01
  requires fileOK(f)
  maypanic offset < 0
  panics offset > f.size
  ensures offset >= 0 ==> result == f.base + offset && covers(f, result) && result != NoPos

func (*File).Offset
  properties T01
  requires fileOK(f)
  panics !covers(f, p)
  ensures result == p - f.base && 0 <= result && result <= f.size

# Line tables ---------------------------------------------------------------

# The line table is strictly increasing and inside the file; the table {0}
# is allowed for every file.
pred sortedInts(a []int) = forall i int, j int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) ==> a[i] < a[j]
pred inFile(f *File, a []int) = forall i int :: {a[i]} 0 <= i && i < len(a) ==> a[i] < f.size || (i == 0 && a[i] == 0)
pred linesOK(f *File) = f != nil && sortedInts(f.lines) && inFile(f, f.lines)
pred infosOK(f *File) = f != nil && (forall i int, j int :: {f.infos[i], f.infos[j]} 0 <= i && i < j && j < len(f.infos) ==> f.infos[i].Offset < f.infos[j].Offset)
# n is the number of entries of the line table at or before offset x
pred countLE(a []int, x int, n int) = 0 <= n && n <= len(a)
  && (forall k int :: {a[k]} 0 <= k && k < n ==> a[k] <= x)
  && (forall k int :: {a[k]} n <= k && k < len(a) ==> a[k] > x)

func searchInts
  properties T02
  requires sortedInts(a)
  ensures countLE(a, x, result + 1)
  loop 1 invariant 0 <= i && i <= j && j <= len(a)
  loop 1 invariant forall k int :: {a[k]} 0 <= k && k < i ==> a[k] <= x
  loop 1 invariant forall k int :: {a[k]} j <= k && k < len(a) ==> a[k] > x

func (*File).LineCount
  properties T02 T03
  requires f != nil && lockstate(f.mutex) == 0
  ensures result == len(f.lines)

func (*File).AddLine
  properties T02 T03
  requires linesOK(f) && lockstate(f.mutex) == 0
  modifies f.lines, elems(f.lines)
  let n = len(f.lines)
  let accept = (n == 0 || f.lines[n-1] < offset) && offset < f.size
  ensures table: linesOK(f)
  ensures ignored: !accept ==> same(f.lines, old(f.lines))
  ensures accepted: accept ==> len(f.lines) == n + 1 && f.lines[n] == offset
  ensures kept: forall i int :: 0 <= i && i < n ==> f.lines[i] == old(f.lines[i])

func (*File).MergeLine
  properties T02 T03
  requires linesOK(f) && lockstate(f.mutex) == 0
  modifies f.lines, elems(f.lines)
  let n = len(f.lines)
  panics invalid: line < 1 || line >= n
  onpanic same(f.lines, old(f.lines)) && (forall i int :: 0 <= i && i < n ==> f.lines[i] == old(f.lines[i]))
  ensures table: sortedInts(f.lines)
  ensures removed: len(f.lines) == n - 1
  ensures before: forall i int :: 0 <= i && i < line ==> f.lines[i] == old(f.lines[i])
  ensures after: forall i int :: line <= i && i < n - 1 ==> f.lines[i] == old(f.lines[i+1])

func (*File).SetLines
  properties T02 T03
  requires f != nil && lockstate(f.mutex) == 0
  modifies f.lines
  ensures set: result ==> same(f.lines, lines) && sortedInts(f.lines) && (forall i int :: 0 <= i && i < len(lines) ==> lines[i] < f.size)
  ensures refused: !result ==> same(f.lines, old(f.lines))
  ensures reason: !result ==> exists i int :: 0 <= i && i < len(lines) && (lines[i] >= f.size || (i > 0 && lines[i] <= lines[i-1]))
  loop 1 invariant forall a int, b int :: {lines[a], lines[b]} 0 <= a && a < b && b < $i ==> lines[a] < lines[b]
  loop 1 invariant forall a int :: {lines[a]} 0 <= a && a < $i ==> lines[a] < f.size

# The table built from content: exactly the offsets that start a non-empty line.
pred lineStartAt(content []byte, o int) = 0 <= o && o < len(content) && (o == 0 || content[o-1] == 10)
func (*File).SetLinesForContent
  properties T02 T03
  requires f != nil && lockstate(f.mutex) == 0
  modifies f.lines
  ensures sound: forall i int :: {f.lines[i]} 0 <= i && i < len(f.lines) ==> lineStartAt(content, f.lines[i])
  ensures complete: forall o int :: lineStartAt(content, o) ==> exists i int :: 0 <= i && i < len(f.lines) && f.lines[i] == o
  ensures table: sortedInts(f.lines)
  ensures own: fresh(f.lines) || len(f.lines) == 0
  loop 1 invariant $i == 0 ==> line == 0
  loop 1 invariant $i > 0 ==> (line == $i && content[$i-1] == 10) || (line == -1 && content[$i-1] != 10)
  loop 1 invariant forall i int :: {lines[i]} 0 <= i && i < len(lines) ==> 0 <= lines[i] && lines[i] < $i && lineStartAt(content, lines[i])
  loop 1 invariant forall i int, j int :: {lines[i], lines[j]} 0 <= i && i < j && j < len(lines) ==> lines[i] < lines[j]
  loop 1 invariant forall o int :: 0 <= o && o < $i && lineStartAt(content, o) ==> exists i int :: 0 <= i && i < len(lines) && lines[i] == o

func (*File).LineStart
  properties T02 T03
  requires fileOK(f) && linesOK(f) && lockstate(f.mutex) == 0
  let l = line.Ordinal()
  panics invalid: l < 1 || l > len(f.lines)
  ensures result == f.base + f.lines[l-1]

func (*File).addLineColumnInfo
  properties T02 T03
  requires f != nil && infosOK(f) && lockstate(f.mutex) == 0
  modifies f.infos, elems(f.infos)
  ensures infosOK(f)
  ensures len(f.infos) >= old(len(f.infos))
  ensures forall i int :: 0 <= i && i < old(len(f.infos)) ==> f.infos[i] == old(f.infos[i])

# What the line and the column of an offset are.
pred unpacked(f *File, offset int, l int, c int) =
  countLE(f.lines, offset, l) && c == ite(l == 0, 0, offset - f.lines[l-1] + 1)

func (*File).unpack
  properties T02 T03
  requires fileOK(f) && linesOK(f) && infosOK(f) && lockstate(f.mutex) == 0
  requires 0 <= offset && offset <= f.size
  requires forall i int :: {f.lines[i]} 0 <= i && i < len(f.lines) ==> f.lines[i] >= 0
  ensures unpacked: (!adjusted || len(f.infos) == 0) ==> filename == f.name && unpacked(f, offset, lineColumn.Line().Ordinal(), lineColumn.Column().Ordinal())

func (*File).Position
  properties T02 T03
  requires fileOK(f) && linesOK(f) && infosOK(f) && lockstate(f.mutex) == 0
  requires forall i int :: {f.lines[i]} 0 <= i && i < len(f.lines) ==> f.lines[i] >= 0
  panics p != NoPos && !covers(f, p)
  ensures zero: p == NoPos ==> pos.Offset() == 0 && pos.FileName() == "" && !pos.IsValid()
  ensures offset: p != NoPos ==> pos.Offset() == p - f.base
  ensures unpacked: p != NoPos && len(f.infos) == 0 ==> pos.FileName() == f.name && unpacked(f, p - f.base, pos.Line().Ordinal(), pos.Column().Ordinal())

func (*File).Line
  properties T02 T03
  requires fileOK(f) && linesOK(f) && infosOK(f) && lockstate(f.mutex) == 0
  requires forall i int :: {f.lines[i]} 0 <= i && i < len(f.lines) ==> f.lines[i] >= 0
  panics p != NoPos && !covers(f, p)
  ensures p != NoPos && len(f.infos) == 0 ==> countLE(f.lines, p - f.base, result.Ordinal())

func (*FileSet).Position
  properties T02 T03
  requires setOK(s) && lockstate(s.mutex) == 0
  requires forall i int :: {s.files[i]} 0 <= i && i < len(s.files) ==> linesOK(s.files[i]) && infosOK(s.files[i]) && lockstate(s.files[i].mutex) == 0
  requires forall i int, k int :: {s.files[i].lines[k]} 0 <= i && i < len(s.files) && 0 <= k && k < len(s.files[i].lines) ==> s.files[i].lines[k] >= 0
  modifies s.last
  ensures setOK(s)
  ensures outside: (forall i int :: {s.files[i]} 0 <= i && i < len(s.files) ==> !covers(s.files[i], p)) || p == NoPos ==> !pos.IsValid() && pos.Offset() == 0
  ensures inside: forall i int :: {s.files[i]} p != NoPos && 0 <= i && i < len(s.files) && covers(s.files[i], p) ==> pos.Offset() == p - s.files[i].base && (len(s.files[i].infos) == 0 ==> pos.FileName() == s.files[i].name && unpacked(s.files[i], p - s.files[i].base, pos.Line().Ordinal(), pos.Column().Ordinal()))

# A pair (l, c) is a position of the file when line l exists and column c is
# inside it; the last line ends with the end-of-file position.
pred pairOK(f *File, l int, c int) = 1 <= l && l <= len(f.lines) && 1 <= c && ite(l < len(f.lines), f.lines[l-1] + (c-1) < f.lines[l], f.lines[l-1] + (c-1) <= f.size)
func (*File).PosForLineColumn
  properties T02 T03
  requires fileOK(f) && linesOK(f) && lockstate(f.mutex) == 0
  requires forall i int :: {f.lines[i]} 0 <= i && i < len(f.lines) ==> f.lines[i] >= 0
  let l = lc.Line().Ordinal()
  let c = lc.Column().Ordinal()
  ensures valid: pairOK(f, l, c) ==> result == f.base + f.lines[l-1] + (c-1) && covers(f, result)
  ensures invalid: !pairOK(f, l, c) ==> result == NoPos
  ensures roundtrip: result != NoPos ==> unpacked(f, result - f.base, l, c)

func (*FileSet).Iterate
  properties T03
  requires s != nil && f != nil && lockstate(s.mutex) == 0
  modifies *
  maypanic
  ensures lockstate(s.mutex) == 0

# Zero based and one based numbers.
func LineFromOffset
  properties T02
  ensures o < maxInt ==> result.Offset() == o && result.Ordinal() == o + 1
func LineFromOrdinal
  properties T02
  ensures result.Ordinal() == o
func (Line).Offset
  properties T02
  ensures n.Ordinal() > 0 ==> LineFromOffset(result) == n && result == n.Ordinal() - 1
func (Line).Ordinal
  properties T02
  ensures LineFromOrdinal(result) == n
func (Line).IsValid
  properties T02
  ensures result == (n.Ordinal() >= 1)
func ColumnFromOffset
  properties T02
  ensures o < maxInt ==> result.Offset() == o && result.Ordinal() == o + 1
func ColumnFromOrdinal
  properties T02
  ensures result.Ordinal() == o
func (Column).Offset
  properties T02
  ensures n.Ordinal() > 0 ==> ColumnFromOffset(result) == n && result == n.Ordinal() - 1
func (Column).Ordinal
  properties T02
  ensures ColumnFromOrdinal(result) == n
func (Column).IsValid
  properties T02
  ensures result == (n.Ordinal() >= 1)
func MakeLineColumn
  properties T02
  ensures result.Line() == line && result.Column() == col
func (LineColumn).Line
  properties T02
  ensures MakeLineColumn(result, p.Column()) == p
func (LineColumn).Column
  properties T02
  ensures MakeLineColumn(p.Line(), result) == p
