From 16c17c4005fa3ffe61b811e2e264718e9b01e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 01/50] fix: LineColumn.String prints the column exactly when
 the column is valid

---
 textpos/textpos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos.go b/textpos/textpos.go
index ee9e605..183b060 100644
--- a/textpos/textpos.go
+++ b/textpos/textpos.go
@@ -83,7 +83,7 @@ func (p LineColumn) String() string {
 	if p.Line().IsValid() {
 		l = fmt.Sprintf("%d", p.Line().Ordinal())
 	}
-	if p.Line().IsValid() {
+	if p.Column().IsValid() {
 		c = fmt.Sprintf("%d", p.Column().Ordinal())
 	}
 	return fmt.Sprintf("%s:%s", l, c)
-- 
2.43.0


From 2a61d0bedc40ed8abdf11ca2c575b17953b90a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 02/50] fix: PosForLineColumn reports NoPos for a column past
 the end of its line

---
 textpos/textpos_from_go_token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index b79aaa8..540531c 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -489,6 +489,10 @@ func (f *File) PosForLineColumn(lc LineColumn) Pos {
 	if f.checkPos(finalPos) != nil {
 		return NoPos
 	}
+	// A column past the end of its line is out of bounds.
+	if next := lc.Line().Ordinal(); next < len(f.lines) && f.base+f.lines[next] <= int(finalPos) {
+		return NoPos
+	}
 	return finalPos
 }
 
-- 
2.43.0


From d2cbfeca072da47c9f2c7ce6b65f8003080a8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 03/50] fix: a CSV row that cannot be read still counts in the
 row numbers of later rows

---
 csvcoder/csvcoder_file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvcoder/csvcoder_file.go b/csvcoder/csvcoder_file.go
index 9e25c17..65a1d12 100644
--- a/csvcoder/csvcoder_file.go
+++ b/csvcoder/csvcoder_file.go
@@ -105,10 +105,11 @@ func (fp *FileParser) Read() (interface{}, error) {
 		return nil, err
 	}
 	row := NewRow(rowVals, fp.hdr, fp.rowNum, fp.filePath)
+	// A row that could not be read still occupies its place in the file.
+	fp.rowNum++
 	if err != nil {
 		return nil, row.errorf("csv.Reader error: %w", err)
 	}
-	fp.rowNum++
 
 	return fp.rt.parseRow(row)
 }
-- 
2.43.0


From 827f44dabe8e3951d0b2ecfff68c57b693719791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 04/50] fix: UnmarshalContext passes the caller's context to
 the decoder

---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 7514295..dcd1691 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -381,7 +381,7 @@ func UnmarshalContext(ctx *Context, value string, dst T) error {
 	if dec == nil {
 		return fmt.Errorf("no registered decoder for type %v", t)
 	}
-	return dec.DecodeText(NewContext(), value, dst)
+	return dec.DecodeText(ctx, value, dst)
 }
 
 // MarshalContext attempts to encode the value into a string using one of the
-- 
2.43.0


From 10d575515de9ac4edd2ea5575473d00621c847cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 05/50] fix: the float coders keep the precision of the value

---
 textcoder/textcoder_builtins.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/textcoder/textcoder_builtins.go b/textcoder/textcoder_builtins.go
index 231750b..3061cbe 100644
--- a/textcoder/textcoder_builtins.go
+++ b/textcoder/textcoder_builtins.go
@@ -173,7 +173,7 @@ func RegisterBasicTypes(r *Registry) error {
 	// float32, float64
 	putErr(r.Register(
 		reflect.TypeOf(float64(0)),
-		func(v float64) (string, error) { return fmt.Sprintf("%f", v), nil },
+		func(v float64) (string, error) { return formatFloat(v, 64), nil },
 		func(value string, dst *float64) error {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
@@ -184,7 +184,7 @@ func RegisterBasicTypes(r *Registry) error {
 		}))
 	putErr(r.Register(
 		reflect.TypeOf(float32(0)),
-		func(v float32) (string, error) { return fmt.Sprintf("%f", v), nil },
+		func(v float32) (string, error) { return formatFloat(float64(v), 32), nil },
 		func(value string, dst *float32) error {
 			f, err := strconv.ParseFloat(value, 32)
 			if err != nil {
@@ -209,3 +209,13 @@ func RegisterBasicTypes(r *Registry) error {
 	}
 	return nil
 }
+
+// formatFloat returns the "%f" form of v, or the shortest text that parses as v
+// when the six digits of "%f" lose precision.
+func formatFloat(v float64, bitSize int) string {
+	text := strconv.FormatFloat(v, 'f', 6, bitSize)
+	if parsed, err := strconv.ParseFloat(text, bitSize); err == nil && parsed == v {
+		return text
+	}
+	return strconv.FormatFloat(v, 'g', -1, bitSize)
+}
-- 
2.43.0


From f1be3d11d7f5d8b027a4379e97b038aef13bd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 06/50] fix: ParseString nests every element under the one
 before it

---
 wirepath/wirepath_from_string.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 8d296ba..7438420 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -78,6 +78,7 @@ func ParseString(wirePathLiteral string) (*WirePath, error) {
 			topLevel = elem
 		} else {
 			parent.Child = elem
+			parent = elem
 		}
 	}
 	return FromProto(topLevel)
-- 
2.43.0


From 30f9db0ece8e6f35f72a979721502fdf625324e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 07/50] fix: an sfixed32 map key is parsed as an sfixed32 key

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 7438420..70b5ff6 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -204,7 +204,7 @@ func setSlotBasedOnMapKeyLiteral(out *pb.WirePath, literal, typeName string) err
 		case "sint32":
 			out.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(number)}
 		case "sfixed32":
-			out.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(number)}
+			out.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(number)}
 		default:
 			panic("bug")
 		}
-- 
2.43.0


From 013618928a115405068b5f9610b39c554893aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:39 +0000
Subject: [PATCH 08/50] fix: ParseString rejects a path that ends with a slash

---
 wirepath/wirepath_from_string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 70b5ff6..2cbf7a2 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -90,6 +90,9 @@ func nextPathElem(literal string) (string, string, error) {
 		return "", "", fmt.Errorf("failed to parse element of path from: %q", literal)
 	}
 	firstPart, rest := literal[matchLocs[0]:matchLocs[1]], literal[matchLocs[1]:]
+	if rest == "/" {
+		return "", "", fmt.Errorf("path ends with an empty element: %q", literal)
+	}
 	rest = strings.TrimPrefix(rest, "/")
 
 	return firstPart, rest, nil
-- 
2.43.0


From af7283cf174af9df833013856e0366e4d8998345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:39 +0000
Subject: [PATCH 09/50] fix: a string literal of a wirepath ends at its closing
 quote

---
 wirepath/wirepath_protostrings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index e17ef14..c91c432 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -31,7 +31,8 @@ const (
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
 		`([^\0\n\\])` + // regular character
 		`)`
-	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
+	// A quoted literal ends at the first quote that is not escaped.
+	protobufStringLiteralDoubleQuoted = `(?:"(?:[^"\\]|\\.)*")`
 )
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
@@ -45,6 +46,9 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 	if !strings.HasSuffix(literal, `"`) {
 		return "", fmt.Errorf("literal must end with \": %s", literal)
 	}
+	if len(literal) < 2 {
+		return "", fmt.Errorf("literal must begin and end with \": %s", literal)
+	}
 	literal = literal[1 : len(literal)-1]
 
 	out := &strings.Builder{}
-- 
2.43.0


From 588ea828f68dba4c518b051111a676ce697987ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 10/50] fix: formatting a wirepath against a message does not
 crash

---
 wirepath/wirepath.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e10f07..9da93e3 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -280,7 +280,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			list, isList := immediateValue.Interface().(protoreflect.List)
 			if isList {
-				if int(slot.RepeatedFieldOffset) < list.Len() {
+				if offset := slot.RepeatedFieldOffset; offset >= 0 && offset < int64(list.Len()) {
 					childValue = list.Get(int(slot.RepeatedFieldOffset))
 				} else {
 					childValue = list.NewElement()
@@ -344,10 +344,9 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			if !isMap {
 				out.error = fmt.Errorf("specified map key for non-map value")
+			} else if fieldDescriptor == nil {
+				out.error = fmt.Errorf("specified map key without the field number of the map")
 			} else {
-				if fieldDescriptor == nil {
-					panic("internal assumption is incorrect - field descriptor should be available")
-				}
 				if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
 					out.error = fmt.Errorf("wirepath specifies map key %v of kind %s, %s key type is %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
 				} else {
-- 
2.43.0


From 03a5881acf4fb37ff3ed0da5f4b54d473dd852e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 11/50] fix: GetValue reports a negative index of a repeated
 field

---
 wirepath/wirepath.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 9da93e3..4e44c03 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -95,8 +95,8 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if !ok {
 				return protoreflect.Value{}, ctx.errorf("path references element %d of a non-repeated field", slot)
 			}
-			if int(slot.RepeatedFieldOffset) >= list.Len() {
-				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot, list.Len())
+			if offset := slot.RepeatedFieldOffset; offset < 0 || offset >= int64(list.Len()) {
+				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", offset, list.Len())
 			}
 			immediateValue = list.Get(int(slot.RepeatedFieldOffset))
 		} else if mapKey := slotMapKeyValue(p); mapKey.IsValid() {
-- 
2.43.0


From a7cb91c12b056ae484f0513f8b039ca7c0561ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 12/50] fix: GetValue reports a field number the message does
 not have

---
 wirepath/wirepath.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e44c03..fe6b29c 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,12 +81,16 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
-	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
+	var fieldDescriptor protoreflect.FieldDescriptor
+	if p.proto.GetElement() == nil || p.proto.GetSpecialPath() == pb.WirePath_SELF {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
 
-		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		fieldDescriptor = m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		if fieldDescriptor == nil {
+			return protoreflect.Value{}, ctx.errorf("message %s has no field %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
+		}
 		immediateValue = m.Get(fieldDescriptor)
 	}
 	if p.proto.GetSlot() != nil {
-- 
2.43.0


From 5c438c8fd4bd8264d600bc24e656f1d757457dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 13/50] fix: GetValue reports a map key of another kind than
 the map's

---
 wirepath/wirepath.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index fe6b29c..69b4379 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -113,6 +113,12 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if mapKey.IsValid() && !valueIsMap() {
 				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of value that is not a Map", mapKey.Interface())
 			}
+			if fieldDescriptor == nil {
+				return protoreflect.Value{}, ctx.errorf("map key %v specified without the field number of a map", mapKey.Interface())
+			}
+			if got, want := extractSlotMapKeyKind(p.proto), fieldDescriptor.MapKey().Kind(); got != want {
+				return protoreflect.Value{}, ctx.errorf("map key %v is of kind %s, but keys of %s are of kind %s", mapKey.Interface(), got, fieldDescriptor.FullName(), want)
+			}
 			immediateValue = immediateValue.Map().Get(mapKey)
 
 		} else {
-- 
2.43.0


From 5454bd1ede1bf07f62c3e09bbf13789d4e9e675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 14/50] fix: dot segments are removed as RFC 3986 section 5.2.4
 says

---
 rdf/iri/iri_resolve.go | 87 +++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 3a0cfa2..4e3ce9f 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -146,62 +146,53 @@ func formattedQuery(q *string) string {
 // resolvePath applies special path segments from refs and applies
 // them to base, per RFC 3986.
 func resolvePath(base, ref string) string {
-	var full string
+	full := ref
 	if ref == "" {
 		full = base
 	} else if ref[0] != '/' {
-		i := strings.LastIndex(base, "/")
-		full = base[:i+1] + ref
-	} else {
-		full = ref
+		full = base[:strings.LastIndex(base, "/")+1] + ref
 	}
-	if full == "" {
-		return ""
-	}
-
-	var (
-		last string
-		elem string
-		i    int
-		dst  strings.Builder
-	)
-	first := true
-	remaining := full
-	for i >= 0 {
-		i = strings.IndexByte(remaining, '/')
-		if i < 0 {
-			last, elem, remaining = remaining, remaining, ""
-		} else {
-			elem, remaining = remaining[:i], remaining[i+1:]
-		}
-		if elem == "." {
-			first = false
-			// drop
-			continue
-		}
-
-		if elem == ".." {
-			str := dst.String()
-			index := strings.LastIndexByte(str, '/')
+	return removeDotSegments(full)
+}
 
-			dst.Reset()
-			if index == -1 {
-				first = true
-			} else {
-				dst.WriteString(str[:index])
-			}
-		} else {
-			if !first {
-				dst.WriteByte('/')
+// removeDotSegments implements RFC 3986, section 5.2.4.
+func removeDotSegments(path string) string {
+	in, out := path, ""
+	for in != "" {
+		switch {
+		case strings.HasPrefix(in, "../"):
+			in = in[3:]
+		case strings.HasPrefix(in, "./"):
+			in = in[2:]
+		case strings.HasPrefix(in, "/./"):
+			in = in[2:]
+		case in == "/.":
+			in = "/"
+		case strings.HasPrefix(in, "/../"):
+			in = in[3:]
+			out = removeLastSegment(out)
+		case in == "/..":
+			in = "/"
+			out = removeLastSegment(out)
+		case in == "." || in == "..":
+			in = ""
+		default:
+			end := len(in)
+			if i := strings.IndexByte(in[1:], '/'); i >= 0 {
+				end = i + 1
 			}
-			dst.WriteString(elem)
-			first = false
+			out += in[:end]
+			in = in[end:]
 		}
 	}
+	return out
+}
 
-	if last == "." || last == ".." {
-		dst.WriteByte('/')
+// removeLastSegment removes the last segment and the slash before it, if any.
+func removeLastSegment(path string) string {
+	i := strings.LastIndexByte(path, '/')
+	if i < 0 {
+		return ""
 	}
-
-	return "/" + strings.TrimPrefix(dst.String(), "/")
+	return path[:i]
 }
-- 
2.43.0


From 3b0d068d47a5f0d5ccb608f784a70e6f11312097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 15/50] fix: resolved references keep the whole authority of
 the base or of the reference

---
 rdf/iri/iri_resolve.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 4e3ce9f..8298a30 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -106,7 +106,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	if ref.Scheme() == "" {
 		url.scheme = base.Scheme()
 	}
-	if ref.Scheme() != "" || ref.Host() != "" || ref.User() != "" {
+	if ref.Scheme() != "" || ref.HasAuthority() {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
@@ -132,7 +132,13 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	// The "abs_path" or "rel_path" cases.
 	url.host = base.Host()
 	url.userInfo = base.User()
-	url.path = resolvePath(base.Path(), ref.Path())
+	url.port = base.Port()
+	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
+	basePath := base.Path()
+	if basePath == "" && base.HasAuthority() && ref.Path() != "" {
+		basePath = "/"
+	}
+	url.path = resolvePath(basePath, ref.Path())
 	return url
 }
 
-- 
2.43.0


From dfea79e5a301221cf1b616fab1a378a6d58bfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 16/50] fix: splitting an IRI keeps an empty port, a password
 and an authority of another form

---
 rdf/iri/iri.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index fc08224..ee89c54 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -84,6 +84,8 @@ func (iri IRI) parts() *parts {
 		userInfo = authMatch[iauthorityUserInfoGroup]
 		host = authMatch[iauthorityHostGroup]
 		port = authMatch[iauthorityPortGroup]
+	} else {
+		host = auth
 	}
 	return &parts{
 		scheme:        match[uriRESchemeGroup],
@@ -103,7 +105,7 @@ type parts struct {
 	emptyAuth     bool // true if the iri is something like `///path` but if iri is `//hostname/path`
 	userInfo      string
 	host          string
-	port          string
+	port          string // with the :
 	path          string
 	query         string // with the ?
 	emptyFragment bool
@@ -125,8 +127,8 @@ func (p *parts) toIRI() IRI {
 		s += p.host
 	}
 
-	if p.port != "" { // TODO(reddaly): Deal with blank
-		s += ":" + p.port
+	if p.port != "" {
+		s += p.port
 	}
 	if p.path != "" { // TODO(reddaly): Deal with blank
 		s += p.path
@@ -183,11 +185,11 @@ const (
 	scheme = "(?:" + alphaChars + "(?:" + alphaChars + "|" + digitChars + `|[\+\-\.])*)`
 
 	iauthority              = `(?:` + iuserinfo + "@)?" + ihost + `(?:\:` + port + `)?`
-	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(?:\:(` + port + `))?)`
+	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(\:` + port + `)?)`
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `)*)`
+	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|\:)*)`
 	port                    = `(?:\d*)`
 	ihost                   = `(?:` + ipLiteral + `|` + ipV4Address + `|` + iregName + `)`
 	iregName                = "(?:(?:" + iunreserved + "|" + pctEncoded + "|" + subDelims + ")*)" // *( iunreserved / pctEncoded / subDelims )
-- 
2.43.0


From bba327d298e752398f6bc04fc38df7cd5fb10744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 17/50] fix: Parse checks the text after a line break and
 rejects an empty scheme

---
 rdf/iri/iri.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index ee89c54..6f46b97 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -29,6 +29,9 @@ func Parse(s string) (IRI, error) {
 	path := match[uriREPathGroup]
 	query := match[uriREQueryGroup]
 	fragment := match[uriREFragmentGroup]
+	if scheme == "" && match[uriREAuthorityWithSlashSlahGroup] == "" && strings.HasPrefix(path, ":") {
+		return "", fmt.Errorf("%q is not a valid IRI: relative path %q starts with a colon", s, path)
+	}
 	if scheme != "" && !schemeRE.MatchString(scheme) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid scheme %q does not match regexp %s", s, scheme, schemeRE)
 	}
@@ -288,7 +291,7 @@ var (
 	}()
 
 	// re from RFC 3986 page 50.
-	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`)
+	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#((?s:.*)))?$`)
 	uriRESchemeGroup                 = 2
 	uriREAuthorityWithSlashSlahGroup = 3
 	uriREAuthorityGroup              = 4
-- 
2.43.0


From 430477dddd4c7bd6d990951f1ec0ad92ff211c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 18/50] fix: the query of an IRI is checked as a query and not
 as a path

---
 rdf/iri/iri.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 6f46b97..645cf45 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -214,11 +214,11 @@ const (
 	// non-zero-length segment without any colon ":"
 	isegmentnznc = `(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])`
 
-	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `\/\?` + `)*)`
+	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `[\/\?]` + `)*)`
 
 	ifragment = `(?:(?:` + ipchar + `|` + `[\/\?]` + `)*)`
 
-	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000]-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
+	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000}-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
 )
 
 // IP Address related
@@ -261,7 +261,7 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
-	iqueryRE            = mustCompileNamed("iquery", "^"+ipath+"$")
+	iqueryRE            = mustCompileNamed("iquery", "^"+iquery+"$")
 	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
 	percentEncodedChar      = mustCompileNamed("percentEncodedChar", pctEncoded)
-- 
2.43.0


From 514fec00dd0227c4e364858fd71161cb075fb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 19/50] fix: an encoded U+FFFD is a valid percent-encoded
 character

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 645cf45..fe104c9 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -335,7 +335,7 @@ func (iri IRI) normalizePercentEncoding() (IRI, error) {
 		octetsOffset := 0
 		for len(unconsumedOctets) > 0 {
 			codePoint, size := utf8.DecodeRune(unconsumedOctets)
-			if codePoint == utf8.RuneError {
+			if codePoint == utf8.RuneError && size <= 1 {
 				errs = append(errs, fmt.Errorf("percent-encoded sequence %q  contains invalid UTF-8 code point at start of byte sequence %+v", pctEscaped[octetsOffset*3:], unconsumedOctets))
 				return pctEscaped
 			}
-- 
2.43.0


From eb1c38231859f8082cadd95f8940336235ece958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 20/50] fix: every RDF term is of exactly one kind, also with
 an empty IRI

---
 rdf/ntriples/ntriples.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 741f1d9..5e147c5 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -95,7 +95,7 @@ func NewSubjectBlankNodeID(blankNodeID BlankNodeID) *Subject {
 }
 
 // IsIRI reports if the term is an IRI.
-func (s *Subject) IsIRI() bool { return s.iri != "" }
+func (s *Subject) IsIRI() bool { return !s.IsBlankNode() }
 
 // IsBlankNode reports if the term is a literal.
 func (s *Subject) IsBlankNode() bool { return s.blankNodeID != "" }
@@ -148,10 +148,10 @@ func NewObjectFromSubject(s *Subject) *Object {
 }
 
 // IsIRI reports if the term is an IRI.
-func (o *Object) IsIRI() bool { return o.iri != "" }
+func (o *Object) IsIRI() bool { return !o.IsLiteral() && !o.IsBlankNode() }
 
 // IsLiteral reports if the term is a literal.
-func (o *Object) IsLiteral() bool { return !o.IsIRI() && !o.IsBlankNode() }
+func (o *Object) IsLiteral() bool { return o.lit != nil }
 
 // IsBlankNode reports if the term is a literal.
 func (o *Object) IsBlankNode() bool { return o.blankNodeID != "" }
-- 
2.43.0


From 57b08803870270979c1737440241350a4b3f01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 21/50] fix: the datatype of a literal is written as an IRI
 reference

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 5e147c5..72983ef 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -236,7 +236,7 @@ func LiteralString(l Literal) string {
 		return fmt.Sprintf("%s@%s", quotedString, lang)
 	}
 	if datatype := l.Datatype(); datatype != "" {
-		return fmt.Sprintf("%s^^%s", quotedString, datatype)
+		return fmt.Sprintf("%s^^<%s>", quotedString, string(datatype))
 	}
 	return quotedString
 }
-- 
2.43.0


From 8a5f4589fded1fc063f848f62c90cb7618ede476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 22/50] fix: LangString is the IRI of rdf:langString

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 72983ef..a0db96f 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -23,7 +23,7 @@ type IRI = iri.IRI
 const (
 	// LangString is the type of a literal string that has a language annotation.
 	// https://www.w3.org/TR/2014/REC-rdf11-concepts-20140225/#dfn-literal.
-	LangString IRI = " http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
+	LangString IRI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
 
 	// XMLSchemaString is the type of a literal string with no language
 	// annotation.
-- 
2.43.0


From 5d60694e4051f4ddf4239ddc911f1b54abe18dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 23/50] fix: a language tag may have any number of subtags

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index a0db96f..71be53f 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -393,7 +393,7 @@ const (
 
 	stringLiteralQuote = `"((?:[^\x22\x5C\x{A}\x{D}]|` + echar + `|` + uchar + `)*)"`
 	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*)>`
-	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)?)`
+	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)*)`
 )
 
 var (
-- 
2.43.0


From b76e0ea2188c3545c2d0c9215e90f9234942bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 24/50] fix: blank node labels may contain characters beyond
 U+FFFF and no number sign

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 71be53f..b517e44 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -387,7 +387,7 @@ const (
 	hex         = `[0-9A-Fa-f]`
 	uchar       = `(?:\\u` + hex + hex + hex + hex + `|\\U` + hex + hex + hex + hex + hex + hex + hex + hex + `)`
 	echar       = `\\[\\tbnrf"']`
-	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{1000}0\#xEFFFF`
+	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
 	pnCharsU    = pnCharsBase + `_\:`
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
-- 
2.43.0


From 9bb7db2b987e730738efea226a36121837ba64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 25/50] fix: an escape of a number that is no character is
 rejected

---
 rdf/ntriples/ntriples.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index b517e44..a5e79cd 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/google/xtoproto/rdf/iri"
 )
@@ -500,6 +501,9 @@ func parseStringLiteral(in string) (string, error) {
 			if err != nil {
 				return "", fmt.Errorf("internal error: bad hex sequence %q: %w", c, err)
 			}
+			if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+				return "", fmt.Errorf("escape %q does not denote a character", c)
+			}
 			builder.WriteRune(rune(code))
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch %+v", in, charMatch)
@@ -578,6 +582,9 @@ func canonicalizeIRILiteral(in string) (string, error) {
 			if err != nil {
 				return "", err
 			}
+			if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+				return "", fmt.Errorf("escape %q does not denote a character", c)
+			}
 			// TODO(reddaly): Check if the character needs to be percent-encoded?
 			canonical.WriteRune(rune(code))
 		} else {
-- 
2.43.0


From f141b4bbe65816f16037405a5cc776d294d073eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 26/50] fix: the datatype of a literal is unescaped like other
 IRI references

---
 rdf/ntriples/ntriples.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index a5e79cd..a4e2be1 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -453,7 +453,11 @@ func ParseLiteral(input string) (Literal, string, error) {
 	} else if lang != "" {
 		return NewLiteral(lexicalForm, LangString, lang), rest, nil
 	}
-	return NewLiteral(lexicalForm, IRI(iri), lang), rest, nil
+	datatype, err := canonicalizeIRILiteral(iri)
+	if err != nil {
+		return nil, "", fmt.Errorf("failed to normalize datatype IRI string %q: %w", iri, err)
+	}
+	return NewLiteral(lexicalForm, IRI(datatype), lang), rest, nil
 }
 
 // Comment is a line comment in an N-Tuples file.
-- 
2.43.0


From 46e23d118262fec47d161cd6bedcfbd8f205dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 27/50] fix: a symbol keeps its slashes

---
 sexpr/sexpr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index fc143fe..02824ab 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -317,6 +317,7 @@ loop:
 			// is in the middle of the symbol.
 			r2, err := fr.src.readRune()
 			if err == io.EOF {
+				literal.WriteRune(r)
 				break loop
 			}
 			if err := fr.src.unreadRune(); err != nil {
@@ -330,6 +331,7 @@ loop:
 				}
 				break loop
 			}
+			literal.WriteRune(r)
 		default:
 			literal.WriteRune(r)
 		}
@@ -363,6 +365,9 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	contents := strings.Builder{}
 	contents.WriteRune('/')
 	secondCommentRune, err := fr.src.readRune()
+	if err == io.EOF {
+		return nil, false, nil
+	}
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From b3488ca15135029d5acf9e838718aade3a1c06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 28/50] fix: an escaped backslash does not escape the next
 character of a string

---
 sexpr/sexpr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 02824ab..188e55d 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -222,6 +222,9 @@ loop:
 		}
 		switch r {
 		case '\n':
+			if prevCharWasEscape {
+				return nil, fr.errorfWithPosition("unexpected line break after \\ in a string")
+			}
 			value.WriteString(`\n`) // Replace newline literals with the literal `\n`, which is supported by strconv.Unquote.
 			//return nil, fr.errorfWithPosition("unexpected newline before terminating \" character", src)
 		case '"':
@@ -233,7 +236,7 @@ loop:
 		default:
 			value.WriteRune(r)
 		}
-		prevCharWasEscape = (r == '\\')
+		prevCharWasEscape = r == '\\' && !prevCharWasEscape
 	}
 	parsedValue, err := strconv.Unquote(value.String())
 	if err != nil {
-- 
2.43.0


From 18f7946cc5919bc9dd75104bffb2798d2ee9c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 29/50] fix: a comment ends at its first */ and an unterminated
 one is an error

---
 sexpr/sexpr.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 188e55d..050d687 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -378,29 +378,20 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	switch secondCommentRune {
 	case '*':
 		// Consume the contents of the multi-line comment.
+		prevRuneWasStar := false
 		for {
 			r, err := fr.src.readRune()
 			if err == io.EOF {
-				break
+				return nil, false, fr.errorfWithPosition("did not find end of comment '*/'")
 			}
 			if err != nil {
 				return nil, false, err
 			}
 			contents.WriteRune(r)
-			if r != '*' {
-				continue
-			}
-			r2, err := fr.src.readRune()
-			contents.WriteRune(r2)
-			if err == io.EOF {
-				break
-			}
-			if err != nil {
-				return nil, false, err
-			}
-			if r2 == '/' {
+			if r == '/' && prevRuneWasStar {
 				break
 			}
+			prevRuneWasStar = r == '*'
 		}
 		end := fr.src.cursorOffset()
 		c, err := fr.factory.NewCommentForm(contents.String(), fr.makeSpan(start, end))
-- 
2.43.0


From 11f6bc3634d397a7d8243eaacd848ad623e61e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 30/50] fix: the line break after a comment is not part of it

---
 sexpr/sexpr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 050d687..db49dd1 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -409,6 +409,9 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 				return nil, false, err
 			}
 			if r == '\n' {
+				if err := fr.src.unreadRune(); err != nil {
+					return nil, false, err
+				}
 				break
 			}
 			contents.WriteRune(r)
-- 
2.43.0


From 98428d1b0309e5e7ef2e9b8e7662cfc515b544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 31/50] fix: inf and nan are symbols

---
 sexpr/sexpr_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index 5a72ce1..b9a21c7 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -3,6 +3,7 @@ package sexpr
 import (
 	"fmt"
 	"go/constant"
+	"math"
 	"regexp"
 	"strconv"
 )
@@ -52,7 +53,7 @@ func parseNumber(s string) (*number, error) {
 		return &number{int64: &i}, nil
 	}
 	f, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
 		return &number{float64: &f}, nil
 	}
 	// TODO: IF the token is a possible number, return error.
-- 
2.43.0


From 32390dbfa7c45e160a956ab0418fa842ce89a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 32/50] fix: a negative column is no position

---
 sexpr/sexpr_sourcefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr_sourcefile.go b/sexpr/sexpr_sourcefile.go
index 4380825..5bd34f3 100644
--- a/sexpr/sexpr_sourcefile.go
+++ b/sexpr/sexpr_sourcefile.go
@@ -128,7 +128,7 @@ func (sf *strSourceFile) rowColToOffset(rc rowCol) cursorOffset {
 		return invalidCursorOffset
 	}
 	ll := sf.lineLength(rc.row)
-	if rc.col.Offset() > ll {
+	if rc.col.Offset() < 0 || rc.col.Offset() > ll {
 		return invalidCursorOffset
 	}
 	return cursorOffset(int(start) + rc.col.Offset())
-- 
2.43.0


From 47b465da5a4ec54cac2ca6a88e09a2510fb1d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 33/50] fix: comments and white space made by a custom factory
 are skipped

---
 sexpr/sexpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index db49dd1..3768edf 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -113,7 +113,7 @@ func (fr *FormReader) ReadForm() (Form, error) {
 		if err != nil {
 			return nil, err
 		}
-		if _, ok := form.(nonSubstantiveForm); ok {
+		if _, ok := form.(ValuelessForm); ok {
 			continue
 		}
 		return form, nil
-- 
2.43.0


From 49cdd6d26a9e619cf5dd5a19e3cf5fbe875b32d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 34/50] fix: an output path that leads outside the workspace is
 refused

---
 service/service_generate_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 15c4f00..273b003 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"strings"
 
 	"github.com/google/xtoproto/csvtoproto"
 	"github.com/stoewer/go-strcase"
@@ -145,5 +146,8 @@ func pathFromParts(workspace, dir, fileName string) (string, error) {
 	if fileName == "" {
 		return "", fmt.Errorf("must supply an explicit output filename, got empty string")
 	}
+	if relative := path.Join(dir, fileName); relative == "." || relative == ".." || strings.HasPrefix(relative, "../") {
+		return "", fmt.Errorf("directory %q and fileName %q must name a file inside of workspace %q", dir, fileName, workspace)
+	}
 	return path.Join(workspace, dir, fileName), nil
 }
-- 
2.43.0


From 59ef529f6ff9a1ac9194ed4d89e09b73f480de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 35/50] fix: both output paths are checked before a file is
 written

---
 service/service_generate_code.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 273b003..a6e2305 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -48,33 +48,40 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "failed to generate code: %v", err)
 	}
 
-	var outputProtoFile *spb.GenerateCodeResponse_File
+	// Check both output locations before anything is written.
+	var protoPath, protoPathWSRelative, goPath, goPathWSRelative string
 	if genProto {
-		codePath, codePathWSRelative, err := s.protoPath(req)
+		protoPath, protoPathWSRelative, err = s.protoPath(req)
 		if err != nil {
 			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .proto file: %v", err)
 		}
+	}
+	if genGo {
+		goPath, goPathWSRelative, err = s.converterGoPath(req)
+		if err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
+		}
+	}
+
+	var outputProtoFile *spb.GenerateCodeResponse_File
+	if genProto {
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(protoCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, protoPath, []byte(protoCode)); err != nil {
+			return nil, fileErrToStatusErr(protoPath, err)
 		}
 		outputProtoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: protoPathWSRelative,
 			NewContents:           []byte(protoCode),
 		}
 	}
 	var outputGoFile *spb.GenerateCodeResponse_File
 	if genGo {
-		codePath, codePathWSRelative, err := s.converterGoPath(req)
-		if err != nil {
-			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
-		}
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(goCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, goPath, []byte(goCode)); err != nil {
+			return nil, fileErrToStatusErr(goPath, err)
 		}
 		outputGoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: goPathWSRelative,
 			NewContents:           []byte(goCode),
 		}
 	}
-- 
2.43.0


From aff3f74eb2222cb8a442c55634727eb1ba7ecd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 36/50] fix: a wrapped file error gets the status of its cause

---
 service/service_infer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/service/service_infer.go b/service/service_infer.go
index 197f2d0..f8969aa 100644
--- a/service/service_infer.go
+++ b/service/service_infer.go
@@ -16,6 +16,7 @@ package service
 
 import (
 	"context"
+	"errors"
 	"os"
 	"time"
 
@@ -77,10 +78,10 @@ func (s *service) Infer(ctx context.Context, req *spb.InferRequest) (*spb.InferR
 }
 
 func fileErrToStatusErr(path string, err error) error {
-	if os.IsNotExist(err) {
+	if errors.Is(err, os.ErrNotExist) {
 		return grpc.Errorf(codes.NotFound, "specified file %q does not exist: %v", path, err)
 	}
-	if os.IsPermission(err) {
+	if errors.Is(err, os.ErrPermission) {
 		return grpc.Errorf(codes.PermissionDenied, "permission defnied accessing file %q: %v", path, err)
 	}
 	return grpc.Errorf(codes.Unknown, "error reading or writing file %q: %v", path, err)
-- 
2.43.0


From 4356c5c03623738579219a0fbfdad609188bc848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 37/50] fix: the inferred definition imports each file once, by
 an import statement

---
 recordinfer/recordinfer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 97a8057..514a944 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -43,10 +43,16 @@ type InferredProto struct {
 // Code returns the source for a .proto file.
 func (ip *InferredProto) Code() string {
 	var imports []string
+	imported := make(map[string]bool)
 	body := ""
 	for _, col := range ip.columns {
 		body += fmt.Sprintf("%s\n", col.protoFieldCode())
-		imports = append(imports, col.columnType.protoImports()...)
+		for _, path := range col.columnType.protoImports() {
+			if !imported[path] {
+				imported[path] = true
+				imports = append(imports, fmt.Sprintf("import %q;", path))
+			}
+		}
 	}
 
 	return fmt.Sprintf(`syntax = "proto3";
-- 
2.43.0


From 1a1ccbaf6154f3a9f5cad514f109347d4c0f4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 38/50] fix: attributes and elements of the same name do not
 make inference panic

---
 xmlinfer/xmlinfer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index d6876e7..cc439c2 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -114,7 +114,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(attrField)
+		addField(b, attrField)
 	}
 
 	all := []*builder.MessageBuilder{b}
@@ -124,7 +124,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(fieldDesc)
+		addField(b, fieldDesc)
 		if mainChildElemMsg != nil {
 			all = append(all, mainChildElemMsg)
 		}
@@ -133,6 +133,16 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	return all, nil
 }
 
+// addField adds a field to a message. If its name is taken, a number is appended
+// to it.
+func addField(b *builder.MessageBuilder, field *builder.FieldBuilder) {
+	name := field.GetName()
+	for i := 1; b.GetField(field.GetName()) != nil; i++ {
+		field.SetName(fmt.Sprintf("%s%d", name, i))
+	}
+	b.AddField(field)
+}
+
 func (sc *structCandidate) getElement(name xml.Name) *elementFieldCandidate {
 	for _, ef := range sc.elemFields {
 		if ef.sc.name == name {
-- 
2.43.0


From 9dceeff4ac9c7da30814d90f4ac75c59c8bcb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 39/50] fix: element and attribute names that are no
 identifiers do not make inference panic

---
 xmlinfer/xmlinfer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index cc439c2..302a377 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -20,6 +20,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strings"
 
@@ -411,9 +412,21 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 }
 
 func xmlToMessageName(xn xml.Name) string {
-	return strcase.UpperCamelCase(xn.Local)
+	return asIdentifier(strcase.UpperCamelCase(notIdentifierChar.ReplaceAllString(xn.Local, "_")), "X")
 }
 
 func xmlToFieldName(xn xml.Name) string {
-	return strcase.LowerCamelCase(xn.Local)
+	return asIdentifier(strcase.LowerCamelCase(notIdentifierChar.ReplaceAllString(xn.Local, "_")), "x")
+}
+
+// notIdentifierChar matches what may be part of an XML name and not of the
+// names in a protocol buffer definition.
+var notIdentifierChar = regexp.MustCompile(`[^_a-zA-Z0-9]`)
+
+// asIdentifier adds a prefix to a name that does not begin with a letter.
+func asIdentifier(name, prefix string) string {
+	if name == "" || '0' <= name[0] && name[0] <= '9' {
+		return prefix + name
+	}
+	return name
 }
-- 
2.43.0


From f97261640d996ff1a57cc56e45bd1d5a31168065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 40/50] fix: an underscore may start and continue an XML name

---
 rdf/rdfxml/rdfxml_xmlname.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml_xmlname.go b/rdf/rdfxml/rdfxml_xmlname.go
index f5295df..dc9484e 100644
--- a/rdf/rdfxml/rdfxml_xmlname.go
+++ b/rdf/rdfxml/rdfxml_xmlname.go
@@ -30,7 +30,7 @@ func checkXMLNCName(candidate string) error {
 
 const (
 	// See https://www.w3.org/TR/xml/ 2.3
-	xmlNameStartChar = (`[\:A-Za-z` +
+	xmlNameStartChar = (`[\:A-Z_a-z` +
 		`\xC0-\xD6` +
 		`\xD8-\xF6` +
 		`\xF8-\x{2FF}` +
-- 
2.43.0


From 9c7a5eb9f05c984ea1a5ba73ec5179aa65d87d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 41/50] fix: an rdf:ID is an NCName that is used once against a
 base

---
 rdf/rdfxml/rdfxml.go | 59 +++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 307cd56..58f1db9 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -169,8 +169,7 @@ type ParserOptions struct {
 }
 
 type baseStackEntry struct {
-	iri         ntriples.IRI
-	declaredIDs map[ntriples.IRI]bool
+	iri ntriples.IRI
 }
 
 // Parser is an RDF/XML document parser.
@@ -187,6 +186,7 @@ type Parser struct {
 	// is useful for defining a set of distinct, related terms relative to the
 	// same IRI.
 	xmlBaseStack       []*baseStackEntry
+	declaredIDs        map[ntriples.IRI]bool
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool
@@ -195,7 +195,7 @@ type Parser struct {
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{tr, nil, nil, map[ntriples.IRI]bool{}, nil, 0, map[ntriples.BlankNodeID]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -225,8 +225,7 @@ func (p *Parser) pushBaseURI(baseURI ntriples.IRI) {
 	// part of the base URI; any fragment part is ignored. See Uniform Resource
 	// Identifiers (URI) [RFC3986].
 	entry := &baseStackEntry{
-		iri:         removeFragment(baseURI),
-		declaredIDs: map[ntriples.IRI]bool{},
+		iri: removeFragment(baseURI),
 	}
 	p.xmlBaseStack = append(p.xmlBaseStack, entry)
 }
@@ -258,20 +257,33 @@ func (p *Parser) baseURI() ntriples.IRI {
 	return p.xmlBaseStack[len(p.xmlBaseStack)-1].iri
 }
 
-// declareID declares that a nodeElement with the given ID has been encountered
-// in the scope of the current xml:base element. If such an ID has already been
-// registered in the current scope, an error is returned.
+// declareID declares that an rdf:ID attribute has been encountered whose value,
+// resolved against the in-scope xml:base, is the given IRI. If that IRI has
+// already been declared in the document, an error is returned.
 func (p *Parser) declareID(id ntriples.IRI) error {
-	if len(p.xmlBaseStack) == 0 {
-		return p.errorf("internal error - empty base stack")
-	}
-	entry := p.xmlBaseStack[len(p.xmlBaseStack)-1]
-	if entry.declaredIDs[id] {
+	if p.declaredIDs[id] {
 		return p.errorf("duplicate node element id within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#nodeElementURIs>; offending id = %s", id)
 	}
+	p.declaredIDs[id] = true
 	return nil
 }
 
+// resolveID returns the IRI for the value of an rdf:ID attribute, which must be
+// an XML NCName and must not have been used against the same base before.
+func resolveID(p *Parser, value string) (ntriples.IRI, error) {
+	if err := checkXMLNCName(value); err != nil {
+		return "", p.errorf("invalid rdf:ID parameter: %w", err)
+	}
+	id, err := resolve(p, "#"+value)
+	if err != nil {
+		return "", err
+	}
+	if err := p.declareID(id); err != nil {
+		return "", err
+	}
+	return id, nil
+}
+
 func (p *Parser) language() string {
 	if len(p.langStack) == 0 {
 		return "" // according to 6.1, language is set to the empty string.
@@ -379,13 +391,10 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	for _, attr := range idAttrs {
 		switch xmlNameToIRI(attr.Name) {
 		case RDFID:
-			subIRI, err := resolve(p, "#"+attr.Value)
+			subIRI, err := resolveID(p, attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
-			if err := p.declareID(subIRI); err != nil {
-				return nil, err
-			}
 			newSubject := ntriples.NewSubjectIRI(subIRI)
 			if subject != nil {
 				return nil, p.errorf("ambiguous subject: %s and %s", subject, newSubject)
@@ -547,7 +556,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -598,7 +607,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -642,7 +651,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		// a.string-value))) using the reification rules in section 7.3 and
 		// e.subject := i.
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -685,7 +694,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// with uri(identifier := resolve(e, concat("#", i.string-value))) using
 			// the reification rules in section 7.3.
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -745,7 +754,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// 7.3.
 
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -788,7 +797,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return nil
 	}
 	if idAttr != nil {
-		i, err := resolve(p, "#"+idAttr.Value)
+		i, err := resolveID(p, idAttr.Value)
 		if err != nil {
 			return err
 		}
@@ -818,7 +827,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -836,7 +845,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e4f1a156d6a1cd0a542f666ceb57dadbbbaf9c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 42/50] fix: a relative xml:base is resolved against the
 enclosing base

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 58f1db9..db0f3ea 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -329,7 +329,7 @@ func (p *Parser) handleGenericStartElem(elem xml.StartElement) (func() error, er
 		}
 	}
 	if base != nil {
-		baseIRI, err := parseIRI(*base)
+		baseIRI, err := resolve(p, *base)
 		if err != nil {
 			return nil, p.errorf("xml:base value invalid: %w", err)
 		}
-- 
2.43.0


From 12f924813b33e4dee5fb9f66f58e3ae3b1236bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 43/50] fix: generated blank node labels are different from
 every rdf:nodeID

---
 rdf/rdfxml/rdfxml.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index db0f3ea..d8be387 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -291,10 +291,13 @@ func (p *Parser) language() string {
 	return p.langStack[len(p.langStack)-1]
 }
 
+// The labels of generated blank nodes begin with a digit, which makes them
+// different from every rdf:nodeID, before or after them in the document.
+
 func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d", p.nextBlankNodeID))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("0gen-%d", p.nextBlankNodeID))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
@@ -305,7 +308,7 @@ func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 func (p *Parser) generateBlankNodeIDWithHint(hint string) ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d-%s", p.nextBlankNodeID, hint))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("0gen-%d-%s", p.nextBlankNodeID, hint))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
-- 
2.43.0


From 9ccd59e1716544e237dd0b1b384c559fe960584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 44/50] fix: the first item of a collection belongs to the list
 the property names

---
 rdf/rdfxml/rdfxml.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index d8be387..5f9f8e9 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -858,18 +858,16 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 		}
 	}
 
-	isFirst := true
 	for i, emittedSub := range emittedSubjects {
-		nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
-		if !isFirst {
+		if i > 0 {
+			nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
 			triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFRest, ntriples.NewObjectBlankNodeID(nextSeqID))
 			ind, err := p.tripleCallback(triple)
 			if err != nil || ind == Stop {
 				return err
 			}
+			seqID = nextSeqID
 		}
-		isFirst = false
-		seqID = nextSeqID
 		triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFFirst, ntriples.NewObjectFromSubject(emittedSub))
 		ind, err := p.tripleCallback(triple)
 		if err != nil || ind == Stop {
-- 
2.43.0


From 39cdae47995e7e69f0538c1ca87990f9c2b17a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 45/50] fix: attributes other than rdf:ID are errors on a
 property element with a node

---
 rdf/rdfxml/rdfxml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 5f9f8e9..eee09b0 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -631,6 +631,11 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 	if childInfo.nodeElemStart != nil {
 		// 7.2.15: Production resourcePropertyElt
+		for _, attr := range rdfAttributes(propElem.Attr) {
+			if xmlNameToIRI(attr.Name) != RDFID {
+				return p.errorf("bad resourcePropertyElt: only an rdf:ID attribute is allowed, got %s", attr.Name.Local)
+			}
+		}
 		valueSubject, err := readNodeElem(p, *childInfo.nodeElemStart)
 		if err != nil {
 			return p.errorf("failed to parse resourcePropertyElt %s property of %s: %w", xmlNameToIRI(childInfo.nodeElemStart.Name), subject, err)
-- 
2.43.0


From 79c49a1ef0f9b41a94d38a6183448d9d78e68b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 46/50] fix: attributes of rdf:RDF are errors

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index eee09b0..0b4044d 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -93,6 +93,9 @@ func readRootOrNodeElem(p *Parser) error {
 			started = true
 
 			if xmlNameToIRI(t.Name) == RDFRoot {
+				if attrs := rdfAttributes(t.Attr); len(attrs) != 0 {
+					return p.errorf("unexpected attribute %s of rdf:RDF", attrs[0].Name.Local)
+				}
 				_, err := p.handleGenericStartElem(t)
 				if err != nil {
 					return err
-- 
2.43.0


From d68015335a30949a76a97772cef15dfb3abbfffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 47/50] fix: only an attribute without a prefix is reserved
 because its name starts with xml

---
 rdf/rdfxml/rdfxml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 0b4044d..32133a5 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1299,7 +1299,10 @@ var beginsWithXMLExpr = regexp.MustCompile(`^(?i)xml`)
 var xmlnsRE = regexp.MustCompile(`^(?i)` + regexp.QuoteMeta(xmlNS))
 
 func isXMLAttr(name xml.Name) bool {
-	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
+	if name.Space == "" {
+		return beginsWithXMLExpr.MatchString(name.Local)
+	}
+	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Space)
 }
 
 func isPropertyAttr(name xml.Name) bool {
-- 
2.43.0


From 879a1803eab2a694326738fac0326f1b0cf30ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 48/50] fix: the converter of a duration column compiles and
 uses the unit of the column

---
 csvtoproto/csvtoproto_go_codegen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 5d806fa..b69fb0c 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -301,7 +301,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
-			"unit": c2f.GetTimeFormat().GetGoLayout(),
+			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
 		})
 		if err != nil {
 			return nil, err
@@ -351,16 +351,16 @@ func (d {{.T}}) duration() time.Duration {
 
 func init() {
 	textcoder.Register(
-		reflect.TypeOf({{.T}}{}),
+		reflect.TypeOf({{.T}}(0)),
 		func(d {{.T}}) (string, error) {
-			return d.Duration().String(), nil
+			return d.duration().String(), nil
 		},
 		func(s string, dst *{{.T}}) error {
-			d, err := csvtoprotoparse.ParseDuration(s, unit)
+			d, err := csvtoprotoparse.ParseDuration(s, {{.unit | printf "%q"}})
 			if err != nil {
 				return fmt.Errorf("error parsing {{.T}}: %w", err)
 			}
-			*dst = {{.T}}(d)
+			*dst = {{.T}}(d.AsDuration())
 			return nil
 		},
 
-- 
2.43.0


From e77ebfd743ffdcbd85ce7bc41cf63a91dde090de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 49/50] fix: a column name with a backquote does not end the
 tag of its field

---
 csvtoproto/csvtoproto_go_codegen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index b69fb0c..66db29a 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -217,7 +217,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldType.topLevelCode != "" {
 			topLevelLines = append(topLevelLines, fieldType.topLevelCode)
 		}
-		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%q`", fieldName, fieldType.typeName, c2f.GetColName()))
+		fieldLines = append(fieldLines, fmt.Sprintf("%s %s %s", fieldName, fieldType.typeName, csvTag(c2f.GetColName())))
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
@@ -247,6 +247,15 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	return &structCode{structDef + b.String()}, nil
 }
 
+// csvTag returns the Go literal of a struct tag with the name of a column.
+func csvTag(colName string) string {
+	tag := fmt.Sprintf("csv:%q", colName)
+	if strings.Contains(tag, "`") {
+		return fmt.Sprintf("%q", tag)
+	}
+	return "`" + tag + "`"
+}
+
 var toProtoTemplate = template.Must(template.New("toProtoTemplate").Parse(
 	`
 func (r *{{.struct_name}}) Proto() (*{{.message_type}}, error) {
-- 
2.43.0


From d169a0d35c309c31897c317e2d40cbccf8ab2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 50/50] fix: the converter uses the Go names that protoc-gen-go
 gives to the message and its fields

---
 csvtoproto/csvtoproto_go_codegen.go | 80 ++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 8 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 66db29a..3abab31 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -184,11 +184,70 @@ func (cg *codeGenerator) sharedTemplateParams() (map[string]string, error) {
 	return map[string]string{
 		"package":      cg.mapping.GoOptions.GoPackageName,
 		"proto_import": cg.mapping.GoOptions.ProtoImport,
-		"message_type": fmt.Sprintf("pb.%s", cg.mapping.MessageName),
+		"message_type": fmt.Sprintf("pb.%s", goCamelCase(cg.mapping.MessageName)),
 		"struct_name":  cg.recordStructTypeName(),
 	}, nil
 }
 
+// goNames holds the names of the fields of a generated Go struct.
+type goNames map[string]bool
+
+// add returns the Go name of a message field, as protoc-gen-go chooses it for
+// the fields of a message in order.
+func (used goNames) add(protoName string) string {
+	name := goCamelCase(protoName)
+	for used[name] || used["Get"+name] || goMessageMethods[name] {
+		name += "_"
+	}
+	used[name] = true
+	used["Get"+name] = true
+	return name
+}
+
+// goMessageMethods are the names that protoc-gen-go does not give to a field.
+var goMessageMethods = map[string]bool{
+	"Reset":               true,
+	"String":              true,
+	"ProtoMessage":        true,
+	"Marshal":             true,
+	"Unmarshal":           true,
+	"ExtensionRangeArray": true,
+	"ExtensionMap":        true,
+	"Descriptor":          true,
+}
+
+// goCamelCase returns the Go identifier that protoc-gen-go generates for the
+// name of a message or field: an underscore before a lower case letter is
+// dropped and the letter becomes upper case.
+func goCamelCase(name string) string {
+	var b []byte
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		switch {
+		case c == '_' && i == 0:
+			b = append(b, 'X')
+		case c == '_' && lowerAt(name, i+1):
+			// The letter begins a word.
+		case '0' <= c && c <= '9':
+			b = append(b, c)
+		default:
+			if lowerAt(name, i) {
+				c -= 'a' - 'A'
+			}
+			b = append(b, c)
+			for ; lowerAt(name, i+1); i++ {
+				b = append(b, name[i+1])
+			}
+		}
+	}
+	return string(b)
+}
+
+// lowerAt reports whether there is a lower case letter at index i of s.
+func lowerAt(s string, i int) bool {
+	return i < len(s) && 'a' <= s[i] && s[i] <= 'z'
+}
+
 type structCode struct {
 	structDef string
 }
@@ -203,14 +262,19 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	topLevelLines := []string{}
 	fieldLines := []string{""}
 	var toProtoInitStatements, protoFieldLiterals []string
+	protoNames, recordNames := goNames{}, goNames{"Proto": true}
 
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
 		if c2f.Ignored {
 			continue
 		}
 
-		fieldName := strcase.UpperCamelCase(c2f.ProtoName)
-		fieldType, err := getFieldTypeCode(c2f)
+		if c2f.ProtoName == "" {
+			return nil, fmt.Errorf("mapping[%d] = %v has no proto_name", i, c2f)
+		}
+		protoFieldName := protoNames.add(c2f.ProtoName)
+		fieldName := recordNames.add(c2f.ProtoName)
+		fieldType, err := getFieldTypeCode(c2f, fieldName)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
 		}
@@ -221,7 +285,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
-			strcase.LowerCamelCase("parsed_"+c2f.GetProtoName()),
+			"parsed"+fieldName,
 			c2f.GetProtoType())
 		if err != nil {
 			return nil, fmt.Errorf("failed to handle proto field %q", c2f.GetProtoName())
@@ -230,7 +294,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 			toProtoInitStatements = append(toProtoInitStatements, expr.parseStatements)
 		}
 
-		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", strcase.UpperCamelCase(c2f.ProtoName), expr.valueExpr))
+		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", protoFieldName, expr.valueExpr))
 	}
 
 	structDef := fmt.Sprintf("type %s struct{%s\n}", structName, strings.Join(fieldLines, "\n  "))
@@ -279,7 +343,7 @@ type fieldTypeCode struct {
 	topLevelCode, typeName string
 }
 
-func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
+func getFieldTypeCode(c2f *pb.ColumnToFieldMapping, fieldName string) (*fieldTypeCode, error) {
 	switch protoType := c2f.GetProtoType(); protoType {
 	case "int32":
 		return &fieldTypeCode{"", "int32"}, nil
@@ -292,7 +356,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 	case "string":
 		return &fieldTypeCode{"", "string"}, nil
 	case "google.protobuf.Timestamp":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Time")
+		typeName := strings.ToLower(fieldName[:1]) + fieldName[1:] + "Time"
 		tz := c2f.GetTimeFormat().GetTimeZoneName()
 		if tz == "" {
 			tz = "UTC"
@@ -307,7 +371,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		}
 		return &fieldTypeCode{code, typeName}, nil
 	case "google.protobuf.Duration":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
+		typeName := strings.ToLower(fieldName[:1]) + fieldName[1:] + "Duration"
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
 			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
-- 
2.43.0

