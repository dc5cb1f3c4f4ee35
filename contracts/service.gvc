package service

# Slash-separated paths, cleaned. A path is inside when it stays below the
# directory it is relative to and names something other than that directory.
logic join2(a string, b string) string
logic join3(a string, b string, c string) string
axiom join-join: forall a string, b string, c string :: {join3(a, b, c)} join3(a, b, c) == join2(a, join2(b, c))
axiom join-relative: forall a string, b string :: {join2(a, b)} !hasPrefix(a, "/") && !hasPrefix(b, "/") ==> !hasPrefix(join2(a, b), "/")
extern path.Join
  params elem
  ensures len(elem) == 2 ==> result == join2(elem[0], elem[1])
  ensures len(elem) == 3 ==> result == join3(elem[0], elem[1], elem[2])
extern path/filepath.Join
  params elem
  ensures len(elem) == 2 ==> result == join2(elem[0], elem[1])
  ensures len(elem) == 3 ==> result == join3(elem[0], elem[1], elem[2])
extern path.IsAbs
  pureuf
  params path
  ensures result <==> hasPrefix(path, "/")
extern path/filepath.IsAbs
  pureuf
  params path
  ensures result <==> hasPrefix(path, "/")
pred inside(p string) = p != "." && p != ".." && !hasPrefix(p, "../") && !hasPrefix(p, "/")
pred goodPath(dir string, name string) = !hasPrefix(dir, "/") && !hasPrefix(name, "/") && name != "" && inside(join2(dir, name))
extern github.com/stoewer/go-strcase.SnakeCase
  pureuf
  params s

# The status of an error, and what an error is about.
logic statusOf(e error) int
logic errIs(e error, target error) bool
extern errors.Is
  params err target
  ensures result <==> errIs(err, target)
extern os.IsNotExist
  params err
  ensures result ==> errIs(err, os.ErrNotExist)
extern os.IsPermission
  params err
  ensures result ==> errIs(err, os.ErrPermission)
extern google.golang.org/grpc.Errorf
  params c format a
  ensures c != 0 ==> result != nil && statusOf(result) == c
extern google.golang.org/grpc/status.Errorf
  params c format a
  ensures c != 0 ==> result != nil && statusOf(result) == c
extern google.golang.org/grpc/status.Error
  params c msg
  ensures c != 0 ==> result != nil && statusOf(result) == c
pred reflects(code int, cause error) = ite(errIs(cause, os.ErrNotExist), code == 5, ite(errIs(cause, os.ErrPermission), code == 7, code != 0 && code != 5 && code != 7))

# The files written and read, in order.
ghost wfCount int
ghost wfPath map[int]string
ghost wfData map[int][]byte
ghost wfErr map[int]error
fnval func(context.Context, string, []byte) error
  params ctx path data
  ghostset wfPath[wfCount] := path
  ghostset wfData[wfCount] := data
  ghostset wfErr[wfCount] := result
  ghostset wfCount := wfCount + 1
ghost rfCount int
ghost rfPath map[int]string
ghost rfData map[int][]byte
ghost rfErr map[int]error
fnval func(context.Context, string) ([]byte, error)
  params ctx path
  ghostset rfPath[rfCount] := path
  ghostset rfData[rfCount] := result0
  ghostset rfErr[rfCount] := result1
  ghostset rfCount := rfCount + 1

func fileErrToStatusErr
  properties V01 V02
  params path cause
  requires cause != nil
  ensures result != nil && reflects(statusOf(result), cause)
func pathFromParts
  properties V01
  params workspace dir fileName
  ensures refused: result1 == nil <==> goodPath(dir, fileName)
  ensures below: result1 == nil ==> result0 == join2(workspace, join2(dir, fileName))

pred root(s *service, req *service.GenerateCodeRequest) string = ite(req.WorkspacePath != "", req.WorkspacePath, s.defaultWorkspaceDir)
pred wantProto(req *service.GenerateCodeRequest) bool = req != nil && req.Mapping != nil && req.ProtoDefinition != nil
pred wantGo(req *service.GenerateCodeRequest) bool = req != nil && req.Mapping != nil && req.Converter != nil
pred protoName(req *service.GenerateCodeRequest) string = ite(req.ProtoDefinition.ProtoFileName != "", req.ProtoDefinition.ProtoFileName, ite(req.Mapping.MessageName == "", "untitled_record.proto", strcase.SnakeCase(req.Mapping.MessageName) + ".proto"))
pred goName(req *service.GenerateCodeRequest) string = ite(req.Converter.GoFileName != "", req.Converter.GoFileName, ite(req.Mapping.MessageName == "", "untitled_record_converter.go", strcase.SnakeCase(req.Mapping.MessageName) + ".go"))
pred protoRel(req *service.GenerateCodeRequest) string = join2(req.ProtoDefinition.Directory, protoName(req))
pred goRel(req *service.GenerateCodeRequest) string = join2(req.Converter.Directory, goName(req))
func (*service).protoPath
  properties V01
  params s req
  requires s != nil && wantProto(req)
  ensures refused: result2 == nil <==> goodPath(req.ProtoDefinition.Directory, protoName(req))
  ensures below: result2 == nil ==> result0 == join2(root(s, req), protoRel(req)) && result1 == protoRel(req)
func (*service).converterGoPath
  properties V01
  params s req
  requires s != nil && wantGo(req)
  ensures refused: result2 == nil <==> goodPath(req.Converter.Directory, goName(req))
  ensures below: result2 == nil ==> result0 == join2(root(s, req), goRel(req)) && result1 == goRel(req)

func (*service).GenerateCode
  properties V01
  params s ctx req
  requires s != nil && s.writeFile != nil
  requires req != nil && req.Mapping != nil ==> mappingOK(req.Mapping)
  modifies wfCount, wfPath, wfData, wfErr
  let n = wfCount
  let np = ite(wantProto(req), 1, 0)
  ensures missing: req == nil || req.Mapping == nil ==> result1 != nil && statusOf(result1) == 3 && wfCount == n
  ensures proto-refused: wantProto(req) && !goodPath(req.ProtoDefinition.Directory, protoName(req)) ==> result1 != nil && statusOf(result1) == 3 && wfCount == n
  ensures go-refused: wantGo(req) && !goodPath(req.Converter.Directory, goName(req)) ==> result1 != nil && statusOf(result1) == 3 && wfCount == n
  ensures count: wfCount <= n + np + ite(wantGo(req), 1, 0)
  ensures proto-where: wfCount > n && np == 1 ==> wfPath[n] == join2(root(s, req), protoRel(req)) && inside(protoRel(req))
  ensures go-where: wfCount > n + np ==> wfPath[n+np] == join2(root(s, req), goRel(req)) && inside(goRel(req))
  ensures written: result1 == nil ==> wfCount == n + np + ite(wantGo(req), 1, 0) && (forall k int :: {wfErr[k]} n <= k && k < wfCount ==> wfErr[k] == nil)
  ensures failed: wfCount > n && wfErr[wfCount-1] != nil ==> result1 != nil && reflects(statusOf(result1), wfErr[wfCount-1])
  ensures first-error: forall k int :: {wfErr[k]} n <= k && k < wfCount - 1 ==> wfErr[k] == nil
  ensures proto-told: result1 == nil ==> result0 != nil && (result0.ProtoFile != nil <==> wantProto(req)) && (result0.ProtoFile != nil ==> result0.ProtoFile.WorkspaceRelativePath == protoRel(req) && seqeq(result0.ProtoFile.NewContents, wfData[n]))
  ensures go-told: result1 == nil ==> result0 != nil && (result0.ConverterGoFile != nil <==> wantGo(req)) && (result0.ConverterGoFile != nil ==> result0.ConverterGoFile.WorkspaceRelativePath == goRel(req) && seqeq(result0.ConverterGoFile.NewContents, wfData[n+np]))

# The example an inference request names: the text given, or the file named.
pred inputIs(req *service.InferRequest, k int) *service.InputFile = req.ExampleInputs[k]
pred inline(f *service.InputFile) bool = f != nil && is(f.Spec, *service.InputFile_InputContent) && as(f.Spec, *service.InputFile_InputContent) != nil && len(as(f.Spec, *service.InputFile_InputContent).InputContent) > 0
pred named(f *service.InputFile) bool = f != nil && is(f.Spec, *service.InputFile_InputPath) && as(f.Spec, *service.InputFile_InputPath) != nil && as(f.Spec, *service.InputFile_InputPath).InputPath != ""
pred zoneBad(req *service.InferRequest) bool = req != nil && req.TimestampLocation != "" && !zoneOK(req.TimestampLocation)
func (*service).Infer
  properties V02
  params s ctx req
  requires s != nil && s.readFile != nil
  requires req != nil && len(req.ExampleInputs) == 1 && req.ExampleInputs[0] != nil ==> (is(req.ExampleInputs[0].Spec, *service.InputFile_InputContent) ==> as(req.ExampleInputs[0].Spec, *service.InputFile_InputContent) != nil) && (is(req.ExampleInputs[0].Spec, *service.InputFile_InputPath) ==> as(req.ExampleInputs[0].Spec, *service.InputFile_InputPath) != nil)
  modifies rfCount, rfPath, rfData, rfErr, infCount, infText, infOpts, infOut, infErr
  let n = rfCount
  let m = infCount
  let one = req != nil && len(req.ExampleInputs) == 1
  let given = one && inline(req.ExampleInputs[0])
  let file = one && !given && named(req.ExampleInputs[0])
  ensures zone: zoneBad(req) ==> result1 != nil && statusOf(result1) == 3 && rfCount == n
  ensures one-input: !one ==> result1 != nil && statusOf(result1) == 3 && rfCount == n
  ensures some-input: one && !given && !file ==> result1 != nil && statusOf(result1) == 3 && rfCount == n
  ensures not-read: !file ==> rfCount == n
  ensures read: rfCount > n ==> rfCount == n + 1 && rfPath[n] == as(req.ExampleInputs[0].Spec, *service.InputFile_InputPath).InputPath
  ensures read-failed: rfCount > n && rfErr[n] != nil ==> result1 != nil && reflects(statusOf(result1), rfErr[n]) && infCount == m
  ensures inferred: result1 == nil ==> infCount == m + 1 && infErr[m] == nil
  ensures from-content: infCount > m && given ==> infText[m] == string(as(req.ExampleInputs[0].Spec, *service.InputFile_InputContent).InputContent)
  ensures from-file: infCount > m && file ==> rfCount == n + 1 && rfErr[n] == nil && infText[m] == string(rfData[n])
  ensures named-as-asked: infCount > m ==> infOpts[m] != nil && infOpts[m].MessageName == req.MessageName && infOpts[m].PackageName == req.PackageName && infOpts[m].GoPackageName == req.GoPackageName && infOpts[m].GoProtoImport == req.GoProtoImport
  ensures zone-used: infCount > m ==> infOpts[m].TimestampLocation == ite(req.TimestampLocation != "", zoneOf(req.TimestampLocation), time.UTC)
  ensures failed: infCount > m && infErr[m] != nil ==> result1 != nil
  ensures answer: result1 == nil ==> result0 != nil && result0.BestMappingCandidate != nil && result0.BestMappingCandidate.TopLevelMapping != nil && result0.BestMappingCandidate.TopLevelMapping.MessageName == req.MessageName && result0.BestMappingCandidate.TopLevelMapping.PackageName == req.PackageName && len(result0.BestMappingCandidate.TopLevelMapping.ColumnToFieldMappings) == csvCols(infText[m])
