package csvtoprotoparse

# Time zones, layouts and units are those of package time: which names, texts
# and units are accepted, and the values they denote.
logic zoneOK(name string) bool
logic zoneOf(name string) *time.Location
logic timeOK(layout string, s string, loc *time.Location) bool
logic timeVal(layout string, s string, loc *time.Location) time.Time
logic spanOK(s string) bool
logic spanVal(s string) int
logic unixOf(t time.Time) int
logic nanosOf(t time.Time) int
extern time.LoadLocation
  params name
  ensures result1 == nil <==> zoneOK(name)
  ensures result1 == nil ==> result0 == zoneOf(name)
extern time.ParseInLocation
  params layout value loc
  ensures result1 == nil <==> timeOK(layout, value, loc)
  ensures result1 == nil ==> result0 == timeVal(layout, value, loc)
extern time.Parse
  params layout value
  ensures result1 == nil <==> timeOK(layout, value, time.UTC)
  ensures result1 == nil ==> result0 == timeVal(layout, value, time.UTC)
extern time.ParseDuration
  params s
  ensures result1 == nil <==> spanOK(s)
  ensures result1 == nil ==> result0 == spanVal(s)
extern (time.Time).Unix
  params t
  ensures result == unixOf(t)
extern (time.Time).Nanosecond
  params t
  ensures result == nanosOf(t) && 0 <= result && result < 1000000000
extern (time.Duration).Nanoseconds
  params d
  ensures result == d
# A timestamp message denotes the years 1 to 9999.
pred stampOK(sec int, nanos int) = 0 - 62135596800 <= sec && sec < 253402300800 && 0 <= nanos && nanos < 1000000000
extern github.com/golang/protobuf/ptypes.TimestampProto
  params t
  ensures result1 == nil <==> stampOK(unixOf(t), nanosOf(t))
  ensures result1 == nil ==> result0 != nil && fresh(result0) && result0.Seconds == unixOf(t) && result0.Nanos == nanosOf(t)
extern google.golang.org/protobuf/types/known/timestamppb.New
  params t
  ensures result != nil && fresh(result) && result.Seconds == unixOf(t) && result.Nanos == nanosOf(t)
extern (*google.golang.org/protobuf/types/known/timestamppb.Timestamp).CheckValid
  params ts
  ensures result == nil <==> ts != nil && stampOK(ts.Seconds, ts.Nanos)
extern (*google.golang.org/protobuf/types/known/timestamppb.Timestamp).IsValid
  params ts
  ensures result <==> ts != nil && stampOK(ts.Seconds, ts.Nanos)
pred spanMsg(sec int, nanos int, d int) = sec * 1000000000 + nanos == d && 0 - 1000000000 < nanos && nanos < 1000000000 && (sec > 0 ==> nanos >= 0) && (sec < 0 ==> nanos <= 0)
extern github.com/golang/protobuf/ptypes.DurationProto
  params d
  ensures result != nil && fresh(result) && spanMsg(result.Seconds, result.Nanos, d)
extern google.golang.org/protobuf/types/known/durationpb.New
  params d
  ensures result != nil && fresh(result) && spanMsg(result.Seconds, result.Nanos, d)

func ParseFloat
  properties P02
  params rawValue
  ensures range: result1 == nil <==> floatOK(rawValue, 32)
  ensures value: result1 == nil ==> same(result0, float32(floatVal(rawValue, 32)))
func ParseDouble
  properties P02
  params rawValue
  ensures range: result1 == nil <==> floatOK(rawValue, 64)
  ensures value: result1 == nil ==> same(result0, floatVal(rawValue, 64))
func ParseInt32
  properties P02
  params rawValue
  ensures range: result1 == nil <==> inInt(rawValue, 32)
  ensures value: result1 == nil ==> result0 == intVal(rawValue)
func ParseInt64
  properties P02
  params rawValue
  ensures range: result1 == nil <==> inInt(rawValue, 64)
  ensures value: result1 == nil ==> result0 == intVal(rawValue)
func ParseString
  properties P02
  params rawValue
  ensures result1 == nil && result0 == rawValue

func ParseTimestamp
  properties P02
  params rawValue layout timezone
  ensures zone: !zoneOK(timezone) ==> result1 != nil
  ensures accepted: zoneOK(timezone) ==> (result1 == nil <==> timeOK(layout, rawValue, zoneOf(timezone)) && stampOK(unixOf(timeVal(layout, rawValue, zoneOf(timezone))), nanosOf(timeVal(layout, rawValue, zoneOf(timezone)))))
  ensures value: result1 == nil ==> result0 != nil && result0.Seconds == unixOf(timeVal(layout, rawValue, zoneOf(timezone))) && result0.Nanos == nanosOf(timeVal(layout, rawValue, zoneOf(timezone)))
func TimeToTimestamp
  properties P02
  params t
  ensures accepted: result1 == nil <==> stampOK(unixOf(t), nanosOf(t))
  ensures value: result1 == nil ==> result0 != nil && result0.Seconds == unixOf(t) && result0.Nanos == nanosOf(t)
func ParseDuration
  properties P02
  params rawValue unit
  ensures accepted: result1 == nil <==> spanOK(rawValue + unit)
  ensures value: result1 == nil ==> result0 != nil && spanMsg(result0.Seconds, result0.Nanos, spanVal(rawValue + unit))
func DurationToDurationProto
  properties P02
  params d
  ensures value: result1 == nil && result0 != nil && spanMsg(result0.Seconds, result0.Nanos, d)
func MustLoadLocation
  properties P02
  params name
  panics !zoneOK(name)
  ensures result == zoneOf(name)
