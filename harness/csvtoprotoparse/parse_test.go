package csvtoprotoparse

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"testing"
	"time"
)

var vDecimal = regexp.MustCompile(`^[+-]?[0-9]+$`)

func vNumberText(r *rand.Rand) string {
	edges := []string{"0", "-0", "+7", "", " 1", "1 ", "0x10", "1_000", "01", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967296", "18446744073709551616", "1.0", "1e3", "1,000", "३", "1-", "--1", "+-1", "abc", "true", "1\n"}
	switch r.Intn(3) {
	case 0:
		return edges[r.Intn(len(edges))]
	case 1:
		v := r.Int63() >> uint(r.Intn(63))
		if r.Intn(2) == 0 {
			v = -v
		}
		return fmt.Sprint(v)
	}
	b := []byte(fmt.Sprint(r.Int63() >> uint(r.Intn(63))))
	b[r.Intn(len(b))] = "0123456789+-. _xe"[r.Intn(17)]
	if r.Intn(4) == 0 {
		b = append(b, b...)
	}
	return string(b)
}

func TestVerif_P02_ints(t *testing.T) {
	r := vRand(501)
	for i := 0; i < vScale(20000); i++ {
		s := vNumberText(r)
		vCase("P02", strconv.Quote(s))
		want, ok := new(big.Int), false
		if vDecimal.MatchString(s) {
			_, ok = want.SetString(s, 10)
		}
		ok64 := ok && want.IsInt64()
		ok32 := ok64 && want.Int64() >= math.MinInt32 && want.Int64() <= math.MaxInt32
		v32, err := ParseInt32(s)
		if (err == nil) != ok32 || ok32 && int64(v32) != want.Int64() {
			vFail(t, "P02", "int32", strconv.Quote(s), fmt.Sprint("ParseInt32 returned ", v32, ", ", err))
		}
		v64, err := ParseInt64(s)
		if (err == nil) != ok64 || ok64 && v64 != want.Int64() {
			vFail(t, "P02", "int64", strconv.Quote(s), fmt.Sprint("ParseInt64 returned ", v64, ", ", err))
		}
		if v, err := ParseString(s); v != s || err != nil {
			vFail(t, "P02", "string", strconv.Quote(s), fmt.Sprintf("ParseString returned %q, %v", v, err))
		}
	}
	vDone("P02")
}

func TestVerif_P02_floats(t *testing.T) {
	r := vRand(502)
	edges := []string{"3.4028234663852886e38", "3.4028236e38", "3.5e38", "-3.5e38", "1e39", "1e308", "1.8e308", "-1e309", "1e-45", "1e-46", "1e-400", "nan", "NaN", "inf", "-Inf", "infinity", "+inf", "1.", ".5", ".", "", "1e", "1e+", "1,5", " 1", "1 ", "0x1p-2", "0x1", "1_0", "1f", "1.5.2", "--1", "1e1000", "16777217", "9007199254740993", "0.1"}
	for i := 0; i < vScale(20000); i++ {
		var s string
		switch r.Intn(4) {
		case 0:
			s = edges[r.Intn(len(edges))]
		case 1:
			s = vNumberText(r)
		case 2:
			s = strconv.FormatFloat(math.Float64frombits(r.Uint64()), 'g', -1, 64)
		default:
			s = strconv.FormatFloat(float64(math.Float32frombits(r.Uint32())), 'e', r.Intn(12), 64)
		}
		vCase("P02", strconv.Quote(s))
		w32, e32 := strconv.ParseFloat(s, 32)
		w64, e64 := strconv.ParseFloat(s, 64)
		v32, err := ParseFloat(s)
		if (err == nil) != (e32 == nil) || err == nil && v32 != float32(w32) && !(w32 != w32 && v32 != v32) {
			vFail(t, "P02", "float", strconv.Quote(s), fmt.Sprint("ParseFloat returned ", v32, ", ", err))
		}
		v64, err := ParseDouble(s)
		if (err == nil) != (e64 == nil) || err == nil && math.Float64bits(v64) != math.Float64bits(w64) {
			vFail(t, "P02", "double", strconv.Quote(s), fmt.Sprint("ParseDouble returned ", v64, ", ", err))
		}
	}
	vDone("P02")
}

func TestVerif_P02_times(t *testing.T) {
	r := vRand(503)
	layouts := []string{time.RFC3339, time.RFC3339Nano, "2006-01-02 15:04:05", "2006-01-02", "Jan 2, 2006 at 3:04pm (MST)", "2006-01-02 15:04:05.000000000 -0700", "02/01/06"}
	zones := []string{"UTC", "", "America/Los_Angeles", "Europe/Berlin", "Asia/Kolkata", "Not/AZone", "../etc"}
	for i := 0; i < vScale(6000); i++ {
		layout := layouts[r.Intn(len(layouts))]
		zone := zones[r.Intn(len(zones))]
		at := time.Unix(r.Int63n(300000000000)-70000000000, r.Int63n(1000000000)).UTC()
		if l, err := time.LoadLocation(zone); err == nil {
			at = at.In(l)
		}
		s := at.Format(layouts[r.Intn(len(layouts))])
		if r.Intn(3) > 0 {
			s = at.Format(layout)
		}
		if r.Intn(6) == 0 {
			s += []string{" ", "x", "0", "Z", "+01:00"}[r.Intn(5)]
		}
		in := fmt.Sprintf("%q %q %q", s, layout, zone)
		vCase("P02", in)
		var want time.Time
		loc, err := time.LoadLocation(zone)
		if err == nil {
			want, err = time.ParseInLocation(layout, s, loc)
		}
		ok := err == nil && want.Unix() >= -62135596800 && want.Unix() < 253402300800
		got, err := ParseTimestamp(s, layout, zone)
		if (err == nil) != ok {
			vFail(t, "P02", "timestamp-accepted", in, fmt.Sprint("ParseTimestamp returned ", got, ", ", err))
		} else if ok && (got.GetSeconds() != want.Unix() || int(got.GetNanos()) != want.Nanosecond()) {
			vFail(t, "P02", "timestamp", in, fmt.Sprint("ParseTimestamp returned ", got.GetSeconds(), " ", got.GetNanos(), ", want ", want))
		}
		if err := vTry(func() { MustLoadLocation(zone) }); (err == "") != (loc != nil) {
			vFail(t, "P02", "zone", in, "MustLoadLocation: "+err)
		}
		if w, err := TimeToTimestamp(at); err == nil && (w.GetSeconds() != at.Unix() || int(w.GetNanos()) != at.Nanosecond()) || (err == nil) != (at.Unix() >= -62135596800 && at.Unix() < 253402300800) {
			vFail(t, "P02", "time", at.String(), fmt.Sprint("TimeToTimestamp returned ", w, ", ", err))
		}
	}
	vDone("P02")
}

func TestVerif_P02_durations(t *testing.T) {
	r := vRand(504)
	units := []string{"", "s", "ms", "h", "ns", "m", "us", "x", "seconds"}
	for i := 0; i < vScale(6000); i++ {
		unit := units[r.Intn(len(units))]
		var s string
		switch r.Intn(4) {
		case 0:
			s = time.Duration(r.Int63() >> uint(r.Intn(63))).String()
		case 1:
			s = fmt.Sprint(r.Intn(4000)-2000, ".", r.Intn(1000))
		case 2:
			s = vNumberText(r)
		default:
			s = []string{"", "-", "1h2", "1.5", ".5", "1e3", "9223372036", "9223372037", "2562048", "-1.000000001", " 1", "1s", "0"}[r.Intn(13)]
		}
		in := fmt.Sprintf("%q %q", s, unit)
		vCase("P02", in)
		want, werr := time.ParseDuration(s + unit)
		got, err := ParseDuration(s, unit)
		if (err == nil) != (werr == nil) {
			vFail(t, "P02", "duration-accepted", in, fmt.Sprint("ParseDuration returned ", got, ", ", err))
		} else if err == nil && (got.GetSeconds() != int64(want/time.Second) || got.GetNanos() != int32(want%time.Second)) {
			vFail(t, "P02", "duration", in, fmt.Sprint("ParseDuration returned ", got, ", want ", want))
		}
		if w, err := DurationToDurationProto(want); err != nil || w.GetSeconds() != int64(want/time.Second) || w.GetNanos() != int32(want%time.Second) {
			vFail(t, "P02", "span", fmt.Sprint(int64(want)), fmt.Sprint("DurationToDurationProto returned ", w, ", ", err))
		}
	}
	vDone("P02")
}
