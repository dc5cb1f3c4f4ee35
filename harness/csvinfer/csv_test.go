package csvinfer

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/recordinfer"
)

func TestVerif_R01_csv(t *testing.T) {
	r := vRand(711)
	cells := []string{"1", "2", "x", "", "a,b", "q\"q", "l\nl", "1.5", "2019-1-2", "20190102", " s", "é"}
	for i := 0; i < vScale(2000); i++ {
		cols, n := 1+r.Intn(4), r.Intn(5)
		var rows [][]string
		for k := 0; k < n; k++ {
			var row []string
			for c := 0; c < cols; c++ {
				row = append(row, cells[r.Intn(len(cells))])
			}
			if r.Intn(12) == 0 {
				row = append(row, "extra")
			}
			if len(row) == 1 && row[0] == "" {
				row[0] = "e"
			}
			rows = append(rows, row)
		}
		buf := &bytes.Buffer{}
		w := csv.NewWriter(buf)
		w.WriteAll(rows)
		text := buf.String()
		if r.Intn(15) == 0 {
			text += "\"broken"
			rows = nil
		}
		in := fmt.Sprintf("%q", text)
		vCase("R01", in)
		o := &recordinfer.Options{MessageName: "M", PackageName: "p"}
		ok := len(rows) >= 2
		b := recordinfer.NewRecordBasedInferrer(o)
		for _, row := range rows {
			if err := b.AddRow(row); err != nil {
				ok = false
			}
		}
		ip, err := InferProto(text, o)
		if (err == nil) != ok {
			vFail(t, "R01", "csv-refused", in, fmt.Sprint("InferProto returned the error ", err))
			continue
		}
		if err != nil {
			continue
		}
		want, err := b.Build()
		if err != nil {
			continue
		}
		if !proto.Equal(ip.Mapping(), want.Mapping()) || ip.Code() != want.Code() {
			vFail(t, "R01", "csv-rows", in, fmt.Sprintf("inferred %v from the text and %v from its rows", ip.Mapping(), want.Mapping()))
		}
	}
	vDone("R01")
}
