package props

import (
	"fmt"
	"math"
	"strconv"
	"testing"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// drawWide draws numbers around the limits of the width of the general format.
func drawWide(c gen.Ch, label string) float64 {
	switch c.Int(label+" wide", 0, 5) {
	case 0, 1:
		return drawNum(c, label)
	case 2:
		// that many significant digits, somewhere around the point
		n := c.Int(label+" digits", 1, 17)
		s := ""
		for i := 0; i < n; i++ {
			s += strconv.Itoa(c.Int(label+" digit", 0, 9))
		}
		f, _ := strconv.ParseFloat(s+"e"+strconv.Itoa(c.Int(label+" exponent", -20, 8)), 64)
		if gen.Bool(c, label+" neg") && f != 0 {
			f = -f
		}
		return f
	case 3:
		// carries to one more digit
		f := math.Pow10(c.Int(label+" pow", -8, 16))
		f -= f * math.Pow10(-c.Int(label+" nines", 1, 16))
		if gen.Bool(c, label+" neg") {
			f = -f
		}
		return f
	case 4:
		return float64(drawInt(c, label))
	default:
		f := math.Float64frombits(c.U64(label))
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
			return 1e-10
		}
		return f
	}
}

func TestC27(t *testing.T) {
	prop(t, func(c *Case) {
		fm := &commonxl.Formatter{}
		fm.Mode1904(gen.Bool(c.C, "1904"))
		s := &model.Sheet{Name: "General"}
		b := &model.Book{XFs: []int{0}, Sheets: []*model.Sheet{s}}
		if gen.Bool(c.C, "styles") {
			b.XFs = append(b.XFs, 0, 49)
		}
		var vs []interface{}
		sh := &commonxl.Sheet{Formatter: fm}
		check := func(v interface{}, got string) error {
			switch v := v.(type) {
			case int64:
				if got != strconv.FormatInt(v, 10) {
					return fmt.Errorf("integer %d is displayed as %q", v, got)
				}
			case float64:
				return ref.General(got, v)
			case bool:
				return same(map[bool]string{true: "TRUE", false: "FALSE"}[v])(got)
			case string:
				return same(v)(got)
			}
			return nil
		}
		wide := false
		for n := c.C.Int("cells", 1, 8); n > 0; n-- {
			var v interface{}
			i := len(vs)
			x := &model.Cell{R: i / 4, C: i % 4, XF: c.C.Int("xf", 0, len(b.XFs)-1), Formula: gen.Rare(c.C, "formula", 15)}
			switch c.C.Int("value", 0, 9) {
			case 0:
				x.S, x.K = gen.Text(c.C, "text", 1, 40), model.Text
				v = x.S
			case 1:
				x.B, x.K = gen.Bool(c.C, "bool"), model.Bool
				v = x.B
			case 2, 3:
				v = drawInt(c.C, "integer")
				x.F, x.K = float64(v.(int64)), model.Num
			default:
				x.F, x.K = drawWide(c.C, "number"), model.Num
				v = x.F
				if x.F == 0 {
					x.F, v = 0, 0.0
				}
				wide = wide || x.F != math.Trunc(x.F)
			}
			vs = append(vs, v)
			s.Cells = append(s.Cells, x)
			s.Rows, s.Cols = x.R+1, max(s.Cols, x.C+1)
			got, ok := fm.Apply(0, v)
			if !ok {
				c.Fatalf("the general format is unknown")
			}
			if err := check(v, got); err != nil {
				c.Fatalf("%v", err)
			}
			sh.Put(x.R, x.C, v, 0)
			c.Label("%T", v)
		}
		for r := 0; sh.Next(); r++ {
			for k, got := range sh.Strings() {
				if i := r*4 + k; i < len(vs) {
					if err := check(vs[i], got); err != nil {
						c.Fatalf("sheet: %v", err)
					}
				}
			}
		}
		if gen.Rare(c.C, "file", 30) {
			file := gen.Pick(c.C, "file format", "xls", "xlsx")
			var data []byte
			if file == "xls" {
				data, _ = storeXLS(c, b)
			} else {
				data, _ = storeXLSX(c, b)
			}
			src, err := openAs(c, file, c.File("a."+file, data))
			if err != nil {
				c.Fatalf("open: %v", err)
			}
			defer src.Close()
			rows, err := getSheet(src, s.Name)
			if err != nil {
				c.Fatalf("get: %v", err)
			}
			if err := expect(b, s, file).compare(rows); err != nil {
				c.Fatalf("%s: %v", file, err)
			}
			c.Label("%s file", file)
		}
		if wide || len(vs) > 2 {
			c.NonTrivial(vs)
			got, _ := fm.Apply(0, vs[len(vs)-1])
			c.Sample("%v is shown as %q", vs[len(vs)-1], got)
		}
	})
}
