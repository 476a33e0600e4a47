package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// drawAny draws an integer or a float, and the other one if it is equal.
func drawAny(c gen.Ch, label string) (v, w interface{}) {
	if gen.Bool(c, label+" integer") {
		n := drawInt(c, label)
		if f := float64(n); f < math.MaxInt64 && int64(f) == n {
			return n, f
		}
		return n, nil
	}
	f := drawNum(c, label)
	if f == math.Trunc(f) && f >= math.MinInt64 && f < math.MaxInt64 {
		return f, int64(f)
	}
	return f, nil
}

// drawInt draws integers of all sizes.
func drawInt(c gen.Ch, label string) int64 {
	var n int64
	switch c.Int(label+" size", 0, 4) {
	case 0:
		n = int64(c.Int(label, 0, 20))
	case 1:
		n = int64(c.Int(label, 0, 2000000))
	case 2:
		n = gen.Pick[int64](c, label, 0, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 1000000000, 999999999999, 1000000000000, 1<<53-1, 1<<53, 1<<53+1, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1)
	case 3:
		n = int64(c.U64(label))
		n >>= uint(c.Int(label+" shift", 0, 60))
	default:
		n = int64(math.Pow10(c.Int(label+" pow", 0, 18))) + int64(c.Int(label+" off", -1, 1))
	}
	if n != math.MinInt64 && c.Int(label+" neg", 0, 2) == 2 {
		n = -n
	}
	return n
}

func TestC20(t *testing.T) {
	prop(t, func(c *Case) {
		n := c.C.Int("numbers", 1, 6)
		var vs []interface{}
		fm := &commonxl.Formatter{}
		sh := &commonxl.Sheet{Formatter: fm}
		var sample string
		for i := 0; i < n; i++ {
			v, w := drawAny(c.C, "number")
			vs = append(vs, v)
			for k, id := range ref.NumberIDs {
				s, ok := fm.Apply(uint16(id), v)
				if !ok {
					c.Fatalf("format %d is unknown", id)
				}
				if err := ref.Builtin(id, s, v); err != nil {
					c.Fatalf("%T: %v", v, err)
				}
				ff, ok := fm.Get(uint16(id))
				if !ok || ff(fm, v) != s {
					c.Fatalf("format %d: Get and Apply differ for %v", id, v)
				}
				if w != nil {
					if s2, _ := fm.Apply(uint16(id), w); s2 != s {
						c.Fatalf("format %d shows %T %v as %q but %T %v as %q", id, v, v, s, w, w, s2)
					}
				}
				sh.Put(i, k, v, uint16(id))
				if k == i%len(ref.NumberIDs) {
					sample = fmt.Sprintf("format %d shows %v as %q", id, v, s)
				}
			}
			c.Label("%T", v)
		}
		// in a sheet
		for i := 0; sh.Next(); i++ {
			for k, s := range sh.Strings() {
				if err := ref.Builtin(ref.NumberIDs[k], s, vs[i]); err != nil {
					c.Fatalf("sheet: %T: %v", vs[i], err)
				}
			}
		}
		// and in a file
		if gen.Rare(c.C, "file", 12) {
			b := &model.Book{XFs: append([]int{0}, ref.NumberIDs...)}
			s := &model.Sheet{Name: "Numbers"}
			b.Sheets = []*model.Sheet{s}
			for r, v := range vs {
				f, ok := v.(float64)
				if !ok {
					f = float64(v.(int64))
				}
				for k := c.C.Int("formats", 1, 8); k > 0; k-- {
					s.Cells = append(s.Cells, &model.Cell{R: r, C: k - 1, K: model.Num, F: f, XF: c.C.Int("format", 1, len(b.XFs)-1), Formula: gen.Rare(c.C, "formula", 15)})
					s.Cols = max(s.Cols, k)
				}
			}
			s.Rows = len(vs)
			file := gen.Pick(c.C, "file format", "xls", "xlsx")
			var data []byte
			if file == "xls" {
				data, _ = storeXLS(c, b)
			} else {
				data, _ = storeXLSX(c, b)
			}
			src, err := openAs(c, file, c.File("a."+file, data))
			if err != nil {
				c.Fatalf("open: %v", err)
			}
			defer src.Close()
			rows, err := getSheet(src, s.Name)
			if err != nil {
				c.Fatalf("get: %v", err)
			}
			if err := expect(b, s, file).compare(rows); err != nil {
				c.Fatalf("%s: %v", file, err)
			}
			c.Label("%s file", file)
		}
		for _, v := range vs {
			if f, ok := v.(float64); !ok || math.Abs(f) >= 0.005 {
				c.NonTrivial(vs...)
				c.Sample("%s", sample)
				break
			}
		}
	})
}
