package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf16"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/ref"
)

// goValue draws a value of any supported Go type, with the value and kind of its cell.
func goValue(c gen.Ch) (v, cell interface{}, kind string) {
	i := drawInt(c, "integer")
	text := func() (string, interface{}, string) {
		s := gen.Text(c, "text", 0, 20)
		if gen.Rare(c, "numeric text", 40) {
			s = gen.Pick(c, "which", "1", "-10", "9223372036854775807", "9223372036854775808", "1.5", "01", "+7", "1e5", "-0.0", "TRUE", "true", "false", "FALSE", "yes", "0", "NaN", "x1", "1 ", "1_0")
		}
		if gen.Rare(c, "boolean text", 10) {
			s = boolWords[c.Int("word", 0, len(boolWords)-1)].text
			if gen.Bool(c, "upper") {
				s = strings.ToUpper(s)
			}
		}
		if s == "" {
			return s, nil, "blank"
		}
		return s, s, "string"
	}
	switch c.Int("go type", 0, 19) {
	case 0:
		return i, i, "integer"
	case 1:
		b := gen.Bool(c, "bool")
		return b, b, "boolean"
	case 2:
		return int(i), i, "integer"
	case 3:
		return int8(i), int64(int8(i)), "integer"
	case 4:
		return int16(i), int64(int16(i)), "integer"
	case 5:
		return int32(i), int64(int32(i)), "integer"
	case 6:
		return uint8(i), int64(uint8(i)), "integer"
	case 7:
		return uint16(i), int64(uint16(i)), "integer"
	case 8:
		return uint32(i), int64(uint32(i)), "integer"
	case 9, 10:
		u := uint64(i)
		var x interface{} = int64(u)
		k := "integer"
		if u > math.MaxInt64 {
			x, k = float64(u), "float"
		}
		if gen.Bool(c, "uint") {
			return uint(u), x, k
		}
		return u, x, k
	case 11:
		f := float32(drawNum(c, "float32"))
		return f, float64(f), "float"
	case 12, 13:
		f := anyFloat(c)
		return f, f, "float"
	case 14:
		return text()
	case 15:
		if gen.Rare(c, "any bytes", 20) {
			// not all of them are UTF-8
			b := gen.Bytes(c, "bytes", c.Int("length", 1, 12))
			return b, string(b), "string"
		}
		s, v, k := text()
		return []byte(s), v, k
	case 16:
		s, v, k := text()
		return utf16.Encode([]rune(s)), v, k
	case 17:
		s, v, k := text()
		return []rune(s), v, k
	case 18:
		s, v, k := text()
		return bytes.NewBufferString(s), v, k
	default:
		t := anyTime(c)
		return t, t, "date"
	}
}

func anyFloat(c gen.Ch) float64 {
	if gen.Rare(c, "special", 12) {
		return gen.Pick(c, "which", math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, math.MaxInt64, math.MinInt64, 1<<53, 1<<53+2, math.MaxFloat64)
	}
	f := drawNum(c, "float")
	if gen.Bool(c, "whole") {
		f = math.Trunc(f)
	}
	return f
}

func anyTime(c gen.Ch) time.Time {
	if gen.Rare(c, "no time", 3) {
		return time.Time{}
	}
	f, _, _ := drawSerial(c, "date")
	t := (*commonxl.Formatter)(nil).ConvertToDate(f)
	if gen.Rare(c, "other zone", 20) {
		t = t.In(time.FixedZone("x", 3600*c.Int("zone", -11, 11)))
	}
	if gen.Rare(c, "nanoseconds", 20) {
		t = t.Add(time.Duration(c.Int("ns", -3, 3)))
	}
	return t
}

func sameValue(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y)
	}
	return a == b
}

// number as an exact fraction, and whether it is one
func exactly(v interface{}) (*big.Rat, bool) {
	switch x := v.(type) {
	case bool:
		if x {
			return big.NewRat(1, 1), true
		}
		return new(big.Rat), true
	case int64:
		return new(big.Rat).SetInt64(x), true
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return ref.Rat(x), true
	}
	return nil, false
}

var cellTypes = []commonxl.CellType{commonxl.BlankCell, commonxl.IntegerCell, commonxl.FloatCell, commonxl.StringCell, commonxl.BooleanCell, commonxl.DateCell, commonxl.HyperlinkStringCell, commonxl.StaticCell}

var boolWords = []struct {
	text string
	val  bool
}{
	{"true", true}, {"yes", true}, {"on", true}, {"t", true}, {"y", true}, {"1", true}, {"1.0", true},
	{"false", false}, {"no", false}, {"off", false}, {"f", false}, {"n", false}, {"0", false}, {"0.0", false},
}

// checkConvert checks a conversion.
func checkConvert(c *Case, v, val interface{}, kind string, t commonxl.CellType, fm *commonxl.Formatter, d1904 bool) {
	cell := commonxl.NewCellWithType(v, t, fm)
	fail := func(why string) {
		c.Fatalf("%T %v as %s becomes %T %v (%s): %s", v, v, t, cell.Value(), cell.Value(), cell.Type(), why)
	}
	if kind == t.String() {
		if cell.Type() != t || !sameValue(cell.Value(), val) {
			fail("same kind")
		}
		return
	}
	holds := true
	switch cell.Type() {
	case commonxl.IntegerCell:
		_, holds = cell.Value().(int64)
	case commonxl.FloatCell:
		_, holds = cell.Value().(float64)
	case commonxl.BooleanCell:
		_, holds = cell.Value().(bool)
	case commonxl.StringCell:
		_, holds = cell.Value().(string)
	case commonxl.DateCell:
		_, holds = cell.Value().(time.Time)
	}
	if !holds {
		fail("the value is not of the cell's kind")
	}
	want, isNum := exactly(val)
	got, gotNum := exactly(cell.Value())
	switch t {
	case commonxl.IntegerCell, commonxl.FloatCell:
		switch {
		case isNum:
			if !gotNum || want.Cmp(got) != 0 {
				fail("another number")
			}
			f, exact := want.Float64()
			representable := exact
			if t == commonxl.IntegerCell {
				representable = want.IsInt() && want.Num().IsInt64()
			}
			if representable && cell.Type() != t {
				fail("not converted")
			}
			_ = f
		case kind == "string":
			s := val.(string)
			if t == commonxl.IntegerCell {
				if n, err := strconv.ParseInt(s, 10, 64); err == nil && (!sameValue(cell.Value(), n) || cell.Type() != t) {
					fail("another number")
				}
			} else if f, err := strconv.ParseFloat(s, 64); err == nil && (!sameValue(cell.Value(), f) || cell.Type() != t) {
				fail("another number")
			}
		}
	case commonxl.BooleanCell:
		if isNum && (!sameValue(cell.Value(), want.Sign() != 0) || cell.Type() != t) {
			fail("boolean")
		}
		if kind == "string" {
			s := val.(string)
			for _, w := range boolWords {
				// in lower or upper case, not mixed
				if s == w.text || s == strings.ToUpper(w.text) {
					if cell.Value() != w.val || cell.Type() != t {
						fail("boolean")
					}
				}
			}
		}
	case commonxl.StringCell:
		if kind == "blank" {
			return
		}
		s, ok := cell.Value().(string)
		if !ok || cell.Type() != commonxl.StringCell {
			fail("no text")
		}
		switch x := val.(type) {
		case bool:
			if s != map[bool]string{true: "TRUE", false: "FALSE"}[x] {
				fail("boolean")
			}
		case int64:
			if s != strconv.FormatInt(x, 10) {
				fail("integer")
			}
		case float64:
			if f, err := strconv.ParseFloat(s, 64); err != nil || !sameValue(f, x) {
				fail("float")
			}
		}
	case commonxl.DateCell:
		var f float64
		switch x := val.(type) {
		case int64:
			f = float64(x)
		case float64:
			f = x
		default:
			return
		}
		tm, ok := cell.Value().(time.Time)
		if !ok || cell.Type() != t {
			fail("no date")
		}
		if f >= 0 && f < 2958465-1462 && !tie(f) {
			ms, _ := ref.MilliOf(f)
			if want := ref.CivilOf(ms, d1904); !want.Same(tm) {
				fail("another date: " + want.String())
			}
		}
	}
}

// natural order of two values of one kind
func natural(a, b interface{}) int {
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	case time.Time:
		y := b.(time.Time)
		switch {
		case x.Equal(y):
			return 0
		case x.Before(y):
			return -1
		}
		return 1
	}
	inf := func(v interface{}) int {
		f, ok := v.(float64)
		switch {
		case ok && math.IsInf(f, 1):
			return 1
		case ok && math.IsInf(f, -1):
			return -1
		}
		return 0
	}
	if i, j := inf(a), inf(b); i != 0 || j != 0 {
		switch {
		case i < j:
			return -1
		case i > j:
			return 1
		}
		return 0
	}
	x, _ := exactly(a)
	y, _ := exactly(b)
	return x.Cmp(y)
}

func TestC25(t *testing.T) {
	prop(t, func(c *Case) {
		// creation and conversion
		var fm *commonxl.Formatter
		d1904 := false
		if gen.Bool(c.C, "formatter") {
			fm = &commonxl.Formatter{}
			d1904 = gen.Bool(c.C, "1904")
			if gen.Bool(c.C, "set before") {
				fm.Mode1904(!d1904)
			}
			fm.Mode1904(d1904)
		}
		v, val, kind := goValue(c.C)
		cell := commonxl.NewCell(v)
		if cell.Type().String() != kind || (kind != "blank" && !sameValue(cell.Value(), val)) {
			c.Fatalf("%T %v gives a cell %T %v (%s) instead of %T %v (%s)", v, v, cell.Value(), cell.Value(), cell.Type(), val, val, kind)
		}
		for _, t := range cellTypes {
			x := v
			if b, ok := v.(*bytes.Buffer); ok {
				x = bytes.NewBuffer(b.Bytes())
			}
			checkConvert(c, x, val, kind, t, fm, d1904)
		}

		// attributes
		id := uint16(c.C.Int("format", 0, 400))
		cell.SetFormatNumber(id)
		if cell.FormatNo() != id || cell.Type().String() != kind || (kind != "blank" && !sameValue(cell.Value(), val)) {
			c.Fatalf("format %d changes %v to %v", id, val, cell)
		}
		clone := cell.Clone()
		link := gen.Pick(c.C, "link", "http://example.com/", "mailto:a@b.c", "file.xls#Sheet1!A1", "http://ex.org/?q=1&b=2")
		cell.SetURL(link)
		u, ok := cell.URL()
		want, _ := url.Parse(link)
		if !ok || u.String() != want.String() || cell.Type().String() != "hyperlink" || cell.FormatNo() != id && kind != "blank" || (kind != "blank" && !sameValue(cell.Value(), val)) {
			c.Fatalf("link %q changes %v to %v", link, val, cell)
		}
		if clone.Type().String() != kind || clone.FormatNo() != id {
			c.Fatalf("a clone is changed with the original")
		}
		if _, ok := clone.URL(); ok {
			c.Fatalf("a cell without link has one")
		}

		// comparison within a kind
		n := c.C.Int("cells", 2, 6)
		what := gen.Pick(c.C, "kind", "number", "string", "boolean", "date")
		var vals []interface{}
		var cells []commonxl.Cell
		near := drawInt(c.C, "near")
		for i := 0; i < n; i++ {
			var x interface{}
			switch what {
			case "number":
				switch c.C.Int("number", 0, 4) {
				case 0:
					x = drawInt(c.C, "int")
				case 1:
					f := anyFloat(c.C)
					if math.IsNaN(f) {
						f = 0
					}
					x = f
				case 2:
					// close to each other
					x = near
					if d := int64(c.C.Int("by", -2, 2)); (d > 0) == (near+d > near) {
						x = near + d
					}
				case 3:
					x = float64(near)
				default:
					x = math.Nextafter(float64(near), gen.Pick(c.C, "to", math.Inf(1), math.Inf(-1)))
				}
			case "string":
				s := gen.Text(c.C, "s", 1, 12)
				if gen.Bool(c.C, "numeric") {
					s = gen.Pick(c.C, "numeric text", "1", "10", "9", "1.0", "01", "-1", "1e5", "0x10", "TRUE", "true", "FALSE", "NaN", "inf", " 1", "1 ")
				}
				if gen.Rare(c.C, "long", 15) {
					s = gen.LongText(c.C.U64("text"), c.C.Int("text length", 20, 400))
				}
				if i > 0 && gen.Rare(c.C, "one letter", 15) {
					// differs in one letter, at any place
					if rs := []rune(vals[i-1].(string)); len(rs) > 0 {
						rs[c.C.Int("which letter", 0, len(rs)-1)] = gen.Pick(c.C, "letter", 'a', 'Z', '0', 'é', '\U0001F600')
						s = string(rs)
					}
				}
				if i > 0 && gen.Rare(c.C, "prefix", 20) {
					s = vals[i-1].(string) + s
				}
				x = s
			case "boolean":
				x = gen.Bool(c.C, "b")
			default:
				tm := anyTime(c.C)
				if i > 0 && gen.Bool(c.C, "close") {
					tm = vals[i-1].(time.Time).Add(time.Duration(gen.Pick(c.C, "by", 0, 1, -1, 1000000, 86400000000000))).UTC()
				}
				x = tm
			}
			cell := commonxl.NewCell(x)
			if gen.Rare(c.C, "formatted", 20) {
				cell.SetFormatNumber(uint16(c.C.Int("format", 1, 200)))
			}
			if gen.Rare(c.C, "linked", 10) {
				cell.SetURL(link)
			}
			vals, cells = append(vals, x), append(cells, cell)
		}
		for i := range cells {
			for j := range cells {
				k := natural(vals[i], vals[j])
				if got := cells[i].Less(cells[j]); got != (k < 0) {
					c.Fatalf("%T %v less than %T %v: %v", vals[i], vals[i], vals[j], vals[j], got)
				}
				if got := cells[i].Equal(cells[j]); got != (k == 0) {
					c.Fatalf("%T %v equal to %T %v: %v", vals[i], vals[i], vals[j], vals[j], got)
				}
			}
		}

		// comparing any two cells
		any := append(cells, cell, clone, commonxl.Cell{}, nil, commonxl.NewCell(""), commonxl.NewCell(math.NaN()))
		for i := 0; i < 2; i++ {
			v, _, _ := goValue(c.C)
			any = append(any, commonxl.NewCellWithType(v, cellTypes[c.C.Int("type", 0, len(cellTypes)-1)], fm))
		}
		var text string
		for _, a := range any {
			for _, b := range any {
				x, y := a.Less(b), a.Equal(b)
				text = fmt.Sprint(x, y)
			}
		}
		_ = text
		c.Label("%s", kind)
		c.Label("compare %s", what)
		key := fmt.Sprintf("%T %v", v, val)
		c.NonTrivial(key, vals)
		c.Sample("%T %v; compared %v", v, val, vals)
	})
}
