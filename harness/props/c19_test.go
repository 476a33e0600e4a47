package props

import (
	"fmt"
	"math"
	"strconv"
	"testing"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// drawSerial draws a date serial, whole seconds mostly, as applications store them.
func drawSerial(c gen.Ch, label string) (f float64, sec int64, whole bool) {
	day := int64(0)
	switch c.Int(label+" day", 0, 5) {
	case 0:
		day = int64(c.Int(label, 0, 70))
	case 1:
		day = int64(c.Int(label, 36500, 47000))
	case 2:
		day = int64(c.Int(label, 0, 2958465-1462))
	case 3:
		// around year and month ends, and leap days
		y, m := c.Int(label+" year", 1900, 9990), c.Int(label+" month", 1, 12)
		if gen.Bool(c, "nearby") {
			y = 1990 + c.Int(label+" recent year", 0, 120)
		}
		t := time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC)
		day = (t.Unix()-time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix())/86400 + int64(c.Int(label+" from", -2, 2))
		day = max(day, 0)
	case 4:
		day = gen.Pick[int64](c, label, 0, 1, 58, 59, 60, 61, 365, 366, 1461, 1462, 1463, 25569, 32767, 32768, 65535, 65536, 73050, 146097, 2958464-1462, 2958465-1462, 2958465)
	default:
		day = int64(c.Int(label, 0, 80000))
	}
	switch c.Int(label+" time", 0, 7) {
	case 0:
		return float64(day), day * 86400, true
	case 1:
		sec = int64(gen.Pick(c, label+" of day", 0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86340, 86399))
	case 2, 3, 4, 5:
		sec = int64(c.Int(label+" second", 0, 86399))
	case 6:
		// any millisecond, or any fraction
		ms := int64(c.Int(label+" ms", 0, 86399999))
		return float64(day) + float64(ms)/86400000, 0, false
	default:
		return float64(day) + float64(c.U64(label+" fraction")>>11)/(1<<53), 0, false
	}
	sec += day * 86400
	switch c.Int(label+" computed", 0, 3) {
	case 0:
		f = float64(day) + float64(sec-day*86400)/86400
	case 1:
		f = float64(sec) / 86400
	case 2:
		// as shown with 15 significant digits
		f, _ = strconv.ParseFloat(strconv.FormatFloat(float64(sec)/86400, 'g', 15, 64), 64)
	default:
		// hours, minutes and seconds added up
		s := sec % 86400
		f = float64(day) + float64(s/3600)/24 + float64(s/60%60)/1440 + float64(s%60)/86400
	}
	return f, sec, true
}

// tie is true if a serial is close to the middle between milliseconds
func tie(f float64) bool {
	_, off := ref.MilliOf(f)
	return math.Abs(math.Abs(off)-0.5) < 0.05
}

// moments returns the milliseconds that a serial may stand for, both of them near a tie.
func moments(f float64) []int64 {
	ms, off := ref.MilliOf(f)
	if !tie(f) {
		return []int64{ms}
	} else if off < 0 {
		return []int64{ms, ms - 1}
	}
	return []int64{ms, ms + 1}
}

func TestC19(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0}, Date1904: gen.Bool(c.C, "1904")}
		b.Formats = []model.Format{{ID: 164, Code: "yyyy\\-mm\\-dd\\ hh:mm:ss.000", Date: true}, {ID: 165, Code: "dddd\\ d\\ mmmm\\ yyyy", Date: true}, {ID: 166, Code: "h:mm AM/PM", Date: true}}
		b.XFs = append(b.XFs, ref.DateIDs...)
		b.XFs = append(b.XFs, 81, 164, 165, 166, 2)
		s := &model.Sheet{Name: "Dates"}
		b.Sheets = []*model.Sheet{s}
		n := c.C.Int("serials", 1, 8)
		type want struct {
			f     float64
			sec   int64
			whole bool
		}
		var ws []want
		fm := &commonxl.Formatter{}
		fm.Mode1904(b.Date1904)
		limit := 2958466.0
		if b.Date1904 {
			limit -= 1462
		}
		for r := 0; r < n; r++ {
			f, sec, whole := drawSerial(c.C, "serial")
			if f >= limit || tie(f) {
				f, sec, whole = 43831.25, 43831*86400+21600, true
			}
			ws = append(ws, want{f, sec, whole})
			ms, _ := ref.MilliOf(f)
			if whole && ms != sec*1000 {
				panic(fmt.Sprintf("%v is not %d s", f, sec))
			}
			if got, exp := fm.ConvertToDate(f), ref.CivilOf(ms, b.Date1904); !exp.Same(got) {
				c.Fatalf("%v converts to %v instead of %v", f, got, exp)
			}
			for k := c.C.Int("cells", 1, 6); k > 0; k-- {
				x := &model.Cell{R: r, C: k - 1, K: model.Num, F: f, XF: c.C.Int("format", 1, len(b.XFs)-1), Formula: gen.Rare(c.C, "formula", 15)}
				s.Cells = append(s.Cells, x)
				s.Cols = max(s.Cols, k)
			}
		}
		s.Rows = n
		file := gen.Pick(c.C, "file", "xls", "xlsx")
		var data []byte
		if file == "xls" {
			data, _ = storeXLS(c, b)
		} else {
			data, _ = storeXLSX(c, b)
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		rows, err := getSheet(src, s.Name)
		if err != nil {
			c.Fatalf("get: %v", err)
		}
		g := expect(b, s, file)
		dates := 0
		for _, x := range s.Cells {
			at := [2]int{x.R, x.C}
			e := g.Cells[at]
			w := ws[x.R]
			switch id := b.XFs[x.XF]; {
			case id == 2:
				// the same number is just a number by another format
				continue
			case id == 81:
				e.Kind, e.F, e.D1904, e.Show = "date", x.F, b.Date1904, nil
				e.Ms, _ = ref.MilliOf(x.F)
			case id == 164:
				e.Show = same(ref.CivilOf(e.Ms, b.Date1904).String())
			case id == 165:
				v := ref.CivilOf(e.Ms, b.Date1904)
				e.Show = same(fmt.Sprintf("%s %d %s %04d", ref.Weekdays[v.WD], v.D, ref.Months[v.M-1], v.Y))
			case id == 166:
				v := ref.CivilOf(e.Ms, b.Date1904)
				e.Show = same(fmt.Sprintf("%d:%02d %s", (v.H+11)%12+1, v.Min, map[bool]string{true: "AM", false: "PM"}[v.H < 12]))
			case !w.whole:
				// seconds shown may be rounded or not
				e.Show = oneOf(append(ref.BuiltinDate(id, e.Ms, b.Date1904), ref.BuiltinDate(id, (e.Ms+500)/1000*1000, b.Date1904)...)...)
			}
			g.Cells[at] = e
			dates++
		}
		if err := g.compare(rows); err != nil {
			c.Fatalf("%s 1904 %v: %v", file, b.Date1904, err)
		}
		c.Label("%s 1904 %v", file, b.Date1904)
		if dates > 0 {
			c.NonTrivial(file, b.Date1904, describe(s), b.XFs[s.Cells[0].XF])
			c.Sample("%s 1904 %v %s: %v reads as %v, shown as %q", file, b.Date1904, describe(s), ws[0].f, rows[0][0].V, rows[0][0].S)
		}
	})
}
