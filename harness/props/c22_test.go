package props

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// dateFormat is a custom date format.
type dateFormat struct {
	toks           []ref.Tok
	prefix, suffix string
	frac           int  // digits of fractional seconds shown
	secs           bool // the display is exact
}

func (x *dateFormat) code() string { return x.prefix + ref.Code(x.toks) + x.suffix }

func isMinuteAmbiguous(toks []ref.Tok) bool {
	prev := ""
	for i, t := range toks {
		if t.Code == "" || strings.Contains(t.Code, "/") {
			continue
		}
		code := strings.ToLower(t.Code)
		if (code == "m" || code == "mm") && (prev == "s" || prev == "ss" || strings.HasPrefix(prev, ".") || prev == "frac1") {
			next := ""
			for _, u := range toks[i+1:] {
				if u.Code != "" && !strings.Contains(u.Code, "/") {
					next = strings.ToLower(u.Code)
					break
				}
			}
			if next != "s" && next != "ss" {
				return true
			}
		}
		prev = code
	}
	return false
}

// drawDateFormat draws a format with at least one date code.
func drawDateFormat(c gen.Ch) *dateFormat {
	x := &dateFormat{}
	x.prefix = gen.Pick(c, "prefix", "", "", "", "", "[Red]", "[$-409]", "[Blue]")
	x.suffix = gen.Pick(c, "suffix", "", "", "", ";@")
	add := func(code string) {
		src := code
		if gen.Rare(c, "upper case", 15) {
			src = strings.ToUpper(code)
		}
		if n := len(x.toks); n > 0 && x.toks[n-1].Code != "" {
			a, b := strings.ToLower(x.toks[n-1].Src), strings.ToLower(src)
			if a[len(a)-1] == b[0] || gen.Bool(c, "separated") {
				sep := gen.Pick(c, "separator", "-", "/", ":", " ", ",", ".")
				x.toks = append(x.toks, ref.Tok{Text: sep, Src: sep})
			}
		}
		x.toks = append(x.toks, ref.Tok{Code: code, Src: src})
	}
	for n := c.Int("codes", 1, 7); n > 0; n-- {
		switch c.Int("what", 0, 9) {
		case 0:
			p := literal(c)
			x.toks = append(x.toks, ref.Tok{Text: p.Text, Src: p.Src})
		case 1:
			s := gen.Pick(c, "bare", " ", "-", "/", ":", ",", ".", "年", "月", "日", "(", ")")
			x.toks = append(x.toks, ref.Tok{Text: s, Src: s})
		case 2:
			add(gen.Pick(c, "year", "yyyy", "yy", "yyyy", "yy", "yyy", "y"))
		case 3:
			add(gen.Pick(c, "month", "m", "mm", "mmm", "mmmm", "mmm", "mmmm", "mmmmm"))
		case 4:
			add(gen.Pick(c, "day", "d", "dd", "ddd", "dddd"))
		case 5:
			add(gen.Pick(c, "hour", "h", "hh", "h", "hh", "[h]"))
		case 6:
			add(gen.Pick(c, "minute", "m", "mm"))
		case 7:
			add(gen.Pick(c, "second", "s", "ss"))
			if x.frac == 0 && gen.Rare(c, "fraction", 30) {
				x.frac = c.Int("fraction digits", 1, 3)
				code := []string{"frac1", ".00", ".000"}[x.frac-1]
				x.toks = append(x.toks, ref.Tok{Code: code, Src: "." + strings.Repeat("0", x.frac)})
			}
		case 8:
			code := gen.Pick(c, "half", "AM/PM", "A/P", "AM/PM", "am/pm", "上午/下午")
			x.toks = append(x.toks, ref.Tok{Code: code, Src: code})
		default:
			// common combinations
			for i, code := range gen.Pick(c, "common", []string{"yyyy", "mm", "dd"}, []string{"h", "mm", "ss"}, []string{"d", "m", "yy"}, []string{"hh", "mm"}, []string{"mm", "ss"}, []string{"[h]", "mm", "ss"}, []string{"d", "mmm", "yy"}) {
				if i > 0 {
					sep := gen.Pick(c, "common separator", "-", "/", ":", ".", " ", "", "\\-", "\"-\"")
					if sep != "" {
						x.toks = append(x.toks, ref.Tok{Text: strings.Trim(sep, "\\\""), Src: sep})
					}
				}
				add(code)
			}
		}
	}
	has := false
	for _, t := range x.toks {
		if t.Code != "" && !strings.Contains(t.Code, "/") {
			has = true
		}
	}
	if !has || isMinuteAmbiguous(x.toks) {
		x.toks = append([]ref.Tok{{Code: "d", Src: "d"}, {Text: " ", Src: " "}}, x.toks...)
		if isMinuteAmbiguous(x.toks) {
			x.toks = []ref.Tok{{Code: "yyyy", Src: "yyyy"}}
			x.frac = 0
		}
	}
	return x
}

// drawMoment draws a serial with as many digits of fractional seconds.
func drawMoment(c gen.Ch, frac int) (f float64, ms int64) {
	for {
		f, _, whole := drawSerial(c, "date")
		if whole && frac == 0 {
			ms, _ = ref.MilliOf(f)
			return f, ms
		}
		unit := []int64{1000, 100, 10, 1}[frac]
		ms, _ = ref.MilliOf(f)
		ms = ms / unit * unit
		f = float64(ms) / 86400000
		return f, ms
	}
}

func TestC22(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0}, Date1904: gen.Bool(c.C, "1904")}
		fm := &commonxl.Formatter{}
		fm.Mode1904(b.Date1904)
		s := &model.Sheet{Name: "Dates"}
		b.Sheets = []*model.Sheet{s}
		sheet := &commonxl.Sheet{Formatter: fm}
		limit := 2958466.0
		if b.Date1904 {
			limit -= 1462
		}
		var key []string
		sample := ""
		inFile := true
		type at struct {
			date bool
			ms   int64
			x    *dateFormat
		}
		var ats []at
		for n := c.C.Int("formats", 1, 4); n > 0; n-- {
			id := 163 + len(b.XFs)
			if gen.Rare(c.C, "no date", 20) {
				// formats without date codes
				x := drawCustom(c.C)
				if err := fm.Add(uint16(id), x.Code()); err != nil {
					c.Fatalf("adding %q: %v", x.Code(), err)
				}
				f := drawNum(c.C, "number")
				b.XFs = append(b.XFs, id)
				b.Formats = append(b.Formats, model.Format{ID: id, Code: x.Code(), Check: func(s string, f float64) error { return x.Check(s, f) }, TextAs: x.Text})
				inFile = inFile && !strings.ContainsAny(x.Code(), "\t\n")
				sheet.Put(len(ats), 0, f, uint16(id))
				s.Cells = append(s.Cells, &model.Cell{R: len(ats), K: model.Num, F: f, XF: len(b.XFs) - 1})
				ats = append(ats, at{})
				c.Label("no date")
				continue
			}
			x := drawDateFormat(c.C)
			code := x.code()
			inFile = inFile && !strings.ContainsAny(code, "\t\n")
			if err := fm.Add(uint16(id), code); err != nil {
				c.Fatalf("adding %q: %v", code, err)
			}
			b.XFs = append(b.XFs, id)
			d1904 := b.Date1904
			b.Formats = append(b.Formats, model.Format{ID: id, Code: code, Date: true, Check: func(s string, f float64) error {
				ms, _ := ref.MilliOf(f)
				if want := ref.Render(x.toks, ref.CivilOf(ms, d1904)); !ref.SameDate(s, want) {
					return fmt.Errorf("%q shows %v as %q instead of %q", code, f, s, want)
				}
				return nil
			}})
			for k := c.C.Int("dates", 1, 3); k > 0; k-- {
				f, ms := drawMoment(c.C, x.frac)
				if f >= limit || f < 1 {
					f, ms = 43831.25, 43831*86400000+21600000
				}
				want := ref.Render(x.toks, ref.CivilOf(ms, d1904))
				vals := []interface{}{f, fm.ConvertToDate(f)}
				if ms%86400000 == 0 {
					vals = append(vals, ms/86400000)
				}
				for _, v := range vals {
					got, ok := fm.Apply(uint16(id), v)
					if !ok || !ref.SameDate(got, want) {
						c.Fatalf("%q shows %T %v (%v) as %q instead of %q", code, v, v, ref.CivilOf(ms, d1904), got, want)
					}
				}
				key = append(key, code, got(fm, id, f))
				sample = fmt.Sprintf("%s shows %v (%v) as %q", code, f, ref.CivilOf(ms, d1904), want)
				sheet.Put(len(ats), 0, f, uint16(id))
				s.Cells = append(s.Cells, &model.Cell{R: len(ats), K: model.Num, F: f, XF: len(b.XFs) - 1})
				ats = append(ats, at{true, ms, x})
			}
			c.Label("date")
			// only numbers are dates
			text := gen.Text(c.C, "text", 1, 20)
			if got, _ := fm.Apply(uint16(id), text); got != text {
				c.Fatalf("%q shows text %q as %q", code, text, got)
			}
			if got, _ := fm.Apply(uint16(id), true); got != "TRUE" {
				c.Fatalf("%q shows true as %q", code, got)
			}
		}
		for r := 0; sheet.Next(); r++ {
			cell, err := readRow(sheet)
			if err != nil {
				c.Fatalf("row %d: %v", r, err)
			}
			code := b.Format(b.XFs[s.Cells[r].XF]).Code
			if !ats[r].date {
				if cell[0].T != "integer" && cell[0].T != "float" {
					c.Fatalf("a number with format %q is of type %s", code, cell[0].T)
				}
				continue
			}
			tm, ok := cell[0].V.(time.Time)
			civ := ref.CivilOf(ats[r].ms, b.Date1904)
			if cell[0].T != "date" || !ok || !civ.Same(tm) || !ref.SameDate(cell[0].S, ref.Render(ats[r].x.toks, civ)) {
				c.Fatalf("%v with format %q reads as %v", civ, code, cell[0])
			}
		}
		if len(key) > 0 {
			c.NonTrivial(key, b.Date1904)
			c.Sample("%s", sample)
		}
		if !inFile || !gen.Rare(c.C, "file", 15) {
			return
		}
		s.Rows, s.Cols = len(ats), 1
		file := gen.Pick(c.C, "file format", "xls", "xlsx")
		var data []byte
		if file == "xls" {
			data, _ = storeXLS(c, b)
		} else {
			data, _ = storeXLSX(c, b)
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		rows, err := getSheet(src, s.Name)
		if err != nil {
			c.Fatalf("get: %v", err)
		}
		if err := expect(b, s, file).compare(rows); err != nil {
			c.Fatalf("%s: %v", file, err)
		}
		c.Label("%s file", file)
	})
}

func got(fm *commonxl.Formatter, id int, v interface{}) string {
	s, _ := fm.Apply(uint16(id), v)
	return s
}
