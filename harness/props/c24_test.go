package props

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// ids that are not built in as far as this reader goes, and may be given a code or not
var gapIDs = []int{5, 6, 7, 8, 23, 24, 25, 26, 63, 64, 65, 66, 82, 100, 163, 164, 165, 166, 180, 255, 256, 1000, 32767, 32768, 65535}

func same0(s string) string { return s }

// drawFormats draws number formats with known displays.
func drawFormats(c gen.Ch, b *model.Book, n int) {
	seen := map[int]bool{}
	d1904 := b.Date1904
	for ; n > 0; n-- {
		id := gen.Pick(c, "format id", gapIDs...)
		if gen.Bool(c, "any id") {
			id = c.Int("id", 164, 400)
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		f := model.Format{ID: id}
		if gen.Rare(c, "long unit", 3) {
			// codes have up to 255 characters
			unit := " " + strings.Repeat(gen.Pick(c, "letter", "x", "é", "中", "😀"), c.Int("letters", 50, 120)) + gen.Pick(c, "last", "a", "ß", "Ж")
			f.Code, f.TextAs = "0.0\""+unit+"\"", same0
			f.Check = hasSuffix(unit)
		}
		for f.Code == "" || strings.ContainsAny(f.Code, "\t\n") {
			if gen.Rare(c, "date format", 35) {
				x := drawDateFormat(c)
				f.Code, f.Date, f.TextAs = x.code(), true, nil
				f.Check = func(s string, v float64) error {
					ms, _ := ref.MilliOf(v)
					unit := []int64{1000, 100, 10, 1}[x.frac]
					if v < 0 || v >= 2958465-1462 || ms%unit != 0 || tie(v) {
						return nil
					}
					if want := ref.Render(x.toks, ref.CivilOf(ms, d1904)); !ref.SameDate(s, want) {
						return fmt.Errorf("%q shows %v as %q instead of %q", x.code(), v, s, want)
					}
					return nil
				}
			} else {
				x := drawCustom(c)
				f.Code, f.Date = x.Code(), false
				f.Check = func(s string, v float64) error { return x.Check(s, v) }
				f.TextAs = x.Text
			}
		}
		b.Formats = append(b.Formats, f)
	}
}

// drawXFs draws cell styles referring to them, to built-in formats and to unknown ones.
func drawXFs(c gen.Ch, b *model.Book, n int) {
	b.XFs = []int{0}
	for ; n > 0; n-- {
		id := 0
		switch k := c.Int("xf kind", 0, 5); {
		case k <= 1 && len(b.Formats) > 0:
			id = b.Formats[c.Int("which format", 0, len(b.Formats)-1)].ID
		case k == 2:
			id = gen.Pick(c, "numbers", ref.NumberIDs...)
		case k == 3:
			id = gen.Pick(c, "dates", ref.DateIDs...)
		case k == 4:
			id = gen.Pick(c, "gap", gapIDs...)
		default:
			id = gen.Pick(c, "general", 0, 49, 0)
		}
		b.XFs = append(b.XFs, id)
	}
}

func TestC24(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{Date1904: gen.Rare(c.C, "1904", 30)}
		drawFormats(c.C, b, c.C.Int("formats", 0, 8))
		nx := c.C.Int("styles", 1, 20)
		if gen.Rare(c.C, "many styles", 4) {
			nx = gen.Pick(c.C, "number of styles", 255, 256, 257, 300, 1000, 4050, 4097, 33000, 64000)
			ch := gen.Ch(gen.NewSeeded(c.C.U64("styles seed")))
			drawXFs(ch, b, nx)
		} else {
			drawXFs(c.C, b, nx)
		}
		s := &model.Sheet{Name: "Styles"}
		b.Sheets = []*model.Sheet{s}
		kinds := map[model.Kind]bool{}
		for n := c.C.Int("cells", 1, 14); n > 0; n-- {
			i := len(s.Cells)
			x := &model.Cell{R: i / 4, C: i % 4, XF: c.C.Int("xf", 0, len(b.XFs)-1), Formula: gen.Rare(c.C, "formula", 20)}
			id := b.XFs[x.XF]
			f := b.Format(id)
			switch c.C.Int("value", 0, 5) {
			case 0:
				x.K, x.S = model.Text, gen.Text(c.C, "text", 1, 30)
			case 1:
				x.K, x.B = model.Bool, gen.Bool(c.C, "bool")
			case 2:
				x.K, x.S = model.Err, model.Errors[c.C.Int("error", 0, len(model.Errors)-1)].Code
			default:
				x.K = model.Num
				if f != nil && f.Date || f == nil && ref.IsBuiltinDate(id) {
					x.F, _, _ = drawSerial(c.C, "serial")
					ms, _ := ref.MilliOf(x.F)
					if x.F < 1 || x.F >= 2958465-1462 || tie(x.F) || (f == nil && ms%1000 != 0) {
						x.F = 43831.25
					}
				} else {
					x.F = drawNum(c.C, "number")
				}
			}
			kinds[x.K] = true
			s.Cells = append(s.Cells, x)
			s.Rows, s.Cols = x.R+1, max(s.Cols, x.C+1)
		}
		var formats []int
		for _, x := range s.Cells {
			formats = append(formats, b.XFs[x.XF])
		}

		// the sheet by itself, with integers, too
		fm := &commonxl.Formatter{}
		fm.Mode1904(b.Date1904)
		for _, f := range b.Formats {
			if err := fm.Add(uint16(f.ID), f.Code); err != nil {
				c.Fatalf("adding %d %q: %v", f.ID, f.Code, err)
			}
		}
		sh := &commonxl.Sheet{Formatter: fm}
		sh.Resize(s.Rows, s.Cols)
		for _, x := range s.Cells {
			var v interface{} = x.F
			switch x.K {
			case model.Num:
				if n := int64(x.F); x.F == math.Trunc(x.F) && math.Abs(x.F) < 1<<62 && c.C.Int("as integer", 0, 1) == 1 {
					v = n
				}
			case model.Bool:
				v = x.B
			default:
				v = x.S
			}
			sh.Put(x.R, x.C, v, uint16(b.XFs[x.XF]))
		}
		g := expect(b, s, "sheet")
		for at, e := range g.Cells {
			if e.Kind == "err" {
				// just text, and it may have a text section
				e.Show = nil
				if f := b.Format(formatAt(b, s, at)); f != nil && f.TextAs != nil {
					e.Show = same(f.TextAs(e.S))
				}
				g.Cells[at] = e
			}
		}
		rows, err := readAll(sh)
		if err != nil {
			c.Fatalf("sheet: %v", err)
		}
		if err := g.compare(rows); err != nil {
			c.Fatalf("sheet: %v", err)
		}

		file := gen.Pick(c.C, "file", "xls", "xlsx")
		if len(b.XFs) > 4050 {
			file = "xlsx"
		}
		var data []byte
		if file == "xls" {
			data, _ = storeXLS(c, b)
		} else {
			data, _ = storeXLSX(c, b)
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		rows, err = getSheet(src, s.Name)
		if err != nil {
			c.Fatalf("get: %v", err)
		}
		if err := expect(b, s, file).compare(rows); err != nil {
			c.Fatalf("%s: %v", file, err)
		}
		c.Label("%s", file)
		for k := range kinds {
			c.Label("kind %d", k)
		}
		if len(b.XFs) > 1 && len(s.Cells) > 1 {
			c.NonTrivial(file, describe(s), formats, b.Formats)
			c.Sample("%s: %s with formats %v: first is %v", file, describe(s), formats, rows[0][0])
		}
	})
}

func formatAt(b *model.Book, s *model.Sheet, at [2]int) int {
	if x := s.Cell(at[0], at[1]); x != nil {
		return b.XFs[x.XF]
	}
	return 0
}
