package props

import (
	"fmt"
	"testing"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
)

// bulkText adds many texts from a seed.
func bulkText(s *model.Sheet, seed uint64, n, max int, formulas bool) {
	r := gen.NewSeeded(seed)
	r0 := s.Rows
	for i := 0; i < n; i++ {
		x := &model.Cell{R: r0 + i/7, C: i % 7, K: model.Text, S: gen.LongText(r.U64(""), r.Int("", 1, max))}
		x.Formula = formulas && r.Int("", 0, 9) == 0
		for _, m := range gen.Marks {
			if x.S == m {
				x.S += "."
			}
		}
		s.Cells = append(s.Cells, x)
		s.Rows, s.Cols = max2(s.Rows, x.R+1), max2(s.Cols, x.C+1)
	}
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func TestC02(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0}}
		n := c.C.Int("sheets", 1, 3)
		names := drawNames(c.C, n)
		maxText := 200
		if gen.Rare(c.C, "huge text", 3) {
			maxText = 32767
		}
		for i := 0; i < n; i++ {
			s := drawSheet(c.C, names[i], SheetOpt{Text: true, NoNum: gen.Bool(c.C, "text only"), Formulas: true, MaxText: maxText})
			if gen.Rare(c.C, "long name", 20) {
				s.Name = gen.LongText(c.C.U64("name"), 29) + fmt.Sprint(i)
			}
			if gen.Rare(c.C, "bulk", 12) {
				bulkText(s, c.C.U64("bulk seed"), c.C.Int("bulk cells", 10, 300), c.C.Int("bulk length", 2, 400), true)
				c.Label("bulk")
			}
			if gen.Rare(c.C, "huge", 3) {
				s.Cells = append(s.Cells, &model.Cell{R: s.Rows, C: 0, K: model.Text, S: gen.LongText(c.C.U64("huge text"), c.C.Int("huge length", 8000, 32767)), Formula: gen.Bool(c.C, "huge formula")})
				s.Rows++
				s.Cols = max(s.Cols, 1)
				c.Label("huge text")
			}
			b.Sheets = append(b.Sheets, s)
		}
		o := biff.DrawOpt(c.C)
		if gen.Rare(c.C, "pad", 15) {
			o.PadSST = gen.Pick(c.C, "pad by", 1, 200, 255, 256, 1000)
			if gen.Rare(c.C, "pad much", 4) {
				o.PadSST = 65530 + c.C.Int("pad more", 0, 10)
				c.Label("more than 65536 strings")
			}
		}
		stream, info := biff.Stream(c.C, b, o)
		src, err := openAs(c, "xls", c.File("a.xls", wrapXLS(c.C, stream)))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		list, err := src.List()
		if err != nil {
			c.Fatalf("list: %v", err)
		}
		if len(list) != n {
			c.Fatalf("listed %q", list)
		}
		texts := 0
		for i, s := range b.Sheets {
			if list[i] != s.Name {
				c.Fatalf("sheet %q is listed as %q", s.Name, list[i])
			}
			rows, err := getSheet(src, s.Name)
			if err == nil {
				err = expect(b, s, "xls").compare(rows)
			}
			if err != nil {
				c.Fatalf("sheet %s: %v", describe(s), err)
			}
			for _, x := range s.Cells {
				if x.K == model.Text {
					texts++
					if !biff.Narrow(x.S) {
						c.Label("16-bit text")
					}
				}
			}
		}
		if info.Conts > 0 {
			c.Label("continuation")
		}
		if info.Mixed > 0 {
			c.Label("width changes at a split")
		}
		if texts > 0 && (info.Conts > 0 || o.WideAll || o.RichText) {
			c.NonTrivial(describe(b.Sheets[0]), len(stream), info.Conts, info.Mixed)
			c.Sample("%s in %d shared strings, %d continuations, %d changing width", describe(b.Sheets[0]), info.SST, info.Conts, info.Mixed)
		}
	})
}
