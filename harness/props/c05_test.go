package props

import (
	"testing"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

func TestC05(t *testing.T) {
	prop(t, func(c *Case) {
		if c.C.Int("longest sheet", 0, 1023)/8 == 65 {
			longestSheet(c)
			return
		}
		b := &model.Book{XFs: []int{0}}
		for n := c.C.Int("xfs", 0, 3); n > 0; n-- {
			b.XFs = append(b.XFs, 0)
		}
		n := c.C.Int("sheets", 1, 2)
		names := drawNames(gen.Zero{}, n)
		for i := 0; i < n; i++ {
			s := drawSheet(c.C, names[i], SheetOpt{Text: true, Formulas: true, Far: true, XLSX: true, XFs: len(b.XFs), MaxC: 10, MaxText: 300})
			if gen.Rare(c.C, "bulk", 6) {
				bulkText(s, c.C.U64("bulk seed"), c.C.Int("bulk cells", 10, 300), c.C.Int("bulk length", 2, 100), true)
				c.Label("bulk")
			}
			if gen.Rare(c.C, "huge", 2) {
				s.Cells = append(s.Cells, &model.Cell{R: s.Rows, C: 0, K: model.Text, S: gen.LongText(c.C.U64("huge text"), c.C.Int("huge length", 8000, 32767)), Formula: gen.Bool(c.C, "huge formula")})
				s.Rows++
				s.Cols = max(s.Cols, 1)
				c.Label("huge text")
			}
			b.Sheets = append(b.Sheets, s)
		}
		o := xlsxw.DrawOpt(c.C)
		if gen.Rare(c.C, "no dimension", 10) {
			o.NoDim = true
			c.Label("no dimension")
		}
		if c.C.Int("many strings", 0, 1023)/8 == 65 {
			o.PadSST = 65530 + c.C.Int("pad more", 0, 10)
			c.Label("more than 65536 strings")
		}
		data, info := xlsxw.Write(c.C, b, o)
		src, err := openAs(c, "xlsx", c.File("a.xlsx", data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		cells := 0
		for _, s := range b.Sheets {
			rows, err := getSheet(src, s.Name)
			if err == nil {
				g := expect(b, s, "xlsx")
				if o.NoDim {
					g.Rows, g.Cols = 0, 0
					for _, x := range s.Cells {
						if x.K != model.Text || x.S != "" {
							g.Rows, g.Cols = max(g.Rows, x.R+1), max(g.Cols, x.C+1)
						}
					}
					g.Loose = true
				}
				err = g.compare(rows)
			}
			if err != nil {
				c.Fatalf("sheet %s: %v", describe(s), err)
			}
			cells += len(s.Cells)
		}
		for k := range info.Kinds {
			c.Label("%s", k)
		}
		if cells >= 3 && len(info.Kinds) >= 2 {
			c.NonTrivial(describe(b.Sheets[0]), o, info.Kinds, len(data))
			c.Sample("%s stored with %+v as %v", describe(b.Sheets[0]), o, info.Kinds)
		}
	})
}

// longestSheet has a value in the last row there can be.
func longestSheet(c *Case) {
	s := &model.Sheet{Name: "Long", Rows: 1048576 - c.C.Int("rows less", 0, 1), Cols: 2, Cells: []*model.Cell{{K: model.Num, F: 1}}}
	last := &model.Cell{R: s.Rows - 1, C: c.C.Int("col", 0, 1), K: model.Text, S: "end"}
	s.Cells = append(s.Cells, last)
	data, _ := storeXLSX(c, &model.Book{XFs: []int{0}, Sheets: []*model.Sheet{s}})
	src, err := openAs(c, "xlsx", c.File("a.xlsx", data))
	if err != nil {
		c.Fatalf("open: %v", err)
	}
	defer src.Close()
	col, err := src.Get(s.Name)
	if err != nil {
		c.Fatalf("sheet of %d rows: %v", s.Rows, err)
	}
	rows := 0
	for col.Next() {
		want := [2]string{}
		if rows == 0 {
			want[0] = "1"
		} else if rows == last.R {
			want[last.C] = "end"
		}
		if got := col.Strings(); len(got) != 2 || got[0] != want[0] || got[1] != want[1] {
			c.Fatalf("row %d of %d: %q instead of %q", rows, s.Rows, got, want)
		}
		rows++
	}
	if rows != s.Rows {
		c.Fatalf("%d rows instead of %d", rows, s.Rows)
	}
	c.Label("longest sheet")
	c.NonTrivial("longest", s.Rows, last.C, len(data))
}
