package props

import (
	"testing"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

func TestC10(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0, 2, 14}}
		n := c.C.Int("sheets", 1, 2)
		names := drawNames(gen.Zero{}, n)
		merged, past := 0, 0
		for i := 0; i < n; i++ {
			s := drawSheet(c.C, names[i], SheetOpt{Text: true, Formulas: true, MaxR: 8})
			if s.Rows == 0 {
				s.Rows, s.Cols = c.C.Int("empty rows", 1, 9), c.C.Int("empty cols", 1, 9)
			}
			s.Merges = drawMerges(c.C, s, true)
			if gen.Rare(c.C, "many merges", 5) {
				// more than fit into a record
				s.Merges = nil
				k := c.C.Int("number of merges", 1000, 2200)
				for j := 0; j < k; j++ {
					s.Merges = append(s.Merges, model.Range{R1: j * 2, R2: j*2 + j%2, C1: 1, C2: 2})
				}
				s.Rows, s.Cols = max(s.Rows, 2*k), max(s.Cols, 3)
				c.Label("many ranges")
			}
			if i == 0 && c.C.Int("far down", 0, 1023)/8 == 65 {
				// rows that do not fit into 15 bits
				off := gen.Pick(c.C, "rows before", 32767-c.C.Int("rows less", 0, 8), c.C.Int("any rows before", 32700, 65500-s.Rows))
				for _, x := range s.Cells {
					x.R += off
				}
				if gen.Bool(c.C, "long range") {
					m := model.Range{R1: c.C.Int("long range row", 0, s.Rows-1), C1: c.C.Int("long range col", 0, s.Cols-1)}
					m.R2, m.C2 = m.R1+c.C.Int("long range height", 1, 30000), m.C1+c.C.Int("long range width", 0, 1)
					s.Merges = []model.Range{m}
				}
				for j, m := range s.Merges {
					if m.R2 = min(m.R2+off, 65535); m.R1 > 0 || gen.Bool(c.C, "from the first row") {
						m.R1 += off
					}
					s.Merges[j] = m
				}
				for j := range s.Merges {
					for k := range s.Merges[:j] {
						if s.Merges[j].Overlaps(s.Merges[k]) {
							s.Merges = s.Merges[:1]
							break
						}
					}
					if len(s.Merges) == 1 {
						break
					}
				}
				s.Rows += off
				c.Label("far down")
			}
			var keep []*model.Cell
			for _, x := range s.Cells {
				// cells hidden by a merged range may still have a value
				hidden := false
				for _, m := range s.Merges {
					hidden = hidden || m.In(x.R, x.C) && (x.R != m.R1 || x.C != m.C1)
				}
				if hidden && !gen.Rare(c.C, "hidden value", 30) {
					continue
				}
				keep = append(keep, x)
			}
			s.Cells = keep
			for _, m := range s.Merges {
				merged++
				if m.R2 >= s.Rows || m.C2 >= s.Cols {
					past++
				}
			}
			b.Sheets = append(b.Sheets, s)
		}
		file := gen.Pick(c.C, "format", "xls", "xlsx")
		var data []byte
		if file == "xls" {
			stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
			data = wrapXLS(c.C, stream)
		} else {
			data, _ = xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		for _, s := range b.Sheets {
			g := expect(b, s, file)
			for _, m := range s.Merges {
				g.merge(m, false)
			}
			rows, err := getSheet(src, s.Name)
			if err == nil {
				err = g.compare(rows)
			}
			if err != nil {
				c.Fatalf("%s sheet %s with merged ranges %v: %v", file, describe(s), s.Merges, err)
			}
		}
		c.Label("%s", file)
		if past > 0 {
			c.Label("past the extent")
		}
		if merged > 0 {
			m := b.Sheets[0].Merges
			if len(m) > 10 {
				m = m[:10]
			}
			c.NonTrivial(file, b.Sheets[0].Rows, b.Sheets[0].Cols, m, describe(b.Sheets[0]))
			c.Sample("%s %s merged %v", file, describe(b.Sheets[0]), m)
		}
	})
}
