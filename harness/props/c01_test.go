package props

import (
	"testing"

	"verif/harness/gen"
	"verif/harness/model"
)

func TestC01(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{}
		for n := c.C.Int("xfs", 1, 5); n > 0; n-- {
			b.XFs = append(b.XFs, 0)
		}
		n := 1
		if c.C.Int("more sheets", 0, 3) == 3 {
			n = 2
		}
		names := drawNames(gen.Zero{}, n)
		for i := 0; i < n; i++ {
			b.Sheets = append(b.Sheets, drawSheet(c.C, names[i], SheetOpt{Formulas: true, Far: true, XFs: len(b.XFs), MaxC: 10}))
			if s := b.Sheets[i]; s.Rows < 65536 && gen.Rare(c.C, "full row", 4) {
				for k := 0; k < 256; k++ {
					s.Cells = append(s.Cells, &model.Cell{R: s.Rows, C: k, K: model.Num, F: float64(k*k) - 100, XF: k % len(b.XFs)})
				}
				s.Rows, s.Cols = s.Rows+1, 256
				c.Label("full row")
			}
		}
		data, info := storeXLS(c, b)
		src, err := openAs(c, "xls", c.File("a.xls", data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		cells := 0
		for _, s := range b.Sheets {
			rows, err := getSheet(src, s.Name)
			if err == nil {
				err = expect(b, s, "xls").compare(rows)
			}
			if err != nil {
				c.Fatalf("sheet %s: %v", describe(s), err)
			}
			cells += len(s.Cells)
		}
		src.Close()
		for k := range info.Recs {
			c.Label("%s", k)
		}
		if len(info.Recs) >= 2 && cells >= 3 {
			c.NonTrivial(describe(b.Sheets[0]), len(data), info.Recs)
			c.Sample("%s stored as %v", describe(b.Sheets[0]), info.Recs)
		}
	})
}
