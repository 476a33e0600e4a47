package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/pbnjay/grate"

	"verif/harness/gen"
	"verif/harness/model"
)

func TestC06(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0}}
		n := c.C.Int("sheets", 1, 8)
		if gen.Rare(c.C, "many sheets", 8) {
			n = c.C.Int("number of sheets", 9, 40)
			if gen.Rare(c.C, "very many", 4) {
				n = c.C.Int("number of sheets", 254, 300)
				c.Label("more than 250 sheets")
			}
		}
		names := drawNames(c.C, n)
		visible := 0
		for i := 0; i < n; i++ {
			s := &model.Sheet{Name: names[i], Hidden: gen.Pick(c.C, "state", 0, 0, 0, 1, 2)}
			// its own contents
			s.Rows, s.Cols = c.C.Int("rows", 0, 3), c.C.Int("cols", 1, 3)
			for r := 0; r < s.Rows; r++ {
				for k := 0; k < s.Cols; k++ {
					x := &model.Cell{R: r, C: k, K: model.Num, F: float64(i*100 + r*10 + k)}
					if (r+k)%2 == 1 {
						x.K, x.S = model.Text, fmt.Sprintf("sheet %d row %d column %d", i, r, k)
					}
					s.Cells = append(s.Cells, x)
				}
			}
			if s.Hidden == 0 {
				visible++
			}
			s.Lost = n > 1 && gen.Rare(c.C, "lost", 1)
			b.Sheets = append(b.Sheets, s)
		}
		file := gen.Pick(c.C, "format", "xls", "xlsx")
		var data []byte
		if file == "xls" {
			data, _ = storeXLS(c, b)
		} else {
			data, _ = storeXLSX(c, b)
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			for _, s := range b.Sheets {
				if s.Lost {
					// may be noticed at once
					return
				}
			}
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		var want, hidden []string
		for _, s := range b.Sheets {
			if file == "xlsx" || s.Hidden == 0 {
				want = append(want, s.Name)
			} else {
				hidden = append(hidden, s.Name)
			}
		}
		list, err := src.List()
		if err != nil || strings.Join(list, "\x00") != strings.Join(want, "\x00") {
			c.Fatalf("listed %q (%v) instead of %q", list, err, want)
		}
		if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
			list, err := h.ListHidden()
			if err != nil || strings.Join(list, "\x00") != strings.Join(hidden, "\x00") {
				c.Fatalf("hidden sheets %q (%v) instead of %q", list, err, hidden)
			}
		} else if file == "xls" {
			c.Fatalf("hidden sheets cannot be listed")
		}
		// in any order
		for _, i := range gen.SeedPerm(c.C, "get order", n) {
			s := b.Sheets[i]
			rows, err := getSheet(src, s.Name)
			if s.Lost {
				if err == nil {
					c.Fatalf("sheet %d of %q, which is missing: got %v", i, names, rows)
				}
				c.Label("missing sheet")
				continue
			}
			if err == nil {
				err = expect(b, s, file).compare(rows)
			}
			if err != nil {
				c.Fatalf("sheet %d of %q: %v", i, names, err)
			}
		}
		have := map[string]bool{}
		for _, s := range names {
			have[s] = true
		}
		for k := 0; k < 4; k++ {
			base := gen.Pick(c.C, "near", names...)
			name := gen.Pick(c.C, "variant", "", base+" ", " "+base, base+"1", base[:len(base)-1], strings.ToLower(base), strings.ToUpper(base), "no such sheet", "sheet1.xml", "rId1", "xl/worksheets/sheet1.xml")
			if have[name] {
				continue
			}
			var col grate.Collection
			if col, err = src.Get(name); err == nil {
				rows, _ := readAll(col)
				c.Fatalf("sheet %q of %q: got %v", name, names, rows)
			}
		}
		c.Label("%s", file)
		if visible < n {
			c.Label("hidden sheets")
		}
		if n >= 3 {
			c.NonTrivial(file, names, visible, len(data))
			c.Sample("%s with sheets %q, %d of them visible", file, names, visible)
		}
	})
}
