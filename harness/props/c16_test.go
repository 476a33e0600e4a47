package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

// scanRow scans the current row into random destinations.
func scanRow(c gen.Ch, col grate.Collection, row []RCell) error {
	n := len(row)
	k := n
	switch c.Int("number of destinations", 0, 5) {
	case 4:
		k = c.Int("fewer", 0, n)
	case 5:
		k = n + c.Int("more", 1, 3)
	}
	dests := make([]interface{}, k)
	wrong, invalid := 0, 0
	var what []string
	for i := range dests {
		own := "blank"
		if i < n {
			own = row[i].T
		}
		switch d := c.Int("destination", 0, 19); {
		case d <= 15:
			dests[i] = dest(own)
		case d <= 17:
			dests[i] = gen.Pick[interface{}](c, "other kind", new(bool), new(int64), new(float64), new(string), new(time.Time))
			if reflect.TypeOf(dests[i]) != reflect.TypeOf(dest(own)) {
				wrong++
			}
		default:
			dests[i] = gen.Pick[interface{}](c, "unsupported", nil, "x", 1.5, true, int64(1), time.Time{}, 7, struct{}{}, new(int32), new(uint64), new(float32), new([]byte), new(interface{}), new(*string), []string{"x"}, func() {}, map[string]int{}, new(struct{}))
			invalid++
		}
		what = append(what, fmt.Sprintf("%T", dests[i]))
	}
	err := col.Scan(dests...)
	switch {
	case k > n && err == nil:
		return fmt.Errorf("scanning %d columns into %q succeeds", n, what)
	case k > n:
		return nil
	case wrong == 0 && invalid == 0 && err != nil && k == n:
		return fmt.Errorf("scanning %v into %q: %v", row, what, err)
	case wrong+invalid > 0 && err == nil:
		return fmt.Errorf("scanning %v into %q succeeds", row, what)
	case wrong == 0 && invalid > 0 && k == n && !errors.Is(err, grate.ErrInvalidScanType):
		return fmt.Errorf("scanning %v into %q: %v is not the documented error", row, what, err)
	case invalid == 0 && errors.Is(err, grate.ErrInvalidScanType):
		return fmt.Errorf("scanning %v into %q: %v although all are supported", row, what, err)
	}
	if err == nil {
		for i := range dests {
			if v := deref(dests[i]); v != row[i].V {
				return fmt.Errorf("column %d of %v scanned as %v", i, row, v)
			}
		}
	}
	return nil
}

func TestC16(t *testing.T) {
	prop(t, func(c *Case) {
		if c.C.Int("delimited", 0, 5) == 5 {
			delimitedViews(c)
			return
		}
		file := gen.Pick(c.C, "format", "xls", "xlsx")
		b := drawBook(c.C, BookOpt{MaxSheets: 2, Text: true, Formats: true, MaxR: 5, MaxC: 7})
		for _, s := range b.Sheets {
			if s.Rows == 0 {
				s.Rows, s.Cols = c.C.Int("empty rows", 0, 4), c.C.Int("empty cols", 1, 4)
			}
			if s.Cols > 0 && gen.Rare(c.C, "wide", 4) {
				for k := s.Cols + c.C.Int("wide by", 10, 240); s.Cols < k; s.Cols++ {
					s.Cells = append(s.Cells, &model.Cell{R: 0, C: s.Cols, K: model.Num, F: float64(s.Cols)})
				}
				s.Rows = max(s.Rows, 1)
			}
			if gen.Rare(c.C, "no values", 10) {
				s.Cells = nil
			}
			if gen.Rare(c.C, "one value", 10) && len(s.Cells) > 0 {
				i := c.C.Int("which", 0, len(s.Cells)-1)
				s.Cells = s.Cells[i : i+1]
				if gen.Rare(c.C, "far down", 12) {
					s.Cells[0].R += c.C.Int("down", 500, 3000)
					s.Rows = max(s.Rows, s.Cells[0].R+1)
				}
			}
			if s.Rows > 0 {
				s.Merges = drawMerges(c.C, s, true)
			}
		}
		links := false
		if s := b.Sheets[0]; file == "xlsx" && s.Rows > 0 {
			for n := c.C.Int("links", 0, 2); n > 0; n-- {
				l := model.Link{Target: gen.Pick(c.C, "target", "http://x/", "mailto:a@b", "http://x/?a=b&c=d#e"), Range: model.Range{R1: c.C.Int("link row", 0, s.Rows-1), C1: c.C.Int("link col", 0, s.Cols-1)}}
				l.R2, l.C2 = l.R1, l.C1
				ok := true
				for _, o := range s.Links {
					ok = ok && !o.Overlaps(l.Range)
				}
				for _, m := range s.Merges {
					ok = ok && !m.Overlaps(l.Range)
				}
				if ok {
					s.Links = append(s.Links, l)
					links = true
				}
			}
		}
		var data []byte
		if file == "xls" {
			stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
			data = wrapXLS(c.C, stream)
		} else {
			data, _ = xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		scans := gen.Ch(gen.NewSeeded(c.C.U64("scans")))
		cells := 0
		kinds := map[string]bool{}
		for _, s := range b.Sheets {
			g := expect(b, s, file)
			for _, m := range s.Merges {
				g.merge(m, false)
			}
			for _, l := range s.Links {
				g.Cells[[2]int{l.R1, l.C1}] = Exp{Kind: "hyperlink", S: l.Target}
			}
			empty := true
			for _, e := range g.Cells {
				if e.Kind != "blank" && e.Kind != "mark" {
					empty = false
				}
			}
			col, err := src.Get(s.Name)
			if err != nil {
				c.Fatalf("get %s: %v", describe(s), err)
			}
			var rows [][]RCell
			// asking whether it is empty does not disturb anything
			ask := c.C.Int("ask after", 0, 4)
			for {
				if ask == len(rows) && col.IsEmpty() != empty {
					c.Fatalf("%s sheet %s merges %v links %v: IsEmpty is %v", file, describe(s), s.Merges, s.Links, !empty)
				}
				if !col.Next() {
					break
				}
				row, err := readRow(col)
				if err != nil {
					c.Fatalf("%s sheet %s row %d: %v", file, describe(s), len(rows), err)
				}
				rows = append(rows, row)
				for n := 0; n < 3 && len(rows) < 200; n++ {
					if err := scanRow(scans, col, row); err != nil {
						c.Fatalf("%s sheet %s row %d: %v", file, describe(s), len(rows)-1, err)
					}
				}
				// views do not depend on what was asked before, nor on changes by the caller
				ss, ts, fs := col.Strings(), col.Types(), col.Formats()
				for i := range ss {
					if ss[i] != row[i].S || ts[i] != row[i].T || fs[i] != row[i].F {
						c.Fatalf("%s sheet %s row %d column %d: %q %s %s the second time, %v before", file, describe(s), len(rows)-1, i, ss[i], ts[i], fs[i], row[i])
					}
					if ts[i] == "blank" && ss[i] != "" {
						c.Fatalf("%s sheet %s row %d column %d: a blank shows %q", file, describe(s), len(rows)-1, i, ss[i])
					}
					if ts[i] != "blank" {
						cells++
					}
					kinds[ts[i]] = true
					ss[i], ts[i], fs[i] = "changed", "changed", "changed"
				}
				if again := col.Strings(); len(again) > 0 && again[0] != row[0].S {
					c.Fatalf("%s sheet %s row %d: changed by the caller", file, describe(s), len(rows)-1)
				}
			}
			if err := g.compare(rows); err != nil {
				c.Fatalf("%s sheet %s merges %v links %v: %v", file, describe(s), s.Merges, s.Links, err)
			}
			for n := c.C.Int("past the end", 1, 3); n > 0; n-- {
				if col.Next() || col.Err() != nil {
					c.Fatalf("%s sheet %s: Next is true past the end, or %v", file, describe(s), col.Err())
				}
			}
			if col.IsEmpty() != empty {
				c.Fatalf("%s sheet %s: IsEmpty is %v after the end", file, describe(s), !empty)
			}
			if empty {
				c.Label("empty sheet")
			}
		}
		for k := range kinds {
			c.Label("type %s", k)
		}
		c.Label("%s", file)
		if cells >= 2 {
			c.NonTrivial(file, describe(b.Sheets[0]), b.XFs, links)
			c.Sample("%s %s formats %v merges %v links %v", file, describe(b.Sheets[0]), b.XFs, b.Sheets[0].Merges, b.Sheets[0].Links)
		}
	})
}

// delimitedViews checks the views of TSV and CSV files.
func delimitedViews(c *Case) {
	format := gen.Pick(c.C, "format", "tsv", "csv")
	sep := map[string]string{"tsv": "\t", "csv": ","}[format]
	d := &delimited{}
	nr, nc := c.C.Int("rows", 0, 8), c.C.Int("cols", 1, 5)
	var sb strings.Builder
	none := gen.Rare(c.C, "no values", 12)
	if gen.Rare(c.C, "far down", 4) {
		for n := c.C.Int("down", 500, 3000); n > 0; n-- {
			row := make([]string, nc)
			if nc == 1 {
				row[0] = " "
			}
			d.rows = append(d.rows, row)
			sb.WriteString(strings.Join(row, sep) + "\n")
		}
	}
	for r := 0; r < nr; r++ {
		row := make([]string, nc)
		for i := range row {
			if !none {
				row[i] = gen.Pick(c.C, "field", "", "x", "1", "-2.5", "TRUE", " ", "é")
			}
		}
		if format == "csv" && nc == 1 && row[0] == "" {
			row[0] = " "
		}
		d.rows = append(d.rows, row)
		sb.WriteString(strings.Join(row, sep) + "\n")
	}
	fn := c.File("a."+format, []byte(sb.String()))
	src, err := grate.Open(fn)
	if err != nil {
		c.Fatalf("open: %v", err)
	}
	checkDelimited(c, src, fn, d)
	src.Close()
	c.Label("%s", format)
	if nr > 0 {
		c.NonTrivial(format, sb.String())
		c.Sample("%s %s", format, d.describe())
	}
}
