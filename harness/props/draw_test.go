package props

import (
	"fmt"
	"math"
	"strings"

	"verif/harness/biff"
	"verif/harness/cfbw"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

// drawNum draws numbers of all encodings.
func drawNum(c gen.Ch, label string) float64 {
	switch c.Int(label+" class", 0, 5) {
	case 0:
		return gen.Number(c, label)
	case 1:
		// around the limits of RK integers
		f := float64(gen.Pick(c, label, 0, 1, 2, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<28, 1<<29-1, 1<<29, 1<<29+1, 1<<30, 1<<31-1, 1<<31))
		if gen.Bool(c, label+" neg") {
			f = -f
		}
		if f == 0 {
			f = 0
		}
		return f
	case 2:
		f := float64(c.Int(label, -1<<29, 1<<29-1))
		if gen.Bool(c, label+" small") {
			f = float64(c.Int(label, -2000, 2000))
		}
		return f / 100
	case 3:
		return float64(c.Int(label, -1<<29, 1<<29-1))
	case 4:
		// RK floats
		f := math.Float64frombits(c.U64(label) >> 34 << 34)
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
			return 1.5
		}
		return f
	default:
		f := math.Float64frombits(c.U64(label)>>34<<34) / 100
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
			return 0.015
		}
		return f
	}
}

// SheetOpt says what sheets contain.
type SheetOpt struct {
	Text, Formulas, NoNum bool
	MaxText               int
	MaxR, MaxC            int // size of the block
	Far                   bool
	XLSX                  bool // the limits of XLSX apply
	XFs                   int
	Num                   func(c gen.Ch, label string) float64
}

var sheetNames = []string{"Sheet1", "Data", "Übersicht", "Лист1", "工作表", "a b", "x'y", "A&B", "<tag>", "q\"q", "#1", "_x0041_", "1", "TRUE", "😀", "long name with thirty-one chars", "data", "DATA", " lead", "trail ", "ÿ", "Ā"}

// drawNames draws distinct sheet names.
func drawNames(c gen.Ch, n int) []string {
	var res []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		s := gen.Pick(c, "sheet name", sheetNames...)
		if gen.Bool(c, "random name") {
			s = ""
			for k := c.Int("name length", 1, 10); k > 0; k-- {
				s += gen.Pick(c, "name part", "a", "B", "1", " ", "-", "_", ".", "é", "Ж", "中", "😀", "&", "'", "<", "(", "ÿ", "Ā")
			}
		}
		// NB names differing in case only are not distinct for spreadsheet applications
		for seen[strings.ToLower(s)] {
			s = fmt.Sprintf("S%d", i+1) + s
			for len([]rune(s)) > 15 {
				s = string([]rune(s)[:15])
			}
		}
		seen[strings.ToLower(s)] = true
		res = append(res, s)
	}
	return res
}

// drawSheet draws the cells of a sheet.
func drawSheet(c gen.Ch, name string, o SheetOpt) *model.Sheet {
	s := &model.Sheet{Name: name}
	if o.MaxR == 0 {
		o.MaxR = 6
	}
	if o.MaxC == 0 {
		o.MaxC = 8
	}
	if o.MaxText == 0 {
		o.MaxText = 60
	}
	if o.Num == nil {
		o.Num = drawNum
	}
	nr, nc := c.Int("block rows", 0, o.MaxR), c.Int("block cols", 1, o.MaxC)
	r0, c0 := c.Int("first row", 0, 3), c.Int("first col", 0, 3)
	if o.Far && gen.Rare(c, "far", 6) {
		maxR, maxC := 65536, 256
		if o.XLSX {
			maxR, maxC = 1048576, 16384
		}
		switch c.Int("far where", 0, 3) {
		case 0:
			c0 = maxC - nc
		case 1:
			c0 = c.Int("far col", 20, maxC-nc)
		case 2:
			// few columns, as all of the rows are read
			c0, nc = 0, min(nc, 2)
			r0 = min(65536-nr, maxR-nr)
		default:
			c0, nc = 0, min(nc, 2)
			r0 = c.Int("far row", 100, 5000)
		}
	}
	for r := 0; r < nr; r++ {
		for col := 0; col < nc; col++ {
			x := &model.Cell{R: r0 + r, C: c0 + col}
			if o.XFs > 1 {
				x.XF = c.Int("xf", 0, o.XFs-1)
			}
			if o.Formulas {
				x.Formula = c.Int("formula", 0, 3) == 3
			}
			k := c.Int("cell kind", 0, 9)
			switch {
			case k <= 1:
				continue
			case k <= 5 && !o.NoNum:
				x.K = model.Num
				x.F = o.Num(c, "value")
				if x.Formula && c.Int("formula blank", 0, 9) == 9 {
					x.K, x.S = model.Text, ""
				}
			case k == 6 && !o.NoNum:
				x.K = model.Bool
				x.B = gen.Bool(c, "bool")
			case k == 7 && !o.NoNum:
				x.K = model.Err
				x.S = model.Errors[c.Int("error", 0, len(model.Errors)-1)].Code
			default:
				if !o.Text {
					continue
				}
				x.K = model.Text
				x.S = gen.Text(c, "text", 1, o.MaxText)
				if gen.Rare(c, "empty text", 3) {
					x.S = ""
				}
			}
			s.Cells = append(s.Cells, x)
		}
	}
	extent(c, s)
	return s
}

// extent sets the declared extent.
func extent(c gen.Ch, s *model.Sheet) {
	for _, x := range s.Cells {
		s.Rows, s.Cols = max(s.Rows, x.R+1), max(s.Cols, x.C+1)
	}
	if gen.Bool(c, "larger extent") {
		s.Rows = min(max(65536, s.Rows), s.Rows+c.Int("more rows", 1, 3))
		s.Cols = min(max(256, s.Cols), max(s.Cols, 1)+c.Int("more cols", 0, 3))
	}
}

// storeXLS writes a workbook as an XLS file.
func storeXLS(c *Case, b *model.Book) ([]byte, *biff.Info) {
	o := biff.DrawOpt(c.C)
	stream, info := biff.Stream(c.C, b, o)
	return wrapXLS(c.C, stream), info
}

// wrapXLS puts a workbook stream into a compound file.
func wrapXLS(c gen.Ch, stream []byte) []byte {
	entries := []cfbw.Entry{{Name: "Workbook", Data: stream}}
	if gen.Bool(c, "other streams") {
		entries = append(entries, cfbw.Entry{Name: "\x05SummaryInformation", Data: gen.Bytes(c, "summary", 300)},
			cfbw.Entry{Name: "_VBA_PROJECT_CUR", Storage: true}, cfbw.Entry{Name: "dir", Data: gen.Bytes(c, "other", 5000), InFirst: true})
		if gen.Rare(c, "embedded workbook", 20) {
			o := biff.DrawOpt(c)
			b := &model.Book{Sheets: []*model.Sheet{{Name: "Embedded", Rows: 1, Cols: 1, Cells: []*model.Cell{{K: model.Num, F: 4711}}}}}
			stream, _ := biff.Stream(c, b, o)
			entries = append(entries, cfbw.Entry{Name: "Workbook", Data: stream, InFirst: true})
		}
		p := gen.Perm(c, "stream order", len(entries))
		var e2 []cfbw.Entry
		for _, i := range p {
			e2 = append(e2, entries[i])
		}
		entries = e2
	}
	data, _ := cfbw.Write(c, entries, cfbw.DrawOpt(c))
	return data
}

// storeXLSX writes a workbook as an XLSX file.
func storeXLSX(c *Case, b *model.Book) ([]byte, *xlsxw.Info) {
	return xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
}

// describe a sheet for samples.
func describe(s *model.Sheet) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q %dx%d:", s.Name, s.Rows, s.Cols)
	for _, x := range s.Cells {
		fmt.Fprintf(&sb, " %s=", xlsxw.Ref(x.R, x.C))
		if x.Formula {
			sb.WriteString("=")
		}
		switch x.K {
		case model.Num:
			fmt.Fprintf(&sb, "%v", x.F)
		case model.Bool:
			fmt.Fprintf(&sb, "%v", x.B)
		case model.Err:
			sb.WriteString(x.S)
		case model.Text:
			t := x.S
			if len(t) > 30 {
				t = t[:30] + "…"
			}
			fmt.Fprintf(&sb, "%q", t)
		}
	}
	return sb.String()
}
