package props

import (
	"fmt"
	"net/url"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

var targets = []string{"http://example.com/", "https://example.org/a?b=c&d=%20e", "mailto:me@example.com?subject=hi", "http://пример.рф/путь", "ftp://host/file.txt", "http://h/x'y\"z", "https://example.com/a(b)", "http://e.com/<x>", "http://e.com/😀"}
var paths = []string{"other.xls", "..\\dir\\book.xls", "C:\\data\\a b.xls", "\\\\server\\share\\x.doc", "файл.xlsx", "中文.txt", "a&b.xls", "naïve.doc", "x"}
var locations = []string{"Sheet1!A1", "'My Sheet'!B2:C3", "name", "Übersicht!A1", "a#b", "top"}
var linkNames = []string{"click here", "Example", "naïve", "中文", "a <b>", "http://other/", "😀", "two words", "<x>"}

func drawTarget(c gen.Ch) (string, bool) {
	switch c.Int("target kind", 0, 3) {
	case 0, 1:
		return gen.Pick(c, "target", targets...), false
	case 2:
		return gen.Pick(c, "path", paths...), true
	}
	s := "http://x/"
	for n := c.Int("target parts", 1, 40); n > 0; n-- {
		s += gen.Pick(c, "target part", "a", "/", "-", "%41", "&", "?", "é", "Ж", "😀", "=", "~", "(", "'", "ÿ")
	}
	return s, false
}

func TestC11(t *testing.T) {
	prop(t, func(c *Case) {
		b := &model.Book{XFs: []int{0, 0}}
		file := gen.Pick(c.C, "format", "xls", "xlsx")
		s := drawSheet(c.C, "Links", SheetOpt{Text: true, MaxR: 6, XFs: 2, Num: func(c gen.Ch, l string) float64 { return float64(c.Int(l, -9999, 99999)) / 4 }})
		if s.Rows == 0 {
			s.Rows, s.Cols = c.C.Int("empty rows", 1, 6), c.C.Int("empty cols", 1, 6)
		}
		b.Sheets = []*model.Sheet{s}
		from := 0
		if c.C.Int("far down", 0, 1023)/8 == 65 {
			// rows that do not fit into 15 bits
			from = gen.Pick(c.C, "rows before", 32767-c.C.Int("rows less", 0, 8), c.C.Int("any rows before", 32700, 65500-s.Rows))
			for _, x := range s.Cells {
				x.R += from
			}
			s.Rows += from
			c.Label("far down")
		}
		var exts, ints int
		for n := c.C.Int("links", 1, 5); n > 0; n-- {
			l := model.Link{Range: model.Range{R1: c.C.Int("link row", from, s.Rows-1), C1: c.C.Int("link col", 0, s.Cols-1)}}
			l.R2, l.C2 = l.R1, l.C1
			if c.C.Int("link range", 0, 2) == 2 {
				l.R2 = min(s.Rows-1, l.R1+c.C.Int("link height", 0, 3))
				l.C2 = min(s.Cols-1, l.C1+c.C.Int("link width", 0, 3))
			}
			if file == "xls" && gen.Rare(c.C, "past the extent", 6) {
				switch c.C.Int("how far", 0, 3) {
				case 0:
					l.R2 = 65535
				case 1:
					l.C2 = 255
				case 2:
					l.R2 = min(65535, s.Rows+c.C.Int("more rows", 0, 2))
				default:
					l.C2 = min(255, s.Cols+c.C.Int("more columns", 0, 2))
				}
			}
			if x := s.Cell(l.R1, l.C1); x != nil && x.K == model.Text && strings.TrimSpace(x.S) == "" {
				continue
			}
			ok := true
			for _, o := range s.Links {
				ok = ok && !o.Overlaps(l.Range)
			}
			if !ok {
				continue
			}
			if c.C.Int("internal", 0, 3) != 3 {
				l.Target, l.File = drawTarget(c.C)
				if file == "xlsx" && gen.Rare(c.C, "fragment only", 6) {
					// an external relationship all the same
					l.Target, l.File = "#"+gen.Pick(c.C, "location", locations...), false
				}
				exts++
				if c.C.Int("with location", 0, 2) == 2 && !strings.HasPrefix(l.Target, "#") {
					l.Location = gen.Pick(c.C, "location", locations...)
				}
			} else {
				if file == "xlsx" || !gen.Rare(c.C, "to nowhere", 20) {
					l.Location = gen.Pick(c.C, "location", locations...)
				}
				ints++
			}
			if gen.Bool(c.C, "with name") {
				l.Name = gen.Pick(c.C, "link name", linkNames...)
			}
			s.Links = append(s.Links, l)
		}
		var data []byte
		if file == "xls" {
			stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
			data = wrapXLS(c.C, stream)
		} else {
			data, _ = xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
		}
		fn := c.File("a."+file, data)
		src, err := openAs(c, file, fn)
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		g := expect(b, s, file)
		for _, l := range s.Links {
			at := [2]int{l.R1, l.C1}
			own := g.at(l.R1, l.C1)
			link := l.Target
			if l.Target != "" && l.Location != "" {
				link += "#" + l.Location
			}
			if file == "xlsx" {
				if link != "" {
					g.Cells[at] = Exp{Kind: "hyperlink", S: link}
				}
				continue
			}
			text := ""
			if x := s.Cell(l.R1, l.C1); x != nil {
				text = ownText(x)
			}
			switch {
			case link == "" && own.Kind != "blank":
				// the cell's own text stays visible
				g.Cells[at] = Exp{Kind: "any", S: text}
			case link == "" && l.Location == "":
				g.Cells[at] = Exp{Kind: "any"}
			case link == "":
				g.Cells[at] = Exp{Kind: "any", S: l.Name}
			default:
				name := l.Name
				if name == "" {
					name = text
				}
				want := "<" + link + ">"
				if name != "" {
					want = name + " " + want
				}
				g.Cells[at] = Exp{Kind: "link", S: want}
			}
			g.merge(l.Range, true)
		}
		rows, err := getSheet(src, s.Name)
		if err == nil {
			// links inside of the workbook may be shown behind the text
			for at, e := range g.Cells {
				if e.Kind != "any" {
					continue
				}
				delete(g.Cells, at)
				if at[0] >= len(rows) || at[1] >= len(rows[at[0]]) {
					err = fmt.Errorf("%s: missing", pos(at[0], at[1]))
					break
				}
				got := rows[at[0]][at[1]]
				if !strings.HasPrefix(got.S, e.S) {
					err = fmt.Errorf("%s: %v does not show %q", pos(at[0], at[1]), got, e.S)
					break
				}
				rows[at[0]][at[1]] = RCell{T: "blank", V: "", F: "General"}
			}
		}
		if err == nil {
			err = g.compare(rows)
		}
		if err != nil {
			c.Fatalf("%s sheet %s with links %+v: %v", file, describe(s), s.Links, err)
		}
		if file == "xlsx" {
			checkURLs(c, src, s)
		}
		c.Label("%s", file)
		if ints > 0 {
			c.Label("internal link")
		}
		if exts > 0 {
			c.Label("external link")
			c.NonTrivial(file, s.Links, describe(s))
			c.Sample("%s %s links %+v", file, describe(s), s.Links)
		}
	})
}

func ownText(x *model.Cell) string {
	switch x.K {
	case model.Num:
		return fmt.Sprint(x.F)
	case model.Bool:
		return strings.ToUpper(fmt.Sprint(x.B))
	}
	return x.S
}

// checkURLs looks at the URLs of the cells.
func checkURLs(c *Case, src grate.Source, s *model.Sheet) {
	doc, ok := src.(*xlsx.Document)
	if !ok {
		return
	}
	col, err := doc.Get(s.Name)
	if err != nil {
		c.Fatalf("get: %v", err)
	}
	raw, ok := col.(interface{ Raw() []commonxl.Cell })
	if !ok {
		return
	}
	for r := 0; col.Next(); r++ {
		for k, cell := range raw.Raw() {
			want := ""
			for _, l := range s.Links {
				if l.R1 == r && l.C1 == k && l.Target != "" {
					want = l.Target
					if l.Location != "" {
						want += "#" + l.Location
					}
				}
			}
			u, ok := cell.URL()
			if want == "" {
				if ok {
					c.Fatalf("%s has the URL %v", pos(r, k), u)
				}
				continue
			}
			w, err := url.Parse(want)
			if ok != (err == nil) || ok && u.String() != w.String() {
				c.Fatalf("%s has the URL %v (%v) instead of %q", pos(r, k), u, ok, want)
			}
		}
	}
}
