package xlsxw

import (
	"archive/zip"
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"verif/harness/gen"
	"verif/harness/model"
)

// Opt controls how a workbook is stored.
type Opt struct {
	Style     Style
	Noise     bool // optional elements and parts
	Rich      bool // rich text, phonetic guides
	Escape    bool // needless _xHHHH_ escapes
	Inline    bool // inline strings
	Parts     int  // naming of the parts
	Shuffle   bool // order of parts, relationships
	Store     bool // no compression
	Case      bool // names of parts in another case than in targets
	NoDim     bool // no dimension element
	NoPattern bool
	PadSST    int // unused shared strings in front
	DropSST   int // shared strings missing at the end
}

// DrawOpt chooses how to store a workbook.
func DrawOpt(c gen.Ch) Opt {
	return Opt{
		Style: DrawStyle(c), Noise: gen.Bool(c, "xlsx noise"), Rich: gen.Bool(c, "xlsx rich"), Escape: gen.Bool(c, "xlsx escapes"),
		Inline: gen.Bool(c, "xlsx inline"), Parts: c.Int("xlsx parts", 0, 4), Shuffle: gen.Bool(c, "xlsx shuffle"), Store: gen.Bool(c, "xlsx store"),
		Case: gen.Rare(c, "xlsx case", 15),
	}
}

const (
	nsMain = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
	nsDoc  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	nsRel  = "http://schemas.openxmlformats.org/package/2006/relationships"
	nsCT   = "http://schemas.openxmlformats.org/package/2006/content-types"
)

// Part of a package.
type Part struct {
	Name string
	Data []byte
}

// Info tells what a file has.
type Info struct {
	Kinds map[string]int
}

func (i *Info) count(k string) {
	if i.Kinds == nil {
		i.Kinds = map[string]int{}
	}
	i.Kinds[k]++
}

// ColName returns the letters of a zero-based column.
func ColName(c int) string {
	s := ""
	for c++; c > 0; c = (c - 1) / 26 {
		s = string(rune('A'+(c-1)%26)) + s
	}
	return s
}

// Ref returns the reference of a zero-based cell.
func Ref(r, c int) string { return ColName(c) + strconv.Itoa(r+1) }

// RangeRef returns the reference of a range.
func RangeRef(r model.Range) string {
	if r.R1 == r.R2 && r.C1 == r.C2 {
		return Ref(r.R1, r.C1)
	}
	return Ref(r.R1, r.C1) + ":" + Ref(r.R2, r.C2)
}

var (
	escapePat  = regexp.MustCompile(`^_x[0-9A-Fa-f]{4}_`)
	partialPat = regexp.MustCompile(`_x[0-9A-Fa-f]{0,4}$`)
)

// Escape a text as ST_Xstring.
func Escape(r gen.Ch, s string, needless bool) string {
	out := ""
	rs := []rune(s)
	for i, x := range rs {
		if escapePat.MatchString(string(rs[i:min(len(rs), i+8)])) {
			out += "_x005F_"
			continue
		}
		if x < ' ' && x != '\t' && x != '\n' || x == 0xFFFE || x == 0xFFFF || (needless && x != '_' && r.Int("", 0, 5) == 0 && !partialPat.MatchString(out)) {
			for _, u := range utf16.Encode([]rune{x}) {
				out += fmt.Sprintf(gen.Pick(r, "", "_x%04X_", "_x%04x_"), u)
			}
			continue
		}
		out += string(x)
	}
	return out
}

type writer struct {
	c    gen.Ch
	r    gen.Ch // details
	o    Opt
	b    *model.Book
	info *Info
	sst  []*El
	idx  map[string]int
}

func tEl(s string, r gen.Ch) *El {
	e := E("t", nil, Text(s))
	e.Mixed = true
	if s == "" || strings.TrimSpace(s) != s || strings.Contains(s, "\n") || r.Int("", 0, 4) == 0 {
		e.Attrs = append(e.Attrs, [2]string{"xml:space", "preserve"})
	}
	return e
}

// textKids are the contents of si or is.
func (w *writer) textKids(s string) []interface{} {
	var kids []interface{}
	if w.o.Rich && w.r.Int("", 0, 2) == 0 {
		// runs; an escape must not span them
		rs := []rune(s)
		for first := true; first || len(rs) > 0; first = false {
			n := w.r.Int("", 0, len(rs))
			if w.r.Int("", 0, 1) == 0 {
				n = len(rs)
			}
			var pr *El
			if w.r.Int("", 0, 1) == 0 {
				pr = E("rPr", nil, E("b", nil), E("sz", A("val", "11")), E("color", A("theme", "1")), E("rFont", A("val", "Calibri")), E("family", A("val", "2")))
			}
			part := string(rs[:n])
			kids = append(kids, E("r", nil, pr, tEl(w.esc(part), w.r)))
			rs = rs[n:]
		}
		w.info.count("rich text")
	} else {
		kids = append(kids, tEl(w.esc(s), w.r))
	}
	if w.o.Rich && w.r.Int("", 0, 2) == 0 {
		for n := w.r.Int("", 1, 2); n > 0; n-- {
			kids = append(kids, E("rPh", A("sb", "0", "eb", "1"), tEl("フリガナ", w.r)))
		}
		kids = append(kids, E("phoneticPr", A("fontId", "1", "type", "noConversion")))
		w.info.count("phonetic")
	}
	return kids
}

func (w *writer) esc(s string) string {
	e := Escape(w.r, s, w.o.Escape && w.r.Int("", 0, 2) == 0)
	if e != s {
		w.info.count("escaped")
	}
	return e
}

func (w *writer) shared(s string) int {
	if i, ok := w.idx[s]; ok && w.r.Int("", 0, 5) != 0 {
		return i
	}
	for w.o.Noise && w.r.Int("", 0, 7) == 0 {
		// a string that is not used
		switch w.r.Int("", 0, 3) {
		case 0:
			w.sst = append(w.sst, E("si", nil))
		case 1:
			w.sst = append(w.sst, E("si", nil, E("t", nil)))
		case 2:
			w.sst = append(w.sst, E("si", nil, E("r", nil, E("t", nil)), E("r", nil, E("t", nil))))
		default:
			w.sst = append(w.sst, E("si", nil, w.textKids("unused")))
		}
		w.info.count("unused string")
	}
	w.sst = append(w.sst, E("si", nil, w.textKids(s)))
	w.idx[s] = len(w.sst) - 1
	return len(w.sst) - 1
}

func number(r gen.Ch, f float64) string {
	switch r.Int("", 0, 4) {
	case 0:
		return strconv.FormatFloat(f, 'E', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'g', 17, 64)
	case 2:
		if f > -1e20 && f < 1e20 {
			return strconv.FormatFloat(f, 'f', -1, 64)
		}
	case 3:
		return strconv.FormatFloat(f, 'e', -1, 64)
	}
	return strconv.FormatFloat(f, 'G', -1, 64)
}

func (w *writer) cell(x *model.Cell) *El {
	attrs := A("r", Ref(x.R, x.C))
	if x.XF != 0 || w.r.Int("", 0, 3) == 0 {
		attrs = append(attrs, "s", strconv.Itoa(x.XF))
	}
	var v, is *El
	val := func(s string) *El {
		e := E("v", nil, Text(s))
		e.Mixed = true
		return e
	}
	num := func(s string) *El {
		if w.o.Style.Layout && w.r.Int("", 0, 9) == 0 {
			s = gen.Pick(w.r, "", "\n"+s+"\n", " "+s, s+" ")
		}
		return val(s)
	}
	typ := ""
	switch x.K {
	case model.Num:
		if w.r.Int("", 0, 2) == 0 {
			typ = "n"
		}
		v = num(number(w.r, x.F))
		w.info.count("number")
	case model.Bool:
		typ = "b"
		s := gen.Pick(w.r, "", "0", "0", "false")
		if x.B {
			s = gen.Pick(w.r, "", "1", "1", "true")
		}
		v = num(s)
		w.info.count("boolean")
	case model.Err:
		typ = "e"
		v = val(x.S)
		w.info.count("error")
	case model.Text:
		switch {
		case x.Formula:
			typ = "str"
			v = val(w.esc(x.S))
			if strings.TrimSpace(x.S) != x.S {
				v.Attrs = append(v.Attrs, [2]string{"xml:space", "preserve"})
			}
			w.info.count("formula string")
		case w.o.Inline && w.r.Int("", 0, 1) == 0:
			typ = "inlineStr"
			is = E("is", nil, w.textKids(x.S))
			w.info.count("inline string")
		default:
			typ = "s"
			v = num(strconv.Itoa(w.shared(x.S)))
			w.info.count("shared string")
		}
	}
	if typ != "" {
		attrs = append(attrs, "t", typ)
	}
	if w.o.Noise && w.r.Int("", 0, 9) == 0 {
		for _, a := range []string{"cm", "vm", "ph"} {
			if w.r.Int("", 0, 1) == 0 {
				attrs = append(attrs, a, "1")
			}
		}
	}
	var kids []interface{}
	if x.Formula {
		f := E("f", nil, Text(gen.Pick(w.r, "", "SUM(A1:A3)", "1+1", `"a"&"<b>"`, "Sheet1!$A$1")))
		f.Mixed = true
		switch w.r.Int("", 0, 5) {
		case 0:
			f.Attrs = [][2]string{{"t", "shared"}, {"ref", "A1:B7"}, {"si", "0"}}
		case 1:
			f = E("f", A("t", "shared", "si", "0"))
		case 2:
			f.Attrs = [][2]string{{"t", "array"}, {"ref", Ref(x.R, x.C)}}
		}
		kids = append(kids, f)
		w.info.count("formula")
	}
	if v != nil {
		kids = append(kids, v)
	}
	if is != nil {
		kids = append(kids, is)
	}
	if w.o.Noise && w.r.Int("", 0, 9) == 0 {
		kids = append(kids, w.extension("v", "is", "t", "f"))
	}
	if w.o.Shuffle && len(kids) > 1 && w.r.Int("", 0, 2) == 0 {
		kids[0], kids[len(kids)-1] = kids[len(kids)-1], kids[0]
		w.info.count("value first")
	}
	return E("c", attrs, kids)
}

// look has attributes of a row or column that is displayed in another way.
func (w *writer) look() []string {
	var res []string
	for _, a := range []string{"hidden", "outlineLevel", "collapsed", "thickTop", "thickBot", "ph", "customHeight"} {
		if w.r.Int("", 0, 2) == 0 {
			res = append(res, a, "1")
		}
	}
	return res
}

func (w *writer) sheet(s *model.Sheet, linkID func(model.Link) string) *El {
	var kids []interface{}
	noise := func(n int) bool { return w.o.Noise && w.r.Int("", 0, n) == 0 }
	if noise(1) {
		kids = append(kids, E("sheetPr", nil, E("tabColor", A("rgb", "FFFF0000")), E("outlinePr", A("summaryBelow", "0"))))
	}
	if !w.o.NoDim {
		ref := "A1"
		if s.Rows > 0 {
			r := model.Range{R2: s.Rows - 1, C2: s.Cols - 1}
			if len(s.Cells) > 0 && w.r.Int("", 0, 2) == 0 {
				r.R1, r.C1 = r.R2, r.C2
				for _, x := range s.Cells {
					r.R1, r.C1 = min(r.R1, x.R), min(r.C1, x.C)
				}
			}
			ref = RangeRef(r)
		}
		kids = append(kids, E("dimension", A("ref", ref)))
	}
	if noise(1) {
		kids = append(kids, E("sheetViews", nil, E("sheetView", A(append([]string{"tabSelected", "1", "workbookViewId", "0"}, gen.Pick(w.r, "", nil, []string{"showZeros", "0"}, []string{"showFormulas", "1"}, []string{"rightToLeft", "1"})...)...),
			E("pane", A("ySplit", "1", "topLeftCell", "A2")), E("selection", A("activeCell", "B2", "sqref", "B2:C3")))))
		kids = append(kids, E("sheetFormatPr", A(append([]string{"defaultRowHeight", "15"}, gen.Pick(w.r, "", nil, []string{"zeroHeight", "1"}, []string{"outlineLevelRow", "2", "outlineLevelCol", "1"})...)...)))
	}
	if noise(1) {
		kids = append(kids, E("cols", nil, E("col", A("min", "1", "max", "3", "width", "12.5", "style", "0", "hidden", strconv.Itoa(w.r.Int("", 0, 1)), "outlineLevel", strconv.Itoa(w.r.Int("", 0, 2))))))
	}
	cells := append([]*model.Cell{}, s.Cells...)
	sort.SliceStable(cells, func(i, j int) bool {
		if cells[i].R != cells[j].R {
			return cells[i].R < cells[j].R
		}
		return cells[i].C < cells[j].C
	})
	var rows []interface{}
	var row *El
	last, lastCol := -1, -1
	for _, x := range cells {
		if row == nil || last != x.R {
			for w.o.Noise && last+1 < x.R && w.r.Int("", 0, 9) == 0 {
				// an empty row
				rows = append(rows, E("row", append(A("r", strconv.Itoa(last+2), "ht", "20"), w.look()...)))
				last++
			}
			row = E("row", A("r", strconv.Itoa(x.R+1)))
			if noise(1) {
				row.Attrs = append(row.Attrs, [2]string{"spans", "1:3"}, [2]string{"s", "3"}, [2]string{"customFormat", "1"})
			}
			if noise(2) {
				row.Attrs = append(row.Attrs, E("row", w.look()).Attrs...)
			}
			rows = append(rows, row)
			last, lastCol = x.R, -1
		}
		if x.C-1 > lastCol && noise(7) {
			row.Kids = append(row.Kids, E("c", A("r", Ref(x.R, x.C-1), "s", strconv.Itoa(w.r.Int("", 0, max(0, len(w.b.XFs)-1))))))
			w.info.count("styled blank")
		}
		row.Kids = append(row.Kids, w.cell(x))
		lastCol = x.C
	}
	kids = append(kids, E("sheetData", nil, rows))
	if noise(2) {
		kids = append(kids, E("sheetProtection", A("sheet", "1")), E("autoFilter", A("ref", "A1:B2"), E("filterColumn", A("colId", "0"), E("filters", nil, E("filter", A("val", "7"))))))
	}
	if len(s.Merges) > 0 {
		m := E("mergeCells", A("count", strconv.Itoa(len(s.Merges))))
		for _, r := range s.Merges {
			m.Kids = append(m.Kids, E("mergeCell", A("ref", RangeRef(r))))
		}
		kids = append(kids, m)
	}
	if noise(2) {
		f := E("formula", nil, Text("A1>5"))
		kids = append(kids, E("phoneticPr", A("fontId", "1")), E("conditionalFormatting", A("sqref", "A1:C3"), E("cfRule", A("type", "expression", "priority", "1"), f)),
			E("dataValidations", A("count", "1"), E("dataValidation", A("type", "list", "sqref", "B2"), E("formula1", nil, Text(`"a,b"`)))))
	}
	if len(s.Links) > 0 {
		h := E("hyperlinks", nil)
		for _, l := range s.Links {
			a := A("ref", RangeRef(l.Range))
			internal := l.Target == "" && w.o.Noise && w.r.Int("", 0, 2) == 0
			if l.Target != "" || internal {
				a = append(a, "r:id", linkID(l))
			}
			if l.Location != "" && !(internal && w.r.Int("", 0, 1) == 0) {
				a = append(a, "location", l.Location)
			}
			if l.Name != "" {
				a = append(a, "display", l.Name)
			}
			if w.r.Int("", 0, 3) == 0 {
				a = append(a, "tooltip", "go there")
			}
			h.Kids = append(h.Kids, E("hyperlink", a))
		}
		kids = append(kids, h)
	}
	if noise(1) {
		kids = append(kids, E("pageMargins", A("left", "0.7", "right", "0.7", "top", "0.75", "bottom", "0.75", "header", "0.3", "footer", "0.3")),
			E("headerFooter", nil, E("oddHeader", nil, Text("&Cpage"))))
	}
	if noise(2) {
		kids = append(kids, E("mc:AlternateContent", A("xmlns:mc", "http://schemas.openxmlformats.org/markup-compatibility/2006"),
			E("mc:Choice", A("Requires", "x14"), E("controls", nil, E("control", A("shapeId", "1025", "name", "Button 1"), E("controlPr", A("defaultSize", "0"),
				E("anchor", nil, E("from", nil, E("xdr:col", A("xmlns:xdr", "http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing"), Text("1")), E("xdr:row", A("xmlns:xdr", "http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing"), Text("2"))))))))))
	}
	if noise(2) {
		kids = append(kids, w.extension("row", "c", "v", "dimension", "mergeCell", "hyperlink", "f", "conditionalFormatting", "sqref"))
	} else if noise(2) {
		kids = append(kids, E("extLst", nil, E("ext", A("uri", "{78C0D931}"), E("sparkline", nil, E("f", nil, Text("Sheet1!A1:A5")), E("sqref", nil, Text("B1"))))))
	}
	return E("worksheet", nil, kids)
}

// extension is an extension list with elements that have names of others.
func (w *writer) extension(names ...string) *El {
	p := gen.Pick(w.r, "", "x14", "x15", "xx")
	ns := A("xmlns:"+p, "http://schemas.microsoft.com/office/spreadsheetml/2009/9/main")
	var some func(depth int) []interface{}
	some = func(depth int) []interface{} {
		var kids []interface{}
		for n := w.r.Int("", 0, 3); n > 0; n-- {
			e := E(p+":"+gen.Pick(w.r, "", names...), nil)
			for _, a := range [][2]string{{"r", "B2"}, {"ref", "A1:C9"}, {"t", "str"}, {"name", "ext"}, {"numFmtId", "164"}, {"formatCode", "0.0"}, {"date1904", "1"}, {"r:id", "rId1"}} {
				if w.r.Int("", 0, 3) == 0 && a[0] != "r:id" {
					e.Attrs = append(e.Attrs, a)
				}
			}
			if depth < 3 && w.r.Int("", 0, 1) == 0 {
				e.Kids = some(depth + 1)
			}
			if len(e.Kids) == 0 && w.r.Int("", 0, 1) == 0 {
				e.Kids = []interface{}{Text("7")}
			}
			kids = append(kids, e)
		}
		return kids
	}
	list := E("extLst", nil)
	for n := w.r.Int("", 1, 2); n > 0; n-- {
		list.Kids = append(list.Kids, E("ext", append(A("uri", "{x}"), ns...), some(0)))
	}
	w.info.count("extension")
	return list
}

func (w *writer) styles() *El {
	var kids []interface{}
	noise := func() bool { return w.o.Noise && w.r.Int("", 0, 1) == 0 }
	if len(w.b.Formats) > 0 {
		n := E("numFmts", A("count", strconv.Itoa(len(w.b.Formats))))
		for _, f := range w.b.Formats {
			n.Kids = append(n.Kids, E("numFmt", A("numFmtId", strconv.Itoa(f.ID), "formatCode", f.Code)))
		}
		kids = append(kids, n)
	}
	if noise() {
		kids = append(kids, E("fonts", A("count", "1"), E("font", nil, E("sz", A("val", "11")), E("name", A("val", "Calibri")))),
			E("fills", A("count", "1"), E("fill", nil, E("patternFill", A("patternType", "none")))),
			E("borders", A("count", "1"), E("border", nil, E("left", nil), E("right", nil))))
	}
	base := E("cellStyleXfs", A("count", "2"), E("xf", A("numFmtId", "0")), E("xf", A("numFmtId", "14", "applyNumberFormat", "1")))
	kids = append(kids, base)
	x := E("cellXfs", A("count", strconv.Itoa(len(w.b.XFs))))
	for _, id := range w.b.XFs {
		a := A("fontId", "0", "fillId", "0", "borderId", "0", "xfId", strconv.Itoa(w.r.Int("", 0, 1)))
		if id != 0 || w.r.Int("", 0, 2) != 0 {
			a = append(A("numFmtId", strconv.Itoa(id)), a...)
		} else {
			w.info.count("style without a format")
		}
		if id != 0 || w.r.Int("", 0, 1) == 0 {
			if w.r.Int("", 0, 2) > 0 {
				a = append(a, "applyNumberFormat", gen.Pick(w.r, "", "1", "true"))
			}
		} else {
			a = append(a, "applyNumberFormat", "0")
		}
		xf := E("xf", a)
		if noise() {
			xf.Kids = append(xf.Kids, E("alignment", A("horizontal", "center")), E("protection", A("locked", "0")))
		}
		x.Kids = append(x.Kids, xf)
	}
	kids = append(kids, x)
	if noise() {
		kids = append(kids, E("cellStyles", A("count", "1"), E("cellStyle", A("name", "Normal", "xfId", "0", "builtinId", "0"))))
	}
	if noise() {
		// formats for conditional formatting, which may reuse an id
		id := 164
		if len(w.b.Formats) > 0 {
			id = w.b.Formats[0].ID
		}
		kids = append(kids, E("dxfs", A("count", "1"), E("dxf", nil, E("numFmt", A("numFmtId", strconv.Itoa(id), "formatCode", `"dxf"0`)), E("fill", nil))))
		w.info.count("dxf")
	}
	if noise() {
		kids = append(kids, E("tableStyles", A("count", "0")))
	}
	if noise() {
		kids = append(kids, w.extension("slicerStyles", "dxfs", "dxf", "numFmts", "numFmt", "cellXfs", "xf", "cellStyleXfs"))
	}
	return E("styleSheet", nil, kids)
}

// Parts writes the parts of a workbook.
func Parts(c gen.Ch, b *model.Book, o Opt) ([]Part, *Info) {
	w := &writer{c: c, r: gen.NewSeeded(c.U64("xlsx details")), o: o, b: b, info: &Info{}, idx: map[string]int{}}
	for i := 0; i < o.PadSST; i++ {
		w.sst = append(w.sst, E("si", nil, E("t", nil, Text("unused "+strconv.Itoa(i)))))
	}
	var parts []Part
	st := o.Style
	add := func(name string, root *El, ns string, others ...string) {
		parts = append(parts, Part{strings.TrimPrefix(name, "/"), XML(w.r, st, root, ns, others...)})
	}

	wb := "xl/workbook.xml"
	switch o.Parts {
	case 2:
		wb = "workbook.xml"
	case 3:
		wb = "a/deep/er/book.main.xml"
	}
	dir := path.Dir(wb)
	target := func(base, name string) string {
		switch w.r.Int("", 0, 3) {
		case 0:
			return "/" + name
		case 1:
			if base != "." && base != "" {
				return strings.Repeat("../", strings.Count(base, "/")+1) + name
			}
		case 2:
			if !o.NoPattern {
				return "./" + rel(base, name)
			}
		}
		return rel(base, name)
	}
	if o.Parts == 0 {
		target = rel
	}

	var types []interface{}
	ct := func(name, t string) {
		types = append(types, E("Override", A("PartName", "/"+name, "ContentType", "application/vnd.openxmlformats-officedocument."+t+"+xml")))
	}
	ct(wb, "spreadsheetml.sheet.main")

	// ids and names of the sheets
	n := len(b.Sheets)
	nums := gen.Perm(gen.Zero{}, "", n)
	if o.Parts > 0 {
		nums = gen.Perm(w.r, "", n)
	}
	sheetName := func(i int) string {
		switch o.Parts {
		case 1, 3:
			return path.Join(dir, "worksheets", fmt.Sprintf("sheet%d.xml", nums[i]+1))
		case 4:
			return fmt.Sprintf("other/d%d/S %d.xml", nums[i]%2, nums[i])
		}
		return path.Join(dir, "worksheets", fmt.Sprintf("sheet%d.xml", i+1))
	}
	relID := func(k int) string {
		if o.Parts == 0 {
			return fmt.Sprintf("rId%d", k+1)
		}
		return fmt.Sprintf("%s%d", gen.Pick(gen.Ch(gen.NewSeeded(uint64(k))), "", "rId", "R", "sheet_"), (k*7+3)%97+k/97*100)
	}
	var rels []*El
	sheets := E("sheets", nil)
	for i, s := range b.Sheets {
		name := sheetName(i)
		var srels []*El
		linkID := func(l model.Link) string {
			id := fmt.Sprintf("rId%d", len(srels)+1)
			if o.Parts > 0 {
				id = fmt.Sprintf("link%d", len(srels)*5+2)
			}
			ra := A("Id", id, "Type", nsDoc+"/hyperlink", "Target", l.Target, "TargetMode", "External")
			if l.Target == "" {
				// a place in the workbook
				ra = A("Id", id, "Type", nsDoc+"/hyperlink", "Target", "#"+l.Location)
				if w.r.Int("", 0, 1) == 0 {
					ra = append(ra, "TargetMode", "Internal")
				}
				w.info.count("internal relationship")
			}
			srels = append(srels, E("Relationship", ra))
			return id
		}
		root := w.sheet(s, linkID)
		if !s.Lost {
			add(name, root, nsMain, "r", nsDoc)
		}
		ct(name, "spreadsheetml.worksheet")
		if len(srels) > 0 || (o.Noise && w.r.Int("", 0, 3) == 0) {
			srels = append(srels, E("Relationship", A("Id", "rIdx", "Type", nsDoc+"/printerSettings", "Target", "../printerSettings/p.bin")))
			w.addRels(add, path.Join(path.Dir(name), "_rels", path.Base(name)+".rels"), srels)
		}
		if s.Lost && w.r.Int("", 0, 1) == 0 {
			// no relationship, either
		} else {
			rels = append(rels, E("Relationship", A("Id", relID(i), "Type", nsDoc+"/worksheet", "Target", target(dir, name))))
		}
		a := A("name", s.Name, "sheetId", strconv.Itoa(nums[i]+1+w.r.Int("", 0, 1)*n), "r:id", relID(i))
		if s.Hidden > 0 {
			a = append(a, "state", []string{"", "hidden", "veryHidden"}[s.Hidden])
		}
		sheets.Kids = append(sheets.Kids, E("sheet", a))
	}
	k := n
	extra := func(typ, name string) {
		rels = append(rels, E("Relationship", A("Id", relID(k), "Type", nsDoc+"/"+typ, "Target", target(dir, name))))
		k++
	}
	w.sst = w.sst[:max(0, len(w.sst)-o.DropSST)]
	if len(w.sst) > 0 || (o.Noise && w.r.Int("", 0, 1) == 0) {
		name := path.Join(dir, gen.Pick(w.r, "", "sharedStrings.xml", "SharedStrings.xml", "sst/strings1.xml"))
		sst := E("sst", A("count", strconv.Itoa(len(w.sst)+3), "uniqueCount", strconv.Itoa(len(w.sst))))
		for _, si := range w.sst {
			sst.Kids = append(sst.Kids, si)
		}
		if o.Noise && w.r.Int("", 0, 4) == 0 {
			sst.Kids = append(sst.Kids, w.extension("si", "t", "r"))
		}
		add(name, sst, nsMain)
		extra("sharedStrings", name)
		ct(name, "spreadsheetml.sharedStrings")
	}
	if len(b.XFs) > 1 || len(b.Formats) > 0 || (o.Noise && w.r.Int("", 0, 1) == 0) {
		name := path.Join(dir, "styles.xml")
		add(name, w.styles(), nsMain)
		extra("styles", name)
		ct(name, "spreadsheetml.styles")
	}
	if o.Noise && w.r.Int("", 0, 1) == 0 {
		name := path.Join(dir, "theme/theme1.xml")
		add(name, E("theme", A("name", "Office"), E("fmtScheme", nil)), "http://schemas.openxmlformats.org/drawingml/2006/main")
		extra("theme", name)
	}
	pr := E("workbookPr", nil)
	if b.Date1904 {
		pr.Attrs = append(pr.Attrs, [2]string{"date1904", gen.Pick(w.r, "", "1", "true")})
	} else if w.r.Int("", 0, 3) == 0 {
		pr.Attrs = append(pr.Attrs, [2]string{"date1904", gen.Pick(w.r, "", "0", "false")})
	}
	var wk []interface{}
	if o.Noise {
		for i := w.r.Int("", 0, 3); i > 0; i-- {
			a := [][2]string{{"defaultThemeVersion", "124226"}, {"codeName", "ThisWorkbook"}, {"filterPrivacy", "1"}, {"showObjects", "all"}}[i-1]
			pr.Attrs = append(pr.Attrs, a)
			if k := len(pr.Attrs) - 1; k > 0 && w.r.Int("", 0, 1) == 0 {
				pr.Attrs[0], pr.Attrs[k] = pr.Attrs[k], pr.Attrs[0]
			}
		}
		wk = append(wk, E("fileVersion", A("appName", "xl")))
		if w.r.Int("", 0, 2) == 0 {
			wk = append(wk, E("fileSharing", A("readOnlyRecommended", "1")))
		}
	}
	wk = append(wk, pr)
	if o.Noise {
		if w.r.Int("", 0, 2) == 0 {
			wk = append(wk, E("workbookProtection", A("lockStructure", "1")))
		}
		wk = append(wk, E("bookViews", nil, E("workbookView", A("activeTab", "0"))))
	}
	wk = append(wk, sheets)
	if o.Noise && w.r.Int("", 0, 1) == 0 {
		wk = append(wk, E("definedNames", nil, E("definedName", A("name", "x"), Text("Sheet1!$A$1"))))
	}
	if o.Noise && w.r.Int("", 0, 2) > 0 {
		wk = append(wk, E("calcPr", A("calcId", "1", "calcMode", "manual", "fullCalcOnLoad", "1", "iterate", "0")[:2*w.r.Int("", 1, 4)]))
	}
	if o.Noise && w.r.Int("", 0, 2) == 0 {
		wk = append(wk, E("customWorkbookViews", nil, E("customWorkbookView", A("name", "v", "guid", "{00000000-0000-0000-0000-000000000000}", "windowWidth", "1", "windowHeight", "1", "activeSheetId", "1"))))
	}
	if o.Noise && w.r.Int("", 0, 2) == 0 {
		if w.r.Int("", 0, 1) == 0 {
			// as newer versions do
			wk = append(wk, E("extLst", nil, E("ext", A("uri", "{140A7094-0E35-4892-8432-C4D2E57EDEB5}"), E("x15:workbookPr", A("xmlns:x15", "http://schemas.microsoft.com/office/spreadsheetml/2010/11/main", "chartTrackingRefBase", "1")))))
		} else {
			wk = append(wk, w.extension("workbookPr", "sheets", "sheet", "definedName"))
		}
	}
	add(wb, E("workbook", nil, wk), nsMain, "r", nsDoc)
	w.addRels(add, path.Join(dir, "_rels", path.Base(wb)+".rels"), rels)
	top := []*El{E("Relationship", A("Id", relID(50), "Type", nsDoc+"/officeDocument", "Target", target("", wb)))}
	if o.Noise {
		add("docProps/app.xml", E("Properties", nil, E("Application", nil, Text("x"))), "http://schemas.openxmlformats.org/officeDocument/2006/extended-properties")
		top = append(top, E("Relationship", A("Id", relID(51), "Type", nsDoc+"/extended-properties", "Target", "docProps/app.xml")))
	}
	w.addRels(add, "_rels/.rels", top)
	if o.Noise && w.r.Int("", 0, 1) == 0 {
		// parts with similar names that belong to nothing
		have := map[string]bool{}
		for _, p := range parts {
			have[strings.ToLower(p.Name)] = true
		}
		for _, p := range append([]Part{}, parts...) {
			if w.r.Int("", 0, 2) > 0 {
				continue
			}
			name := gen.Pick(w.r, "", "backup/"+p.Name, "old/"+p.Name, "x"+p.Name, p.Name+".bak", p.Name+".old", path.Base(p.Name), path.Join(path.Dir(p.Name), "0"+path.Base(p.Name)))
			if have[strings.ToLower(name)] || strings.HasPrefix(name, "[") || strings.HasPrefix(name, ".rels") {
				continue
			}
			have[strings.ToLower(name)] = true
			data := parts[w.r.Int("", 0, len(parts)-1)].Data
			decoy := Part{name, data}
			parts = append([]Part{decoy}, parts...)
			w.info.count("stray part")
		}
	}
	types = append(types, E("Default", A("Extension", "rels", "ContentType", "application/vnd.openxmlformats-package.relationships+xml")),
		E("Default", A("Extension", "xml", "ContentType", "application/xml")))
	add("[Content_Types].xml", E("Types", nil, types), nsCT)
	return parts, w.info
}

func rel(base, name string) string {
	if base == "" || base == "." {
		return name
	}
	if strings.HasPrefix(name, base+"/") {
		return name[len(base)+1:]
	}
	return strings.Repeat("../", strings.Count(base, "/")+1) + name
}

func (w *writer) addRels(add func(string, *El, string, ...string), name string, rels []*El) {
	e := E("Relationships", nil)
	order := gen.Perm(gen.Zero{}, "", len(rels))
	if w.o.Shuffle {
		order = gen.Perm(w.r, "", len(rels))
	}
	for _, i := range order {
		e.Kids = append(e.Kids, rels[i])
	}
	add(name, e, nsRel)
}

// Zip packs the parts.
func Zip(c gen.Ch, parts []Part, o Opt) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	order := gen.Perm(gen.Zero{}, "", len(parts))
	if o.Shuffle {
		order = gen.Perm(gen.NewSeeded(c.U64("zip order")), "", len(parts))
	}
	for _, i := range order {
		name := parts[i].Name
		if o.Case && i%3 != 1 {
			switch i % 4 {
			case 0, 1:
				name = strings.ToLower(name)
			case 2:
				name = strings.ToUpper(name)
			case 3:
				name = strings.ToUpper(name[:1]) + name[1:]
			}
		}
		h := &zip.FileHeader{Name: name, Method: zip.Deflate}
		if o.Store || (o.Shuffle && i%3 == 0) {
			h.Method = zip.Store
		}
		f, err := z.CreateHeader(h)
		if err == nil {
			_, err = f.Write(parts[i].Data)
		}
		if err != nil {
			panic(err)
		}
	}
	if err := z.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// Write a workbook.
func Write(c gen.Ch, b *model.Book, o Opt) ([]byte, *Info) {
	parts, info := Parts(c, b, o)
	return Zip(c, parts, o), info
}
