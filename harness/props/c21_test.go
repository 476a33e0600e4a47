package props

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// literal draws literal text of a number format.
func literal(c gen.Ch) ref.Piece {
	if gen.Rare(c, "currency", 8) {
		// with a locale or without
		s := gen.Pick(c, "which currency", "€", "$", "", "USD", "kr.", "CHF", "£", "¥", "руб", "0", "#", "%", "d.", ";", "E+")
		src := "[$" + s
		if s == "" || gen.Bool(c, "locale") {
			src += gen.Pick(c, "which locale", "-407", "-409", "-2", "-F800", "-x-euro2", "-80C")
		}
		return ref.Piece{Src: src + "]", Text: s}
	}
	switch c.Int("literal kind", 0, 2) {
	case 0:
		s := gen.Pick(c, "quoted", "USD", " kg", "a", "", "0", "100%", "#", "ymdhs", "E+0", ";", "@", "General", "[Red]", "€ ", "円", "\\", "_x", "*", "?", ".", ",", "AM/PM", "-", "'")
		if gen.Bool(c, "random quoted") {
			s = strings.ReplaceAll(gen.Text(c, "quoted text", 1, 8), "\"", "")
		}
		return ref.Piece{Src: "\"" + s + "\"", Text: s}
	case 1:
		s := gen.Pick(c, "escaped", "-", " ", "x", "0", "#", "%", "\"", "\\", "d", "E", ";", "@", "(", "G", "[", "_", "*", ".", ",", "?", "é", "中", "y", "h")
		return ref.Piece{Src: "\\" + s, Text: s}
	}
	s := gen.Pick(c, "bare", "$", "-", "+", "(", ")", " ", ":", "!", "'", "<", ">", "=", "{", "}", "~", "&", "^", "€", "£", "中")
	return ref.Piece{Src: s, Text: s}
}

func literals(c gen.Ch, max int) (ps []ref.Piece) {
	for n := c.Int("literals", 0, max); n > 0; n-- {
		ps = append(ps, literal(c))
	}
	return
}

// drawSection draws a section of a number format.
func drawSection(c gen.Ch, kinds ...string) *ref.Section {
	x := &ref.Section{Kind: gen.Pick(c, "section kind", kinds...)}
	if gen.Rare(c, "colour", 15) {
		x.Colour = gen.Pick(c, "which colour", "[Red]", "[Blue]", "[Black]", "[green]", "[COLOR 5]", "[Magenta]", "[White]", "[Yellow]", "[Cyan]", "[Color12]")
	}
	x.Pre, x.Post = literals(c, 2), literals(c, 2)
	switch x.Kind {
	case "general":
		x.Num = gen.Pick(c, "general", "General", "general", "GENERAL")
	case "digits":
		in := gen.Pick(c, "integer digits", "0", "#", "##0", "00", "000", "00000", "#,##0", "#,###", "#,#00", "0,000", "###,##0", "##", "#0", "#,##0", "0", "00,000,000", "#,##0,000", strings.Repeat("0", c.Int("integer zeros", 6, 25)))
		x.D.MinInt = strings.Count(in, "0")
		x.D.Commas = strings.Contains(in, ",")
		dec := gen.Pick(c, "decimals", "", "", ".0", ".00", ".000", ".0#", ".##", ".#", ".00##", ".000000", ".0000000000", ".00", ".#0", ".0#0", ".?#0#", "."+strings.Repeat("0", c.Int("decimal zeros", 1, 20)))
		if gen.Rare(c, "bare point", 3) {
			dec = "."
		}
		if dec != "" {
			x.D.Point = true
			x.D.MaxDec = len(dec) - 1
			x.D.MinDec = max(0, strings.LastIndexByte(dec, '0'))
		}
		if gen.Rare(c, "exponent", 15) {
			in = gen.Pick(c, "mantissa", "0", "0", "##0")
			x.D.Commas = false
			x.MaxInt = len(in)
			x.Exp = gen.Pick(c, "exponent digits", "E+00", "E+0", "E-00", "E+000", "E-0")
		} else if gen.Rare(c, "percent", 20) {
			x.Percent = true
			pc := ref.Piece{Src: "%", Text: "%"}
			if gen.Rare(c, "percent before", 12) {
				x.Pre = append(x.Pre, pc)
			} else {
				at := c.Int("percent at", 0, len(x.Post))
				x.Post = append(x.Post[:at:at], append([]ref.Piece{pc}, x.Post[at:]...)...)
			}
		}
		if x.Exp == "" && gen.Rare(c, "scaled", 12) {
			x.Scale = gen.Pick(c, "thousands", 1, 1, 2, 3)
			if commas := strings.Repeat(",", x.Scale); dec == "" || gen.Rare(c, "scaled before the point", 20) {
				in += commas
			} else {
				dec += commas
			}
		}
		x.Num = in + dec
	}
	return x
}

// drawCustom draws a custom number format.
func drawCustom(c gen.Ch) *ref.Custom {
	x := &ref.Custom{}
	n := gen.Pick(c, "sections", 1, 1, 2, 3, 4)
	for i := 0; i < n; i++ {
		switch {
		case n == 1:
			x.Sections = append(x.Sections, drawSection(c, "digits", "digits", "digits", "digits", "general"))
		case i == 3:
			x.Sections = append(x.Sections, drawSection(c, "text", "text", "static"))
		case i == n-1 && gen.Rare(c, "text section", 15):
			x.Sections = append(x.Sections, drawSection(c, "text"))
		case i == 0:
			// a lone section for numbers shows the sign of negative ones
			x.Sections = append(x.Sections, drawSection(c, "digits", "digits", "digits", "general"))
		default:
			s := drawSection(c, "digits", "digits", "digits", "digits", "general", "static")
			if s.Kind == "static" && len(s.Pre)+len(s.Post) == 0 {
				s.Pre = []ref.Piece{{Src: "\"none\"", Text: "none"}}
			}
			x.Sections = append(x.Sections, s)
		}
	}
	if x.Sections[0].Kind == "general" {
		// the code of the general format is reported in one way
		x.Sections[0].Num = "General"
	}
	for _, s := range x.Sections {
		if s.Kind == "static" && len(s.Pre)+len(s.Post) == 0 {
			s.Pre = []ref.Piece{{Src: "\\-", Text: "-"}}
		}
	}
	return x
}

// padded adds padding to a number format, as in those for accounting.
func padded(c gen.Ch, x *ref.Custom) {
	pad := func(ps []ref.Piece) []ref.Piece {
		for n := c.Int("paddings", 0, 2); n > 0; n-- {
			p := ref.Piece{Src: gen.Pick(c, "padding", "_)", "_(", "_-", "_ ", "* ", "_€", "_0", "_d", "_;", "_\"", "_\\", "_@", "_[", "_#", "_中", "__", "_*")}
			at := c.Int("padding at", 0, len(ps))
			ps = append(ps[:at:at], append([]ref.Piece{p}, ps[at:]...)...)
		}
		return ps
	}
	for i, s := range x.Sections {
		s.Padded = true
		if s.Kind == "digits" && i == 2 && gen.Bool(c, "zero as a dash") {
			// only a literal is shown for zero
			s.Num = gen.Pick(c, "blank digits", "??", "?", "???")
			s.D, s.Exp, s.Scale = ref.Digits{BlankZero: true}, "", 0
			if gen.Bool(c, "a dash") {
				s.Pre = append(s.Pre, ref.Piece{Src: "\"-\"", Text: "-"})
			}
		}
		s.Pre, s.Post = pad(s.Pre), pad(s.Post)
	}
}

// drawFor draws a number whose display by the format is of interest.
func drawFor(c gen.Ch, x *ref.Custom) (v, w interface{}) {
	if gen.Bool(c, "near a tie") {
		s := x.Sections[c.Int("section", 0, len(x.Sections)-1)]
		p := math.Pow10(-s.D.MaxDec)
		if s.Percent {
			p /= 100
		}
		p *= math.Pow10(3 * s.Scale)
		k := gen.Pick(c, "units", 0, 1, 9, 10, 99, 999, 1000, 9999, 99999, 999999, c.Int("any units", 0, 2000000))
		f := (float64(k) + gen.Pick(c, "plus", 0, 0.5, 0.49, 0.51, 0.001, 0.999)) * p
		if f != 0 && gen.Bool(c, "tie neg") {
			f = -f
		}
		return f, nil
	}
	return drawAny(c, "number")
}

func TestC21(t *testing.T) {
	prop(t, func(c *Case) {
		fm := &commonxl.Formatter{}
		b := &model.Book{XFs: []int{0}}
		s := &model.Sheet{Name: "Numbers"}
		b.Sheets = []*model.Sheet{s}
		n := c.C.Int("formats", 1, 4)
		var xs []*ref.Custom
		var vs [][]interface{}
		id := 163
		var key []string
		sample := ""
		for i := 0; i < n; i++ {
			x := drawCustom(c.C)
			if gen.Rare(c.C, "padded", 4) {
				padded(c.C, x)
				c.Label("padded")
			}
			xs = append(xs, x)
			id += 1 + gen.Pick(c.C, "id gap", 0, 0, 0, 1, 7, 100)
			if err := fm.Add(uint16(id), x.Code()); err != nil {
				c.Fatalf("adding %q: %v", x.Code(), err)
			}
			key = append(key, x.Code())
			b.XFs = append(b.XFs, id)
			b.Formats = append(b.Formats, model.Format{ID: id, Code: x.Code(), Check: func(s string, f float64) error { return x.Check(s, f) }, TextAs: x.Text})
			c.Label("%d sections", len(x.Sections))
			for _, sec := range x.Sections {
				c.Label("%s", sec.Kind)
				if sec.Exp != "" {
					c.Label("exponent")
				}
				if sec.Scale > 0 {
					c.Label("scaled")
				}
				if sec.Percent {
					c.Label("percent")
				}
			}
		}
		for i, x := range xs {
			id := uint16(b.XFs[i+1])
			var row []interface{}
			for k := c.C.Int("numbers", 1, 5); k > 0; k-- {
				v, w := drawFor(c.C, x)
				row = append(row, v)
				if w != nil {
					row = append(row, w)
				}
			}
			for _, v := range row {
				got, ok := fm.Apply(id, v)
				if !ok {
					c.Fatalf("format %d is unknown", id)
				}
				if err := x.Check(got, v); err != nil {
					c.Fatalf("%v", err)
				}
				ff, ok := fm.Get(id)
				if !ok || ff(fm, v) != got {
					c.Fatalf("%q: Get and Apply differ for %v", x.Code(), v)
				}
				key = append(key, got)
				sample = fmt.Sprintf("%s shows %v as %q", x.Code(), v, got)
			}
			vs = append(vs, row)
			text := gen.Text(c.C, "text", 1, 30)
			if got, _ := fm.Apply(id, text); !x.SameText(got, text) {
				c.Fatalf("%q shows text %q as %q instead of %q", x.Code(), text, got, x.Text(text))
			}
			for _, v := range []bool{true, false} {
				got, _ := fm.Apply(id, v)
				num := map[bool]int64{true: 1}[v]
				if got != map[bool]string{true: "TRUE", false: "FALSE"}[v] && x.Check(got, num) != nil {
					c.Fatalf("%q shows %v as %q", x.Code(), v, got)
				}
			}
		}
		// in a sheet
		sh := &commonxl.Sheet{Formatter: fm}
		for i, row := range vs {
			for k, v := range row {
				sh.Put(i, k, v, uint16(b.XFs[i+1]))
			}
		}
		for i := 0; sh.Next(); i++ {
			for k, got := range sh.Strings() {
				if k < len(vs[i]) {
					if err := xs[i].Check(got, vs[i][k]); err != nil {
						c.Fatalf("sheet: %v", err)
					}
				}
			}
		}
		// other ids are unknown
		other := uint16(id + 1 + c.C.Int("other", 0, 1000))
		f := drawNum(c.C, "number")
		if got, ok := fm.Apply(other, f); ok || ref.General(got, f) != nil {
			c.Fatalf("unknown format %d shows %v as %q, known %v", other, f, got, ok)
		}
		if len(key) > 0 {
			c.NonTrivial(key)
			c.Sample("%s", sample)
		}
		if !gen.Rare(c.C, "file", 15) {
			return
		}
		// the same in a file
		for r, row := range vs {
			for k, v := range row {
				f, ok := v.(float64)
				if !ok {
					f = float64(v.(int64))
				}
				s.Cells = append(s.Cells, &model.Cell{R: r, C: k, K: model.Num, F: f, XF: r + 1})
				s.Cols = max(s.Cols, k+2)
			}
			s.Cells = append(s.Cells, &model.Cell{R: r, C: len(row), K: model.Text, S: gen.Text(c.C, "cell text", 1, 30), XF: r + 1})
		}
		s.Rows = len(vs)
		for i := range b.Formats {
			if xs[i].PaddedText() {
				return
			}
			for _, sec := range xs[i].Sections {
				for _, p := range append(append([]ref.Piece{}, sec.Pre...), sec.Post...) {
					if strings.ContainsAny(p.Src, "\t\n") {
						// NB not possible in the attributes of XML without escapes
						return
					}
				}
			}
		}
		file := gen.Pick(c.C, "file format", "xls", "xlsx")
		var data []byte
		if file == "xls" {
			data, _ = storeXLS(c, b)
		} else {
			data, _ = storeXLSX(c, b)
		}
		src, err := openAs(c, file, c.File("a."+file, data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		defer src.Close()
		rows, err := getSheet(src, s.Name)
		if err != nil {
			c.Fatalf("get: %v", err)
		}
		if err := expect(b, s, file).compare(rows); err != nil {
			c.Fatalf("%s: %v", file, err)
		}
		c.Label("%s file", file)
	})
}
