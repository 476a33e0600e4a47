package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// RCell is a cell as it was read.
type RCell struct {
	S, T, F string
	V       interface{}
}

func (r RCell) String() string { return fmt.Sprintf("%q (%s, %s, %T %v)", r.S, r.T, r.F, r.V, r.V) }

// destination for the type of a cell
func dest(typ string) interface{} {
	switch typ {
	case "boolean":
		return new(bool)
	case "integer":
		return new(int64)
	case "float":
		return new(float64)
	case "date":
		return new(time.Time)
	}
	return new(string)
}

func deref(p interface{}) interface{} {
	switch p := p.(type) {
	case *bool:
		return *p
	case *int64:
		return *p
	case *float64:
		return *p
	case *time.Time:
		return *p
	case *string:
		return *p
	}
	return nil
}

var knownTypes = map[string]bool{"boolean": true, "integer": true, "float": true, "string": true, "date": true, "blank": true, "hyperlink": true, "static": true}

// readRow reads all views of the current row.
func readRow(col grate.Collection) ([]RCell, error) {
	ss, ts, fs := col.Strings(), col.Types(), col.Formats()
	if len(ss) != len(ts) || len(ss) != len(fs) {
		return nil, fmt.Errorf("a row has %d strings, %d types and %d formats", len(ss), len(ts), len(fs))
	}
	row := make([]RCell, len(ss))
	dests := make([]interface{}, len(ss))
	for i := range row {
		row[i] = RCell{S: ss[i], T: ts[i], F: fs[i]}
		if !knownTypes[ts[i]] {
			return nil, fmt.Errorf("type %q of column %d is not documented", ts[i], i)
		}
		dests[i] = dest(ts[i])
	}
	if err := col.Scan(dests...); err != nil {
		return nil, fmt.Errorf("scanning by type: %v", err)
	}
	for i := range row {
		row[i].V = deref(dests[i])
	}
	return row, nil
}

// readAll reads the remaining rows of a collection.
func readAll(col grate.Collection) ([][]RCell, error) {
	var rows [][]RCell
	for col.Next() {
		row, err := readRow(col)
		if err != nil {
			return rows, fmt.Errorf("row %d: %v", len(rows), err)
		}
		rows = append(rows, row)
		if len(rows) > 1100000 {
			return rows, fmt.Errorf("endless rows")
		}
	}
	if err := col.Err(); err != nil {
		return rows, err
	}
	if col.Next() {
		return rows, fmt.Errorf("Next is true again after the end")
	}
	return rows, nil
}

// Exp is what is expected of a cell.
type Exp struct {
	Kind    string // blank num bool text err date link mark
	F       float64
	B       bool
	S       string
	Code    string // expected format code, if any
	Thai    bool   // there may be a "t" in front of it
	MustInt bool
	Int64   bool // MustInt holds
	Ms      int64
	D1904   bool
	Tie     bool                 // the next millisecond is as good
	Show    func(s string) error // nil if the display is not checked
}

func (e Exp) String() string {
	switch e.Kind {
	case "num", "date":
		return fmt.Sprintf("%s %v [%s]", e.Kind, e.F, e.Code)
	case "bool":
		return fmt.Sprintf("bool %v", e.B)
	}
	return fmt.Sprintf("%s %q", e.Kind, e.S)
}

func same(want string) func(string) error {
	return func(s string) error {
		if s != want {
			return fmt.Errorf("%q instead of %q", s, want)
		}
		return nil
	}
}

// check a cell that was read, "" if it is as expected.
func (e Exp) check(r RCell) string {
	if e.Kind != "blank" && e.Code != "" && r.F != e.Code && !(e.Thai && r.F == "t"+e.Code) {
		return fmt.Sprintf("format %q instead of %q", r.F, e.Code)
	}
	typ := func(ok ...string) string {
		for _, t := range ok {
			if r.T == t {
				return ""
			}
		}
		return fmt.Sprintf("type %q instead of %s", r.T, strings.Join(ok, " or "))
	}
	if e.Show != nil {
		if err := e.Show(r.S); err != nil {
			return "display: " + err.Error()
		}
	}
	switch e.Kind {
	case "blank":
		if r.S != "" || r.T != "blank" || r.V != "" {
			return fmt.Sprintf("%v instead of a blank", r)
		}
	case "num":
		switch v := r.V.(type) {
		case int64:
			if r.T != "integer" || float64(v) != e.F || (e.F < 1<<53 && e.F > -(1<<53) && v != int64(e.F)) {
				return fmt.Sprintf("%v instead of %v", r, e.F)
			}
		case float64:
			if v != e.F {
				return fmt.Sprintf("%v instead of %v", r, e.F)
			}
			if e.MustInt {
				return fmt.Sprintf("%v instead of an integer", r)
			}
		default:
			return fmt.Sprintf("%v instead of %v", r, e.F)
		}
	case "bool":
		if r.T != "boolean" || r.V != e.B {
			return fmt.Sprintf("%v instead of %v", r, e.B)
		}
	case "text", "err":
		if m := typ("string"); m != "" {
			return m
		}
		if r.V != e.S {
			return fmt.Sprintf("%v instead of %q", r, e.S)
		}
		if e.Show == nil && r.S != e.S {
			return fmt.Sprintf("%v instead of %q", r, e.S)
		}
	case "link":
		if m := typ("hyperlink", "string"); m != "" {
			return m
		}
		if r.V != e.S || r.S != e.S {
			return fmt.Sprintf("%v instead of %q", r, e.S)
		}
	case "hyperlink":
		if m := typ("hyperlink"); m != "" {
			return m
		}
		if r.V != e.S || r.S != e.S {
			return fmt.Sprintf("%v instead of %q", r, e.S)
		}
	case "mark":
		if m := typ("static"); m != "" {
			return m
		}
		if r.V != e.S || r.S != e.S {
			return fmt.Sprintf("%v instead of %q", r, e.S)
		}
	case "date":
		t, ok := r.V.(time.Time)
		if !ok || r.T != "date" {
			return fmt.Sprintf("%v instead of a date", r)
		}
		if want := ref.CivilOf(e.Ms, e.D1904); !want.Same(t) && !(e.Tie && ref.CivilOf(moments(e.F)[1], e.D1904).Same(t)) {
			return fmt.Sprintf("%v instead of %v", r, want)
		}
	default:
		panic(e.Kind)
	}
	return ""
}

// cellExp is what is expected of a stored cell.
func cellExp(b *model.Book, x *model.Cell, file string) Exp {
	id := 0
	if x.XF < len(b.XFs) {
		id = b.XFs[x.XF]
	}
	f := b.Format(id)
	code := ref.BuiltinCodes[id]
	thai := false
	if code == "" && id >= 59 && id <= 80 {
		// translated, or as in the specification
		code, thai = ref.ThaiCodes[id], true
	}
	if f != nil && code == "" {
		code = f.Code
	}
	switch x.K {
	case model.Num:
		e := Exp{Kind: "num", F: x.F, Code: code, Thai: thai}
		switch {
		case id == 0:
			e.MustInt = file == "xls" && x.PlainInt
			e.Show = func(s string) error { return ref.General(s, x.F) }
		case ref.IsBuiltinNumber(id):
			e.Show = func(s string) error { return ref.Builtin(id, s, x.F) }
		case id == 49:
			e.Show = func(s string) error { return ref.General(s, x.F) }
		case ref.IsBuiltinDate(id), f != nil && f.Date:
			e.Kind = "date"
			e.Ms, _ = ref.MilliOf(x.F)
			e.D1904 = b.Date1904
			e.Tie = tie(x.F)
			if f == nil {
				// seconds shown may be rounded or not
				var shown []string
				for _, ms := range moments(x.F) {
					shown = append(shown, ref.BuiltinDate(id, ms, b.Date1904)...)
					shown = append(shown, ref.BuiltinDate(id, (ms+500)/1000*1000, b.Date1904)...)
				}
				e.Show = oneOf(shown...)
			} else if f.Check != nil {
				e.Show = func(s string) error { return f.Check(s, x.F) }
			}
		case f != nil && f.Check != nil:
			e.Show = func(s string) error { return f.Check(s, x.F) }
		case f != nil:
		default:
			// unknown formats fall back to the general display
			e.Show = func(s string) error { return ref.General(s, x.F) }
		}
		return e
	case model.Bool:
		s := "FALSE"
		if x.B {
			s = "TRUE"
		}
		e := Exp{Kind: "bool", B: x.B, Code: code, Thai: thai, Show: same(s)}
		if f != nil && f.Check != nil {
			// may be formatted as 1 or 0, too
			e.Show = func(t string) error {
				if t != s && f.Check(t, map[bool]float64{true: 1}[x.B]) != nil {
					return fmt.Errorf("%q instead of %q", t, s)
				}
				return nil
			}
		}
		return e
	case model.Err:
		return Exp{Kind: "err", S: x.S, Show: same(x.S)}
	case model.Text:
		if x.S == "" {
			return Exp{Kind: "blank"}
		}
		e := Exp{Kind: "text", S: x.S, Code: code, Thai: thai, Show: same(x.S)}
		if f != nil && f.TextAs != nil {
			e.Show = same(f.TextAs(x.S))
		}
		return e
	}
	return Exp{Kind: "blank"}
}

func oneOf(all ...string) func(string) error {
	return func(s string) error {
		for _, x := range all {
			if s == x {
				return nil
			}
		}
		return fmt.Errorf("%q instead of %q", s, all[0])
	}
}

// Grid of expectations.
type Grid struct {
	Rows, Cols int  // exact extent ...
	Loose      bool // ... or the least extent
	Cells      map[[2]int]Exp
}

func (g *Grid) at(r, c int) Exp {
	if e, ok := g.Cells[[2]int{r, c}]; ok {
		return e
	}
	return Exp{Kind: "blank"}
}

// expect what a sheet contains, without merges and links.
func expect(b *model.Book, s *model.Sheet, file string) *Grid {
	g := &Grid{Rows: s.Rows, Cols: s.Cols, Cells: map[[2]int]Exp{}}
	for _, x := range s.Cells {
		g.Cells[[2]int{x.R, x.C}] = cellExp(b, x, file)
	}
	return g
}

func pos(r, c int) string { return fmt.Sprintf("row %d column %d", r, c) }

// compare the rows that were read.
func (g *Grid) compare(rows [][]RCell) error {
	nr, nc := g.Rows, g.Cols
	if nr == 0 || nc == 0 {
		// nothing, or a single blank cell
		if len(rows) > 1 {
			return fmt.Errorf("%d rows in an empty sheet", len(rows))
		}
	} else if len(rows) != nr && !(g.Loose && len(rows) > nr) {
		return fmt.Errorf("%d rows instead of %d", len(rows), nr)
	}
	for r, row := range rows {
		if nr > 0 && nc > 0 && len(row) != nc && !(g.Loose && len(row) > nc) {
			return fmt.Errorf("row %d has %d columns instead of %d", r, len(row), nc)
		}
		for c, got := range row {
			want := g.at(r, c)
			if m := want.check(got); m != "" {
				return fmt.Errorf("%s: %s (want %v)", pos(r, c), m, want)
			}
		}
	}
	return nil
}

// mark the merged ranges, clipped to the extent (as hyperlink ranges in XLS do, too).
func (g *Grid) merge(m model.Range, keep bool) {
	if g.Rows > 0 && m.R2 >= g.Rows {
		m.R2 = g.Rows - 1
	}
	if g.Cols > 0 && m.C2 >= g.Cols {
		m.C2 = g.Cols - 1
	}
	for r := m.R1; r <= m.R2; r++ {
		for c := m.C1; c <= m.C2; c++ {
			mark := ""
			switch {
			case r == m.R1 && c == m.C1:
				continue
			case c == m.C1 && r == m.R2:
				mark = "⤓"
			case c == m.C1:
				mark = "↓"
			case c == m.C2:
				mark = "⇥"
			default:
				mark = "→"
			}
			if keep && g.at(r, c).Kind != "blank" {
				continue
			}
			g.Cells[[2]int{r, c}] = Exp{Kind: "mark", S: mark, Show: same(mark)}
		}
	}
}

type opener struct {
	name string
	open grate.OpenFunc
}

// openAs opens a file with the reader of its format, or the common open call.
func openAs(c *Case, file, fn string) (grate.Source, error) {
	if gen.Bool(c.C, "common open") {
		return grate.Open(fn)
	}
	if file == "xls" {
		return xls.Open(fn)
	}
	return xlsx.Open(fn)
}

// getSheet reads a sheet completely.
func getSheet(src grate.Source, name string) ([][]RCell, error) {
	col, err := src.Get(name)
	if err != nil {
		return nil, err
	}
	return readAll(col)
}

func itoa(n int) string { return strconv.Itoa(n) }
