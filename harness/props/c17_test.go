package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/ref"
)

// gcell is a cell of the model grid.
type gcell struct {
	val  interface{} // nil, bool, float64, string, time.Time
	typ  string      // "" if several are right
	link string
	id   uint16 // number format
	any  bool   // ... which may also be that of an earlier blank
}

var gridFormats = []uint16{0, 0, 0, 1, 2, 9, 10, 11, 12, 14, 22, 46, 49, 164, 165, 166, 200}

// typed says which types a number of that format may have
func typed(f float64, id uint16) (string, interface{}) {
	switch id {
	case 14, 22, 46, 165:
		return "date", moments(f)
	}
	return "", f
}

func TestC17(t *testing.T) {
	prop(t, func(c *Case) {
		fm := &commonxl.Formatter{}
		date1904 := gen.Bool(c.C, "1904")
		if date1904 {
			fm.Mode1904(true)
		}
		fm.Add(164, "0.000")
		fm.Add(165, "yyyy\\-mm\\-dd")
		fm.Add(166, "0;-0;\"zero\";\"text \"@")
		codes := map[uint16]string{164: "0.000", 165: "yyyy\\-mm\\-dd", 166: "0;-0;\"zero\";\"text \"@"}
		s := &commonxl.Sheet{Formatter: fm}
		grid := map[[2]int]*gcell{}
		nr, nc := 0, 0
		var ops []string
		note := func(format string, args ...interface{}) {
			x := fmt.Sprintf(format, args...)
			if len(x) > 60 {
				x = x[:60] + "…"
			}
			ops = append(ops, x)
		}
		at := func() (r, k int) {
			// mostly near each other, so that operations meet
			r, k = c.C.Int("row", 0, 5), c.C.Int("col", 0, 5)
			if gen.Rare(c.C, "edge", 8) {
				r = gen.Pick(c.C, "edge row", nr-1, nr, nr+1, -1, 0, 300)
			}
			if gen.Rare(c.C, "edge", 8) {
				k = gen.Pick(c.C, "edge col", nc-1, nc, nc+1, -1, 0, 255, 256, 700)
			}
			return
		}
		check := func() {
			s.CurRow = 0
			if s.NumRows != nr || s.NumCols != nc {
				c.Fatalf("%q: extent %d x %d instead of %d x %d", ops, s.NumRows, s.NumCols, nr, nc)
			}
			empty := true
			for r := 0; r < nr; r++ {
				if !s.Next() {
					c.Fatalf("%q: only %d of %d rows", ops, r, nr)
				}
				raw, ss, ts, fs := s.Raw(), s.Strings(), s.Types(), s.Formats()
				if len(raw) != nc || len(ss) != nc || len(ts) != nc || len(fs) != nc {
					c.Fatalf("%q: row %d has %d cells, %d strings, %d types and %d formats instead of %d", ops, r, len(raw), len(ss), len(ts), len(fs), nc)
				}
				dests := make([]interface{}, nc)
				for k := range dests {
					dests[k] = dest(ts[k])
					if g := grid[[2]int{r, k}]; g != nil && g.link != "" {
						// links may be attached to values of any kind
						switch g.val.(type) {
						case bool:
							dests[k] = new(bool)
						case float64:
							dests[k] = new(float64)
							if _, ok := raw[k].Value().(int64); ok {
								dests[k] = new(int64)
							}
						case time.Time, []int64:
							dests[k] = new(time.Time)
						}
					}
				}
				if err := s.Scan(dests...); err != nil {
					c.Fatalf("%q: scanning row %d: %v", ops, r, err)
				}
				for k := 0; k < nc; k++ {
					g := grid[[2]int{r, k}]
					fail := func(why string) {
						w := "nothing"
						if g != nil {
							w = fmt.Sprintf("%v %s link %q format %d", g.val, g.typ, g.link, g.id)
						}
						c.Fatalf("%q: %s: %v %q %s %q: %s (stored: %s)", ops, pos(r, k), raw[k], ss[k], ts[k], fs[k], why, w)
					}
					if g == nil || g.val == nil && g.link == "" {
						if ss[k] != "" || ts[k] != "blank" || deref(dests[k]) != "" || raw[k].Type() != commonxl.BlankCell {
							fail("not blank")
						}
						continue
					}
					if want := codes[g.id]; want != "" && g.val != nil && !g.any && fs[k] != want {
						fail("format")
					}
					if g.typ != "static" {
						empty = false
					}
					// an attribute of a copy changes nothing else
					cl := raw[k].Clone()
					for _, id := range []uint16{164, 0, 9} {
						cl.SetFormatNumber(id)
						u1, ok1 := raw[k].URL()
						u2, ok2 := cl.URL()
						if cl.FormatNo() != id || cl.Type() != raw[k].Type() || ok1 != ok2 || ok1 && u1.String() != u2.String() || !reflect.DeepEqual(cl.Value(), raw[k].Value()) {
							fail(fmt.Sprintf("setting the number format %d of a copy gives %v", id, cl))
						}
					}
					got := deref(dests[k])
					switch v := g.val.(type) {
					case float64:
						switch x := got.(type) {
						case int64:
							if float64(x) != v || math.Abs(v) < 1<<53 && x != int64(v) {
								fail("value")
							}
						case float64:
							if x != v {
								fail("value")
							}
						default:
							fail("value")
						}
						if g.typ == "" && ts[k] != "integer" && ts[k] != "float" {
							fail("type")
						}
						if g.id == 0 {
							if err := ref.General(ss[k], v); err != nil {
								fail(err.Error())
							}
						}
					case []int64: // a date, any of these moments
						x, ok := got.(time.Time)
						near := false
						for _, ms := range v {
							near = near || ok && ref.CivilOf(ms, date1904).Same(x)
						}
						if !near {
							fail("value")
						}
					case time.Time:
						if x, ok := got.(time.Time); !ok || !x.Equal(v) {
							fail("value")
						}
					case nil:
						if got != "" {
							fail("value")
						}
					default:
						if got != v {
							fail("value")
						}
						if v, ok := v.(string); g.any {
							// the format is that of an earlier blank, or none
						} else if ok && g.id != 166 && ss[k] != v {
							fail("display")
						} else if ok && g.id == 166 && g.typ != "static" && ss[k] != "text "+v {
							fail("display")
						}
					}
					if g.typ != "" && ts[k] != g.typ {
						fail("type")
					}
					if g.link != "" {
						u, ok := raw[k].URL()
						if !ok || u.String() != g.link {
							fail("URL")
						}
					} else if _, ok := raw[k].URL(); ok {
						fail("URL without a link")
					}
				}
				// the caller may do anything with its copies
				for k := range raw {
					if raw[k].Type() != commonxl.BlankCell {
						raw[k].SetFormatNumber(10)
						raw[k].SetURL("http://changed/")
						raw[k][0], raw[k][1] = "changed", commonxl.StringCell
					}
				}
				if r >= 100 {
					continue
				}
				ts2, fs2 := s.Types(), s.Formats()
				for k, x := range s.Strings() {
					if x != ss[k] || ts2[k] != ts[k] || fs2[k] != fs[k] {
						c.Fatalf("%q: %s changes with a copy of it", ops, pos(r, k))
					}
				}
			}
			if s.Next() || s.Next() {
				c.Fatalf("%q: more than %d rows", ops, nr)
			}
			if s.IsEmpty() != empty {
				c.Fatalf("%q: IsEmpty is %v", ops, !empty)
			}
		}
		puts, grew := 0, 0
		for n := c.C.Int("operations", 1, 30); n > 0; n-- {
			grow := func(r, k int) {
				if r > nr || k > nc {
					grew++
				}
				nr, nc = max(nr, r, 1), max(nc, k, 1)
			}
			switch op := c.C.Int("operation", 0, 11); {
			case op <= 5:
				r, k := at()
				id := gen.Pick(c.C, "format", gridFormats...)
				g := &gcell{id: id}
				var v interface{}
				dates := func(f float64) {
					// dates only of numbers in their range
					if f < 0 || f >= 2958464 {
						switch id {
						case 14, 22, 46, 165:
							id, g.id = 2, 2
						}
					}
				}
				switch c.C.Int("value", 0, 7) {
				case 0:
					n := c.C.Int("integer", -5, 100000)
					if c.C.Int("large", 0, 3) == 3 {
						n = int(c.C.U64("int64")) >> 1
					}
					v = gen.Pick[interface{}](c.C, "as", n, int64(n), int32(n))
					if x, ok := v.(int32); ok {
						n = int(x)
					}
					dates(float64(n))
					g.typ, g.val = typed(float64(n), id)
				case 1, 2:
					f := gen.Number(c.C, "number")
					v = f
					dates(f)
					g.typ, g.val = typed(f, id)
				case 3:
					b := gen.Bool(c.C, "bool")
					v, g.val, g.typ = b, b, "boolean"
				case 4:
					v, g.val = "", nil
				case 5:
					m := gen.Pick(c.C, "mark", gen.Marks...)
					v, g.val, g.typ, g.id = m, m, "static", 0
				default:
					t := gen.Text(c.C, "text", 1, 30)
					v, g.val, g.typ = t, t, "string"
				}
				note("put %d,%d %T %v [%d]", r, k, v, v, id)
				s.Put(r, k, v, id)
				if r >= 0 && k >= 0 {
					grow(r+1, k+1)
					grid[[2]int{r, k}] = g
					puts++
				}
			case op <= 7:
				r, k := at()
				t := gen.Pick(c.C, "string", "x", "TRUE", "12", "", "long "+strings.Repeat("t", 40), "é", "1.5e3")
				note("set %d,%d %q", r, k, t)
				s.Set(r, k, t)
				if r >= 0 && k >= 0 && r < nr && k < nc {
					g := &gcell{val: t, typ: "string"}
					if t == "" {
						g.val, g.typ = nil, ""
					}
					if old := grid[[2]int{r, k}]; old != nil && old.typ != "static" {
						g.id, g.any = old.id, old.any
					}
					grid[[2]int{r, k}] = g
				}
			case op == 8:
				r, k := at()
				l := gen.Pick(c.C, "link", "http://x/", "mailto:a@b", "http://x/?q=1#f", "rel/path")
				note("link %d,%d %s", r, k, l)
				s.SetURL(r, k, l)
				if r >= 0 && k >= 0 && r < nr && k < nc {
					g := grid[[2]int{r, k}]
					if g == nil {
						g = &gcell{}
						grid[[2]int{r, k}] = g
					}
					g.any = g.any || g.val == nil
					g.link, g.typ = l, "hyperlink"
				}
			case op == 9:
				r, k := c.C.Int("new rows", -1, 9), c.C.Int("new cols", -1, 9)
				if gen.Rare(c.C, "huge", 4) {
					r, k = gen.Pick(c.C, "huge rows", 1000, 5000), gen.Pick(c.C, "huge cols", 1, 40)
				}
				note("resize %d,%d", r, k)
				s.Resize(r, k)
				grow(r, k)
			case op == 10 && nr*nc < 20000:
				note("check")
				check()
			default:
				// move on within the sheet
				if s.Next() {
					note("next")
				}
			}
		}
		check()
		c.Label("%d operations", len(ops)/10*10)
		if grew > 1 {
			c.Label("grown")
		}
		if puts >= 2 && len(ops) >= 3 {
			c.NonTrivial(ops)
			c.Sample("%q", ops)
		}
	})
}
