package props

import (
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/pbnjay/grate"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
)

// aFile is a file with what is in it.
type aFile struct {
	fn, desc string
	base     *whole
	names    []string
	check    func(*whole) error // against what was written
}

func (f *aFile) String() string { return fmt.Sprintf("%s (%s)", filepath.Base(f.fn), f.desc) }

// readStrings is for delimited files, which cannot be scanned by type.
func readStrings(col grate.Collection) ([]RCell, error) {
	ss, ts, fs := col.Strings(), col.Types(), col.Formats()
	if len(ss) != len(ts) || len(ss) != len(fs) {
		return nil, fmt.Errorf("a row has %d strings, %d types and %d formats", len(ss), len(ts), len(fs))
	}
	row := make([]RCell, len(ss))
	for i := range row {
		row[i] = RCell{S: ss[i], T: ts[i], F: fs[i]}
	}
	return row, nil
}

// drawFile makes a file of any format and reads it once. The contents of
// spreadsheets are checked against what was written.
func drawFile(c *Case, i int, formats ...string) *aFile {
	f := makeFile(c, i, formats...)
	f.read(c)
	return f
}

// read sets the base.
func (f *aFile) read(c *Case) {
	var err error
	if f.base, err = processFile(f); err == nil && f.check != nil {
		err = f.check(f.base)
	}
	if err != nil {
		c.Fatalf("read %v: %v", f, err)
	}
	if f.names == nil {
		f.names = f.base.Names
	}
}

func makeFile(c *Case, i int, formats ...string) *aFile {
	if len(formats) == 0 {
		formats = []string{"xls", "xls", "xlsx", "xlsx", "tsv", "csv", "encrypted"}
	}
	format := gen.Pick(c.C, "format", formats...)
	f := &aFile{}
	name := fmt.Sprintf("f%d.%s", i, format)
	switch format {
	case "tsv", "csv":
		f.fn = c.File(name, []byte(drawDelimited(c.C, format)))
		f.desc = format
	default:
		b := drawBook(c.C, BookOpt{MaxSheets: 3, Text: true, Formats: true, Hidden: true, MaxR: 4, MaxC: 5})
		linked := c.C.Int("hyperlinks", 0, 2) == 2
		for _, s := range b.Sheets {
			if s.Rows > 0 {
				s.Merges = drawMerges(c.C, s, true)
			}
			f.desc += describe(s) + " "
			for n := c.C.Int("links", 0, 3); linked && n > 0 && s.Rows > 0; n-- {
				l := model.Link{Range: model.Range{R1: c.C.Int("link row", 0, s.Rows-1), C1: c.C.Int("link col", 0, s.Cols-1)}}
				l.R2, l.C2 = l.R1, l.C1
				if gen.Bool(c.C, "internal") {
					l.Location = gen.Pick(c.C, "location", locations...)
				} else {
					l.Target, l.File = drawTarget(c.C)
				}
				s.Links = append(s.Links, l)
			}
		}
		var data []byte
		switch format {
		case "xls":
			data, _ = storeXLS(c, b)
		case "encrypted":
			o := biff.DrawOpt(c.C)
			o.Encrypt = true
			stream, _ := biff.Stream(c.C, b, o)
			data = wrapXLS(c.C, biff.Encrypt(stream, "VelvetSweatshop", gen.Bytes(c.C, "salt", 16), gen.Bytes(c.C, "verifier", 16)))
			format, name = "xls", fmt.Sprintf("f%d.xls", i)
		case "xlsx":
			data, _ = storeXLSX(c, b)
		}
		f.fn = c.File(name, data)
		for _, s := range b.Sheets {
			f.names = append(f.names, s.Name)
		}
		if linked {
			// see C11
			return f
		}
		f.check = func(w *whole) error {
			for _, s := range b.Sheets {
				g := expect(b, s, format)
				for _, m := range s.Merges {
					g.merge(m, false)
				}
				if err := g.compare(w.Rows[s.Name]); err != nil {
					return err
				}
			}
			return nil
		}
	}
	return f
}

// drawDelimited draws the text of a delimited file without quotes.
func drawDelimited(c gen.Ch, format string) string {
	sep := "\t"
	if format == "csv" {
		sep = ","
	}
	nr, nc := c.Int("rows", 1, 15), c.Int("cols", 1, 4)
	var sb strings.Builder
	for r := 0; r < nr; r++ {
		for k := 0; k < nc; k++ {
			if k > 0 {
				sb.WriteString(sep)
			}
			sb.WriteString(gen.Pick(c, "field", "x", "1", "2.5", "TRUE", "a b", "é", "中"))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func isSheet(f *aFile) bool { return strings.Contains(filepath.Ext(f.fn), "xls") }

func nextRow(f *aFile, col grate.Collection) ([]RCell, error) {
	if isSheet(f) {
		return readRow(col)
	}
	return readStrings(col)
}

func TestC08(t *testing.T) {
	prop(t, func(c *Case) {
		var files []*aFile
		for i, n := 0, c.C.Int("files", 1, 4); i < n; i++ {
			files = append(files, drawFile(c, i))
		}
		type source struct {
			f      *aFile
			src    grate.Source
			closed bool
		}
		type iter struct {
			f    *aFile
			name string
			col  grate.Collection
			pos  int
			from *source
		}
		var sources []*source
		var iters []*iter
		var history []string
		note := func(format string, args ...interface{}) { history = append(history, fmt.Sprintf(format, args...)) }
		closedReads, regets := 0, 0
		got := map[*source]map[string]bool{}
		for n := c.C.Int("operations", 1, 40); n > 0; n-- {
			op := c.C.Int("operation", 0, 9)
			switch {
			case op == 0 || len(sources) == 0:
				f := gen.Pick(c.C, "file", files...)
				note("open %s", filepath.Base(f.fn))
				src, err := grate.Open(f.fn)
				if err != nil {
					c.Fatalf("%q: %v", history, err)
				}
				s := &source{f: f, src: src}
				got[s] = map[string]bool{}
				sources = append(sources, s)
			case op <= 2:
				s := gen.Pick(c.C, "source", sources...)
				if s.closed {
					continue
				}
				name := gen.Pick(c.C, "sheet", s.f.names...)
				note("get %q of %s", name, filepath.Base(s.f.fn))
				col, err := s.src.Get(name)
				if err != nil {
					c.Fatalf("%q: %v", history, err)
				}
				if got[s][name] {
					regets++
				}
				got[s][name] = true
				iters = append(iters, &iter{f: s.f, name: name, col: col, from: s})
			case op == 3:
				s := gen.Pick(c.C, "source", sources...)
				if s.closed || c.C.Int("really close", 0, 1) == 0 {
					continue
				}
				note("close %s", filepath.Base(s.f.fn))
				if err := s.src.Close(); err != nil {
					c.Fatalf("%q: %v", history, err)
				}
				s.closed = true
			case op == 4:
				s := gen.Pick(c.C, "source", sources...)
				if s.closed {
					continue
				}
				list, err := s.src.List()
				if err != nil || !reflect.DeepEqual(list, s.f.base.Names) && len(list)+len(s.f.base.Names) > 0 {
					c.Fatalf("%q: listed %q (%v) instead of %q", history, list, err, s.f.base.Names)
				}
			case len(iters) > 0:
				it := gen.Pick(c.C, "iterator", iters...)
				want := it.f.base.Rows[it.name]
				k := c.C.Int("rows", 1, 4)
				if op == 9 {
					k = len(want) + 2
				}
				note("read %d rows of %q of %s from row %d", k, it.name, filepath.Base(it.f.fn), it.pos)
				if it.from.closed {
					closedReads++
				}
				for ; k > 0; k-- {
					ok := it.col.Next()
					if ok != (it.pos < len(want)) {
						c.Fatalf("%v\n%q: Next is %v before row %d of %d", it.f, history, ok, it.pos, len(want))
					}
					if !ok {
						break
					}
					row, err := nextRow(it.f, it.col)
					if err != nil {
						c.Fatalf("%v\n%q: %v", it.f, history, err)
					}
					if !reflect.DeepEqual(row, want[it.pos]) {
						c.Fatalf("%v\n%q: row %d is\n%v instead of\n%v", it.f, history, it.pos, row, want[it.pos])
					}
					it.pos++
				}
			}
		}
		for _, s := range sources {
			s.src.Close()
		}
		if closedReads > 0 {
			c.Label("read after close")
		}
		if regets > 0 {
			c.Label("sheet got again")
		}
		if len(history) >= 6 && (closedReads > 0 || regets > 0 || len(files) > 1) {
			c.NonTrivial(history, files[0].desc)
			c.Sample("%q", history)
		}
	})
}

var _ = model.Blank
