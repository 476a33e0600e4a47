package props

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/harness/gen"
)

// delimited is a table of text.
type delimited struct {
	rows [][]string
}

func (d *delimited) widths() map[int]int {
	m := map[int]int{}
	for _, row := range d.rows {
		m[len(row)]++
	}
	return m
}

// plain tables are those any detection of the format has to accept
func (d *delimited) plain(lines int) bool { return lines <= 10 || len(d.widths()) == 1 }

var fieldTexts = []string{
	"", "x", "1", "-17", "+5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "2.5", "-0.1", "1e3", "1E-7", "1e400", ".5", "5.", "0x10", "1_000",
	"007", "TRUE", "true", "tRue", "T", "t", "F", "y", "Yes", "YES", "yES", "no", "0", "1.0", " 1", "1 ", "\u0131", "inf", "NaN", "-", "+", "1,5", "a b", "'", "\"", "\"q\"", "é", "中文", "😀", "\ufeff", "\u2028",
	"\v", "\f", "\x00", "\\t", "\\N", "#N/A", "→", "4.35", "0.1000000000000000055511151231257827", "179769313486231580793728971405301199", "4e-324", "2024-01-02",
	"on", "ON", "off", "ok", "ye", "yea", "yess", "tr", "truee", "T ", "01", "11", "+1", "-1", "2", "yes\u0301", "да", "oui", "x1", "\u017f", "ye\u017f", "FALSE", "n", "N", "f",
}

func drawField(c gen.Ch, bits ...string) string {
	switch c.Int("field kind", 0, 4) {
	case 0, 1:
		return gen.Pick(c, "field", fieldTexts...)
	case 2:
		return strconv.FormatInt(int64(c.U64("integer"))>>uint(c.Int("shift", 0, 63)), 10)
	case 3:
		return strconv.FormatFloat(gen.Number(c, "float"), "eg"[c.Int("verb", 0, 1)], -1, 64)
	}
	s := ""
	for n := c.Int("length", 1, 6); n > 0; n-- {
		s += gen.Pick(c, "part", append(bits, "a", " ", "\r", "1", "é", "中", "\"", ",", ";", "'", "\x01", "\u0085", "\u00a0")...)
	}
	return s
}

// drawDelimitedRows draws a table, of any shape.
func drawDelimitedRows(c gen.Ch, bits ...string) *delimited {
	d := &delimited{}
	nr, nc := c.Int("rows", 0, 12), c.Int("cols", 1, 6)
	src := c
	switch c.Int("shape", 0, 11) {
	case 9:
		nr = c.Int("many rows", 11, 60)
	case 10:
		nr, nc = c.Int("few rows", 1, 3), c.Int("many cols", 50, 3000)
		src = gen.NewSeeded(c.U64("fields"))
	case 11:
		nr = c.Int("many rows", 100, 3000)
		if gen.Rare(c, "very many", 30) {
			nr *= 4
		}
		src = gen.NewSeeded(c.U64("fields"))
	}
	ragged := gen.Bool(c, "ragged")
	for r := 0; r < nr; r++ {
		n := nc
		if ragged && src.Int("other width", 0, 7) == 7 {
			n = src.Int("width", 1, nc+2)
		}
		row := make([]string, n)
		for i := range row {
			row[i] = drawField(src, bits...)
		}
		d.rows = append(d.rows, row)
	}
	if c.Int("huge", 0, 1023)/8 == 65 {
		// more rows than a sheet can have, or a line larger than any buffer
		if gen.Bool(c, "huge table") {
			n, row := gen.Pick(c, "huge rows", 65535, 65536, 65537, 100000, 1048577), []string{"1", "x", ""}
			row = row[:c.Int("huge cols", 2, 3)]
			for len(d.rows) < n {
				d.rows = append(d.rows, row)
			}
			d.rows = append(d.rows, []string{"the", "end"})
		} else if nr > 0 {
			row := d.rows[c.Int("long row", 0, nr-1)]
			row[c.Int("long col", 0, len(row)-1)] = strings.Repeat("long text ", c.Int("very long", 800000, 1800000))
		}
		return d
	}
	if nr > 0 && gen.Rare(c, "long field", 6) {
		// beyond the usual limits of line lengths
		n := gen.Pick(c, "long field length", 4095, 4096, 65535, 65536, 65537, 70000, 200000, 1100000)
		row := d.rows[c.Int("long row", 0, nr-1)]
		row[c.Int("long col", 0, len(row)-1)] = strings.ToValidUTF8(gen.LongText(c.U64("long text"), n), "?")
	}
	return d
}

func (d *delimited) describe() string {
	if len(d.rows) == 0 {
		return "no rows"
	}
	r0 := fmt.Sprintf("%q", d.rows[0])
	if len(r0) > 200 {
		r0 = r0[:200] + "…"
	}
	return fmt.Sprintf("%d rows: %s", len(d.rows), r0)
}

var decimalForm = regexp.MustCompile(`^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d{1,6})?$`)
var integerForm = regexp.MustCompile(`^[+-]?\d+$`)

// checkScan compares what a field is scanned as with the field.
func checkScan(c *Case, s string, v interface{}, err error) {
	fail := func(want interface{}) {
		c.Fatalf("field %q scans as %v (%v) instead of %v", s, v, err, want)
	}
	switch v := v.(type) {
	case *string:
		if err != nil || *v != s {
			fail(s)
		}
	case *bool:
		want := false
		switch s {
		case "1", "t", "T", "y", "Y":
			want = true
		default:
			want = len(s) == 3 && strings.EqualFold(s, "yes") && s[2] < 0x80 || len(s) == 4 && strings.EqualFold(s, "true")
		}
		if err != nil || *v != want {
			c.Fatalf("field %q scans as %v (%v) instead of %v", s, *v, err, want)
		}
	case *int, *int64:
		var got int64
		switch v := v.(type) {
		case *int:
			got = int64(*v)
		case *int64:
			got = *v
		}
		if integerForm.MatchString(s) {
			n, _ := new(big.Int).SetString(s, 10)
			if n.IsInt64() {
				if err != nil || got != n.Int64() {
					c.Fatalf("field %q scans as the integer %v (%v)", s, got, err)
				}
				return
			}
		}
		if err == nil {
			c.Fatalf("field %q scans as the integer %v", s, got)
		}
	case *float64:
		if decimalForm.MatchString(s) {
			x, ok := new(big.Rat).SetString(s)
			if !ok {
				panic(s)
			}
			want, _ := x.Float64()
			if math.IsInf(want, 0) {
				if err == nil {
					c.Fatalf("field %q scans as %v", s, *v)
				}
				return
			}
			if err != nil || *v != want {
				c.Fatalf("field %q scans as %v (%v) instead of %v", s, *v, err, want)
			}
			return
		}
		switch strings.ToLower(strings.TrimLeft(s, "+-")) {
		case "inf", "infinity", "nan":
			return
		}
		if len(s) > 1 && strings.ContainsAny(s, "xX_") {
			return // other notations of numbers
		}
		if err == nil {
			c.Fatalf("field %q scans as %v", s, *v)
		}
	}
}

// checkDelimited compares a whole file with the table.
func checkDelimited(c *Case, src grate.Source, fn string, d *delimited) {
	list, err := src.List()
	if err != nil || len(list) != 1 || list[0] != filepath.Base(fn) {
		c.Fatalf("%s lists %q (%v)", fn, list, err)
	}
	col, err := src.Get(list[0])
	if err != nil {
		c.Fatalf("%s: %v", fn, err)
	}
	seeded := gen.NewSeeded(c.C.U64("scans"))
	empty := true
	for r, want := range d.rows {
		if !col.Next() {
			c.Fatalf("%s ends before row %d of %s (%v)", fn, r, d.describe(), col.Err())
		}
		row, err := readStrings(col)
		if err != nil {
			c.Fatalf("%s row %d: %v", fn, r, err)
		}
		if len(row) != len(want) {
			c.Fatalf("%s row %d has %d columns instead of %d", fn, r, len(row), len(want))
		}
		dests := make([]interface{}, len(row))
		var single []int
		for i, x := range row {
			typ := "string"
			if want[i] == "" {
				typ = "blank"
			} else {
				empty = false
			}
			if x.S != want[i] || x.T != typ || x.F != "General" {
				c.Fatalf("%s row %d column %d: %v instead of %.200q", fn, r, i, x, want[i])
			}
			dests[i] = new(string)
			if len(row) <= 10 {
				single = append(single, i)
			}
		}
		if err := col.Scan(dests...); err != nil {
			c.Fatalf("%s row %d: scanning strings: %v", fn, r, err)
		}
		for i := range dests {
			checkScan(c, want[i], dests[i], nil)
		}
		if r > 30 {
			continue
		}
		// NB one field at a time, as the first error ends a scan
		for _, i := range single {
			for k := range dests {
				dests[k] = new(string)
			}
			switch seeded.Int("", 0, 6) {
			case 0, 1:
				dests[i] = new(bool)
			case 2:
				dests[i] = new(int64)
			case 3:
				dests[i] = new(int)
			case 4, 5:
				dests[i] = new(float64)
			case 6:
				dests[i] = gen.Pick[interface{}](seeded, "", new(time.Time), "x", 1, new(int32), nil, struct{}{}, new([]byte))
				err := col.Scan(dests...)
				if _, ok := dests[i].(*time.Time); err == nil || !ok && !errors.Is(err, grate.ErrInvalidScanType) {
					c.Fatalf("%s row %d: scanning into a %T: %v", fn, r, dests[i], err)
				}
				continue
			}
			checkScan(c, want[i], dests[i], col.Scan(dests...))
		}
		many := make([]interface{}, len(row)+seeded.Int("", 1, 3))
		for k := range many {
			many[k] = new(string)
		}
		if err := col.Scan(many...); err == nil {
			c.Fatalf("%s row %d: scanning into too many destinations succeeds", fn, r)
		}
	}
	if col.Next() || col.Err() != nil || col.Next() {
		c.Fatalf("%s has more rows than %s (%v)", fn, d.describe(), col.Err())
	}
	if col.IsEmpty() != empty {
		c.Fatalf("%s IsEmpty is %v with %s", fn, !empty, d.describe())
	}
}

func TestC12(t *testing.T) {
	prop(t, func(c *Case) {
		d := drawDelimitedRows(c.C)
		var sb strings.Builder
		eol := c.C.Int("line ends", 0, 2)
		seeded := gen.NewSeeded(c.C.U64("mixed ends"))
		last := gen.Bool(c.C, "no final newline")
		for r, row := range d.rows {
			for i := range row {
				if i == len(row)-1 && eol == 0 {
					// NB a carriage return here would be a part of the line end
					row[i] = strings.TrimRight(row[i], "\r")
				}
			}
			s := strings.Join(row, "\t")
			if r == len(d.rows)-1 && last {
				if s == "" {
					d.rows = d.rows[:r] // nothing, not an empty line
				}
				if strings.HasSuffix(s, "\r") {
					s += "\n"
					row[len(row)-1] = strings.TrimSuffix(row[len(row)-1], "\r")
				}
				sb.WriteString(s)
				break
			}
			sb.WriteString(s)
			if (eol == 1 || eol == 2 && seeded.Int("", 0, 1) == 1) || strings.HasSuffix(s, "\r") {
				sb.WriteString("\r")
			}
			sb.WriteString("\n")
		}
		name := gen.Pick(c.C, "name", "a.tsv", "a.txt", "a", "ü 😀.TSV", "a.xls", "a.csv", "a b.tab")
		fn := c.File(name, []byte(sb.String()))
		var src grate.Source
		var err error
		common := gen.Bool(c.C, "common open")
		if common {
			src, err = grate.Open(fn)
		} else {
			src, err = simple.OpenTSV(fn)
		}
		rect := d.plain(len(d.rows)) && (name != "a.csv" || len(d.rows) > 10 && len(d.rows[0]) > 1)
		if err != nil {
			if rect || !errors.Is(err, grate.ErrNotInFormat) && !errors.Is(err, grate.ErrUnknownFormat) {
				c.Fatalf("open %s: %v (%s)", fn, err, d.describe())
			}
			c.Label("not accepted")
			return
		}
		if common && !rect {
			// NB this may be the CSV reader
			src.Close()
			return
		}
		checkDelimited(c, src, fn, d)
		if err := src.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		long := 0
		for _, row := range d.rows {
			for _, s := range row {
				long = max(long, len(s))
			}
		}
		if long > 65535 {
			c.Label("line of more than 64 kB")
		}
		if len(d.rows) > 1000 {
			c.Label("more than 1000 rows")
		}
		if len(d.widths()) > 1 {
			c.Label("ragged")
		}
		if len(d.rows) >= 2 || len(d.rows) == 1 && len(d.rows[0]) > 1 {
			c.NonTrivial(sb.String())
			c.Sample("%s, line ends %d, name %s", d.describe(), eol, name)
		}
	})
}
