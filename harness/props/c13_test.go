package props

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/harness/gen"
)

// writeCSV writes a table, quoting whatever has to be quoted and some more.
func writeCSV(c gen.Ch, d *delimited, eol int, last bool) string {
	var sb strings.Builder
	for r, row := range d.rows {
		for i, s := range row {
			if i > 0 {
				sb.WriteByte(',')
			}
			quote := strings.ContainsAny(s, ",\"\n\r") || s == "" && len(row) == 1
			if quote || c.Int("", 0, 5) == 5 {
				// line breaks in fields may be written as CRLF
				s = strings.ReplaceAll(s, "\"", "\"\"")
				if c.Int("", 0, 1) == 1 {
					s = strings.ReplaceAll(s, "\n", "\r\n")
				}
				sb.WriteString("\"" + s + "\"")
			} else {
				sb.WriteString(s)
			}
		}
		if r == len(d.rows)-1 && last {
			break
		}
		if eol == 1 || eol == 2 && c.Int("", 0, 1) == 1 {
			sb.WriteString("\r")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func TestC13(t *testing.T) {
	prop(t, func(c *Case) {
		d := drawDelimitedRows(c.C, "\n", ",", "\"", "\"\"", "\n\n", "\",\"", ", ")
		for _, row := range d.rows {
			for i, s := range row {
				// NB a CRLF inside of quotes reads as LF
				s = strings.ReplaceAll(s, "\r", " ")
				if d.rows[0][0] == s && i == 0 {
					// a byte-order mark is not a part of the first field
					s = strings.TrimPrefix(s, "\ufeff")
				}
				row[i] = s
			}
		}
		seeded := gen.NewSeeded(c.C.U64("quoting"))
		eol, last := c.C.Int("line ends", 0, 2), gen.Bool(c.C, "no final newline")
		text := writeCSV(seeded, d, eol, last)
		name := gen.Pick(c.C, "name", "a.csv", "a.CSV", "a.txt", "a", "a.xlsx")
		if gen.Rare(c.C, "malformed", 20) {
			malformed(c, d, name, eol)
			return
		}
		fn := c.File(name, []byte(text))
		quoted := strings.Count(text, "\"")
		breaks := 0
		for _, row := range d.rows {
			for _, s := range row {
				breaks += strings.Count(s, "\n")
			}
		}
		// the common open call leaves such files to the CSV reader if they
		// do not look like tab-separated ones
		if strings.EqualFold(name, "a.csv") && !strings.Contains(text, "\t") && gen.Bool(c.C, "common open") {
			src, err := grate.Open(fn)
			if err == nil {
				checkDelimited(c, src, fn, d)
				src.Close()
			} else if d.plain(len(d.rows)) || !errors.Is(err, grate.ErrUnknownFormat) {
				c.Fatalf("open %s: %v (%s)", fn, err, d.describe())
			}
			c.Label("common open")
		}
		src, err := simple.OpenCSV(fn)
		if err != nil {
			if d.plain(len(d.rows)) || !errors.Is(err, grate.ErrNotInFormat) {
				c.Fatalf("open %s: %v (%s)", fn, err, d.describe())
			}
			c.Label("not accepted")
			return
		}
		checkDelimited(c, src, fn, d)
		if err := src.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		if breaks > 0 {
			c.Label("line breaks in fields")
		}
		if len(d.widths()) > 1 {
			c.Label("ragged")
		}
		if len(d.rows) > 1000 {
			c.Label("more than 1000 rows")
		}
		if quoted > 0 && len(d.rows) > 0 {
			c.NonTrivial(text)
			c.Sample("%s, %d quotes, %d line breaks in fields, name %s", d.describe(), quoted, breaks, name)
		}
	})
}

// malformed files are refused, wherever the mistake is.
func malformed(c *Case, d *delimited, name string, eol int) {
	if len(d.rows) == 0 {
		d.rows = [][]string{{"x", "y"}}
	}
	seeded := gen.NewSeeded(c.C.U64("malformed quoting"))
	at := c.C.Int("malformed row", 0, len(d.rows)-1)
	row := d.rows[at]
	i := c.C.Int("malformed col", 0, len(row)-1)
	before := &delimited{rows: d.rows[:at]}
	after := &delimited{rows: d.rows[at+1:]}
	left := &delimited{rows: [][]string{row[:i]}}
	right := &delimited{rows: [][]string{row[i+1:]}}
	text := writeCSV(seeded, before, eol, false)
	if i > 0 {
		text += writeCSV(seeded, left, 0, true) + ","
	}
	kind := c.C.Int("mistake", 0, 3)
	bad := gen.Pick(c.C, "bare quote", "a\"b", "a\"", " \"q\"", "5\" x")
	switch kind {
	case 1:
		bad = gen.Pick(c.C, "text after quotes", "\"a\"b", "\"a\" ", "\"\"\"\"a", "\"x\"\"\"y\"")
	case 2:
		bad = "\"unterminated" // quotes the rest
	}
	text += bad
	if kind == 2 || kind == 3 {
		if kind == 3 {
			text += "\"z"
		}
		// without any other quotes
		for k := range right.rows[0] {
			right.rows[0][k] = "r"
		}
		for _, row := range after.rows {
			for k := range row {
				row[k] = "s"
			}
		}
		seeded2 := gen.Zero{}
		if len(right.rows[0]) > 0 {
			text += "," + writeCSV(seeded2, right, 0, true)
		}
		text += "\n" + writeCSV(seeded2, after, eol, false)
	} else {
		if len(right.rows[0]) > 0 {
			text += "," + writeCSV(seeded, right, 0, true)
		}
		text += "\n" + writeCSV(seeded, after, eol, false)
	}
	fn := c.File(name, []byte(text))
	src, err := simple.OpenCSV(fn)
	if err == nil {
		c.Fatalf("open malformed %s (%q in row %d): %v, no error", fn, bad, at, src)
	}
	if !errors.Is(err, grate.ErrNotInFormat) || src != nil {
		c.Fatalf("open malformed %s (%q in row %d): %v, %v", fn, bad, at, src, err)
	}
	c.Label("malformed")
	c.NonTrivial(text)
	c.Sample("malformed: %s", fmt.Sprintf("%q in row %d of %d", bad, at, len(d.rows)))
}
