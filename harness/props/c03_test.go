package props

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
)

// whole reads everything of a source.
type whole struct {
	Names  []string
	Hidden []string
	Rows   map[string][][]RCell
}

func readWhole(src grate.Source) (*whole, error) {
	w := &whole{Rows: map[string][][]RCell{}}
	var err error
	if w.Names, err = src.List(); err != nil {
		return nil, err
	}
	if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
		if w.Hidden, err = h.ListHidden(); err != nil {
			return nil, err
		}
	}
	for _, n := range append(append([]string{}, w.Names...), w.Hidden...) {
		if w.Rows[n], err = getSheet(src, n); err != nil {
			return nil, err
		}
	}
	return w, nil
}

var passwords = []string{"", "a", "velvetsweatshop", "VelvetSweatshop ", "VelvetSweatsho", "secret", "пароль"}

func TestC03(t *testing.T) {
	prop(t, func(c *Case) {
		b := drawBook(c.C, BookOpt{MaxSheets: 3, Text: true, Formats: true, Hidden: true})
		if gen.Rare(c.C, "bulk", 30) {
			bulkText(b.Sheets[0], c.C.U64("bulk seed"), c.C.Int("bulk cells", 10, 200), c.C.Int("bulk length", 2, 300), true)
		}
		seed := c.C.U64("store")
		o := biff.DrawOpt(c.C)
		if gen.Rare(c.C, "long stream", 2) {
			o.Filler = c.C.Int("filler", 1, 12) * 100 << 10
			if c.C.Int("very long stream", 0, 299) == 137 {
				// more than 65536 blocks
				o.Filler = 66 << 20
				c.Label("very long stream")
			} else {
				c.Label("long stream")
			}
		}
		plain, _ := biff.Stream(gen.NewSeeded(seed), b, o)
		o.Encrypt = true
		stream, _ := biff.Stream(gen.NewSeeded(seed), b, o)
		salt, verifier := gen.Bytes(c.C, "salt", 16), gen.Bytes(c.C, "verifier", 16)

		if c.C.Int("other encryption", 0, 3) == 3 {
			// must be refused
			var enc []byte
			kind := gen.Pick(c.C, "method", "password", "password", "xor", "cryptoapi", "version", "tampered")
			switch kind {
			case "password":
				pw := gen.Pick(c.C, "password", passwords...)
				if gen.Bool(c.C, "random password") {
					pw = gen.Text(c.C, "random", 1, 15)
				}
				if pw == "VelvetSweatshop" {
					pw = "x"
				}
				enc = biff.Encrypt(stream, pw, salt, verifier)
			case "tampered":
				// the verifier does not match
				enc = biff.Encrypt(stream, "VelvetSweatshop", salt, verifier)
				p := filePass(enc)
				bit := c.C.Int("bit", 0, 48*8-1)
				enc[p+6+bit/8] ^= 1 << uint(bit%8)
			default:
				enc = biff.Encrypt(stream, "VelvetSweatshop", salt, verifier)
				p := filePass(enc)
				switch kind {
				case "xor":
					binary.LittleEndian.PutUint16(enc[p:], 0)
				case "cryptoapi":
					binary.LittleEndian.PutUint16(enc[p+2:], uint16(c.C.Int("major", 2, 4)))
					binary.LittleEndian.PutUint16(enc[p+4:], 2)
				case "version":
					binary.LittleEndian.PutUint16(enc[p+4:], uint16(gen.Pick(c.C, "minor", 0, 2, 3, 0xFFFF)))
				}
			}
			src, err := openAs(c, "xls", c.File("e.xls", wrapXLS(c.C, enc)))
			if err == nil {
				l, _ := src.List()
				c.Fatalf("opened (%q) although it is encrypted with another method or password: %s", l, kind)
			}
			c.Label("refused: " + kind)
			c.NonTrivial(kind, salt, verifier, len(enc))
			c.Sample("%s, %d bytes: refused with %v", kind, len(enc), err)
			return
		}

		enc := biff.Encrypt(stream, "VelvetSweatshop", salt, verifier)
		p, err := xls.Open(c.File("plain.xls", wrapXLS(c.C, plain)))
		if err != nil {
			c.Fatalf("open plain: %v", err)
		}
		defer p.Close()
		e, err := openAs(c, "xls", c.File("encrypted.xls", wrapXLS(c.C, enc)))
		if err != nil {
			c.Fatalf("open encrypted: %v", err)
		}
		defer e.Close()
		pw, err := readWhole(p)
		if err != nil {
			c.Fatalf("plain: %v", err)
		}
		ew, err := readWhole(e)
		if err != nil {
			c.Fatalf("encrypted: %v", err)
		}
		if !reflect.DeepEqual(pw, ew) {
			c.Fatalf("plain and encrypted workbooks differ:\n%v\n%v", pw, ew)
		}
		for _, s := range b.Sheets {
			if err := expect(b, s, "xls").compare(ew.Rows[s.Name]); err != nil {
				c.Fatalf("sheet %s: %v", describe(s), err)
			}
		}
		c.Label("decrypted")
		if len(enc) > 1024 {
			c.Label("several cipher blocks")
			c.NonTrivial(describe(b.Sheets[0]), salt, verifier, len(enc))
			c.Sample("%d bytes in %d blocks, %s", len(enc), (len(enc)+1023)/1024, describe(b.Sheets[0]))
		}
	})
}

// position of the data of the FilePass record
func filePass(stream []byte) int {
	for p := 0; p+4 <= len(stream); {
		if binary.LittleEndian.Uint16(stream[p:]) == biff.FilePass {
			return p + 4
		}
		p += 4 + int(binary.LittleEndian.Uint16(stream[p+2:]))
	}
	panic("no FilePass")
}

// BookOpt says what workbooks contain.
type BookOpt struct {
	MaxSheets             int
	Text, Formats, Hidden bool
	Common                bool // expressible in both formats
	MaxR, MaxC            int
}

var plainFormats = []model.Format{{ID: 164, Code: "0.000"}, {ID: 165, Code: "yyyy\\-mm\\-dd", Date: true}, {ID: 170, Code: "\"x\"0"}, {ID: 200, Code: "[Red]0.0;[Blue]-0.0"}, {ID: 300, Code: "hh:mm:ss", Date: true}}

func hasSuffix(want string) func(string, float64) error {
	return func(s string, f float64) error {
		if !strings.HasSuffix(s, want) {
			return fmt.Errorf("%v is displayed as %q, without %q", f, s, want)
		}
		return nil
	}
}

var someBuiltins = []int{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 45, 46, 47, 48, 49}

// drawBook draws a workbook.
func drawBook(c gen.Ch, o BookOpt) *model.Book {
	b := &model.Book{XFs: []int{0}}
	if o.Formats {
		b.Date1904 = c.Int("date 1904", 0, 3) == 3
		for _, f := range plainFormats {
			if gen.Bool(c, "custom format") {
				b.Formats = append(b.Formats, f)
			}
		}
		if gen.Bool(c, "unusual format") {
			f := model.Format{ID: 180, Code: fmt.Sprintf("\"%s\"0.00", gen.Pick(c, "prefix", "n", "x ", "№")) + fmt.Sprintf("\"%d\"", c.Int("suffix", 0, 1<<20))}
			if gen.Bool(c, "unusual date") {
				f = model.Format{ID: 181, Code: fmt.Sprintf("yyyy\"%d\"mm", c.Int("infix", 0, 1<<20)), Date: true}
			}
			b.Formats = append(b.Formats, f)
		}
		if gen.Bool(c, "unit") {
			// there are others that differ in the case of letters only
			unit := gen.Pick(c, "which unit", " km", " KM", " Km", " kM", "°c", "°C")
			f := model.Format{ID: 182, Code: fmt.Sprintf("0.0\"%s\"", unit), Check: hasSuffix(unit)}
			if gen.Bool(c, "of time") {
				f = model.Format{ID: 182, Code: fmt.Sprintf("yyyy\"%s\"", unit), Check: hasSuffix(unit), Date: true}
			}
			b.Formats = append(b.Formats, f)
		}
		for n := c.Int("styles", 0, 6); n > 0; n-- {
			k := c.Int("style", 0, len(someBuiltins)+len(b.Formats)-1)
			if k < len(someBuiltins) {
				b.XFs = append(b.XFs, someBuiltins[k])
			} else {
				b.XFs = append(b.XFs, b.Formats[k-len(someBuiltins)].ID)
			}
		}
	}
	n := c.Int("sheets", 1, max(1, o.MaxSheets))
	names := drawNames(c, n)
	for i := 0; i < n; i++ {
		s := drawSheet(c, names[i], SheetOpt{Text: o.Text, Formulas: true, XFs: len(b.XFs), MaxR: o.MaxR, MaxC: o.MaxC, Num: func(c gen.Ch, l string) float64 {
			if o.Formats && gen.Bool(c, "dateable") {
				return float64(c.Int(l, 1, 60000)) + float64(c.Int(l+" s", 0, 86399))/86400
			}
			f := drawNum(c, l)
			return f
		}})
		if o.Formats {
			// dates only of numbers in their range
			for _, x := range s.Cells {
				id := b.XFs[x.XF]
				f := b.Format(id)
				isDate := id >= 14 && id <= 22 || id >= 45 && id <= 47 || f != nil && f.Date
				if x.K == model.Num && isDate && (x.F < 0 || x.F >= 2958464) {
					x.XF = 0
				}
			}
		}
		if o.Hidden {
			s.Hidden = gen.Pick(c, "state", 0, 0, 0, 1, 2)
		}
		b.Sheets = append(b.Sheets, s)
	}
	return b
}
