package props

import (
	"bytes"
	"fmt"
	"io"
	"runtime/metrics"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/biff"
	"verif/harness/cfbw"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/mut"
	"verif/harness/xlsxw"
)

// exercise reads everything of a source, whatever it is.
func exercise(src grate.Source, seed uint64) (rows int, errs []string) {
	budget := 120000 // cells
	note := func(err error) {
		if err != nil {
			errs = append(errs, err.Error())
		}
	}
	names, err := src.List()
	note(err)
	if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
		more, err := h.ListHidden()
		note(err)
		names = append(names, more...)
	}
	names = append(names, "no such sheet", "")
	if len(names) > 40 {
		names = names[:40]
	}
	r := gen.NewSeeded(seed)
	for _, n := range names {
		col, err := src.Get(n)
		note(err)
		if err != nil || col == nil {
			continue
		}
		col.IsEmpty()
		k := 0
		for col.Next() {
			k++
			if k > 1200000 {
				panic("endless rows")
			}
			if budget <= 0 || k > 300 && k%997 != 0 {
				continue
			}
			rows++
			ss := col.Strings()
			ts, fs := col.Types(), col.Formats()
			if len(ts) != len(ss) || len(fs) != len(ss) {
				panic(fmt.Sprintf("%d strings, %d types and %d formats", len(ss), len(ts), len(fs)))
			}
			budget -= 4*len(ss) + 1
			dests := make([]interface{}, len(ss))
			for i := range dests {
				if i < len(ts) {
					dests[i] = dest(ts[i])
				}
			}
			note(col.Scan(dests...))
			for i := range dests {
				dests[i] = gen.Pick[interface{}](r, "", new(bool), new(int), new(int64), new(float64), new(string), new(time.Time), nil, "", 1, new(uint8))
			}
			col.Scan(dests...)
			if len(dests) > 0 {
				col.Scan(dests[:1]...)
			}
			col.Scan()
		}
		note(col.Err())
		col.Next()
	}
	src.Close()
	return
}

// allocated is the size of everything that was ever allocated.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// exerciseFile opens a file with everything there is.
func exerciseFile(c *Case, fn string) (opened, rows int, errs []string) {
	seed := c.C.U64("scans")
	for i, open := range []grate.OpenFunc{grate.Open, xls.Open, xlsx.Open, simple.OpenTSV, simple.OpenCSV} {
		src, err := open(fn)
		if err != nil {
			errs = append(errs, err.Error())
			if src != nil {
				c.Fatalf("both a source (%v) and an error: %v", src, err)
			}
			continue
		}
		opened++
		if i == 1 || i == 2 {
			c.Label("opened as a spreadsheet")
		}
		n, es := exercise(src, seed)
		rows += n
		errs = append(errs, es...)
	}
	if d, err := cfb.Open(fn); err == nil {
		list, err := d.List()
		if err != nil {
			errs = append(errs, err.Error())
		}
		for i, n := range list {
			if i > 50 {
				break
			}
			if r, err := d.Open(n); err == nil {
				io.Copy(io.Discard, io.LimitReader(r, 1<<24))
				r.Seek(-10, io.SeekEnd)
				r.Read(make([]byte, 100))
			}
		}
	}
	return
}

// drawBase draws a workbook with something of everything.
func drawBase(c *Case) *model.Book {
	b := drawBook(c.C, BookOpt{MaxSheets: 3, Text: true, Formats: true, Hidden: true, MaxR: 4, MaxC: 5})
	for _, s := range b.Sheets {
		if s.Rows > 0 {
			s.Merges = drawMerges(c.C, s, true)
			for n := c.C.Int("links", 0, 2); n > 0; n-- {
				l := model.Link{Range: model.Range{R1: c.C.Int("link row", 0, s.Rows-1), C1: c.C.Int("link col", 0, s.Cols-1)}}
				l.R2, l.C2 = l.R1, l.C1
				l.Target, l.File = drawTarget(c.C)
				s.Links = append(s.Links, l)
			}
		}
	}
	if gen.Bool(c.C, "odd codes") {
		// format codes that mean nothing in particular
		for n := c.C.Int("odd formats", 1, 4); n > 0; n-- {
			id := 180 + n
			b.Formats = append(b.Formats, model.Format{ID: id, Code: oddCode(c.C)})
			b.XFs = append(b.XFs, id)
		}
		for _, s := range b.Sheets {
			for _, x := range s.Cells {
				if gen.Bool(c.C, "odd format") {
					x.XF = len(b.XFs) - 1 - c.C.Int("which", 0, 1)
					if x.XF < 0 {
						x.XF = 0
					}
				}
			}
		}
	}
	return b
}

var codeBits = []string{"0", "#", "?", ".", ",", "%", "E+", "e-", "E", "y", "yyyy", "m", "mmm", "d", "h", "[h]", "[mm]", "[s]", "s", "AM/PM", "A/P", "a", "@", ";", "\"", "\\", "_", "*", "[", "]", "[Red]", "[>1]", "/", ":", "-", "+", "(", ")", " ", "$", "General", "x", "é", "中", "\"lit\"", ".000", "0.00", "# ?/?", "上午/下午", "😀", "\u0000", "{", "}", "<", "&"}

func oddCode(c gen.Ch) string {
	if c.Int("odd code", 0, 3) == 3 {
		for {
			s := gen.Pick(c, "code", mut.Values...)
			if len(s) < 3000 && !strings.ContainsAny(s, "\x01") {
				return s
			}
		}
	}
	s := ""
	for n := c.Int("code length", 1, 8); n > 0; n-- {
		s += gen.Pick(c, "code part", codeBits...)
	}
	return strings.ReplaceAll(s, "\x00", "")
}

// encryptDamaged encrypts a damaged stream, if that can be done.
func encryptDamaged(stream []byte) (res []byte) {
	defer func() {
		if recover() != nil {
			res = stream
		}
	}()
	return biff.Encrypt(bytes.Clone(stream), "VelvetSweatshop", make([]byte, 16), make([]byte, 16))
}

// damaged draws a file that is not quite right, mostly.
func damaged(c *Case) (data []byte, ext, kind string, log []string) {
	ext = "xls"
	if c.C.Int("amplified", 0, 2047) == 1371 {
		// a small file that asks for a lot
		kind = "amplified"
		rows := c.C.Int("amplified rows", 1000, 4096)
		s := &model.Sheet{Name: "Large", Rows: rows, Cols: 256, Cells: []*model.Cell{{K: model.Num, F: 1}, {R: rows - 1, C: 255, K: model.Num, F: 2}}}
		b := &model.Book{XFs: []int{0}, Sheets: []*model.Sheet{s}}
		what := gen.Pick(c.C, "what", "merges", "links", "xlsx merges")
		for n := c.C.Int("amplified ranges", 2000, 3000); n > 0; n-- {
			m := model.Range{R1: c.C.Int("first row", 0, 3), R2: rows - 1, C2: 255}
			if what == "links" {
				s.Links = append(s.Links, model.Link{Range: m, Target: "x"})
			} else {
				s.Merges = append(s.Merges, m)
			}
		}
		log = append(log, fmt.Sprint(rows, " rows of ", what))
		if what == "xlsx merges" {
			data, _ = xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
			return data, "xlsx", kind, log
		}
		stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
		return wrapXLS(c.C, stream), ext, kind, log
	}
	if c.C.Int("claims", 0, 511)/2 == 137 {
		// a small file that claims to be large
		kind = "large extent"
		s := &model.Sheet{Name: "Large", Rows: c.C.Int("claimed rows", 1, 65536), Cols: 256, Cells: []*model.Cell{{K: model.Num, F: 1}}}
		b := &model.Book{XFs: []int{0}, Sheets: []*model.Sheet{s}}
		if gen.Bool(c.C, "all rows") {
			s.Rows = 65536
		}
		if gen.Bool(c.C, "claim of an xls file") {
			stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
			return wrapXLS(c.C, stream), ext, kind, log
		}
		s.Rows, s.Cols = 16*s.Rows, 16384
		if gen.Bool(c.C, "last cell") {
			s.Cells = append(s.Cells, &model.Cell{R: s.Rows - 1, C: s.Cols - 1, K: model.Num, F: 2})
		}
		data, _ = xlsxw.Write(c.C, b, xlsxw.DrawOpt(c.C))
		return data, "xlsx", kind, log
	}
	kind = gen.Pick(c.C, "base", "xls", "xls", "xls", "encrypted", "xlsx", "xlsx", "xlsx", "compound file", "delimited", "random", "codes")
	switch kind {
	case "xls", "encrypted":
		b := drawBase(c)
		o := biff.DrawOpt(c.C)
		o.Encrypt = kind == "encrypted"
		stream, _ := biff.Stream(c.C, b, o)
		how := c.C.Int("level", 0, 4)
		switch {
		case o.Encrypt && how <= 2:
			// NB the encryption itself needs its record where it was
			s2 := mut.BIFF(c.C, stream, &log)
			stream = encryptDamaged(s2)
		case o.Encrypt:
			stream = biff.Encrypt(stream, "VelvetSweatshop", make([]byte, 16), make([]byte, 16))
			stream = mut.BIFF(c.C, stream, &log)
		case how <= 2:
			stream = mut.BIFF(c.C, stream, &log)
		}
		data = wrapXLS(c.C, stream)
		if how >= 3 {
			data = mut.CFB(c.C, data, &log)
		}
	case "xlsx":
		ext = "xlsx"
		b := drawBase(c)
		o := xlsxw.DrawOpt(c.C)
		parts, _ := xlsxw.Parts(c.C, b, o)
		switch c.C.Int("level", 0, 5) {
		case 0:
			data = mut.Zip(c.C, parts, &log)
		case 1:
			data = mut.Bytes(c.C, xlsxw.Zip(c.C, parts, o), &log)
		default:
			parts = mut.Parts(c.C, parts, &log)
			data = mut.Zip(c.C, parts, &log)
		}
	case "compound file":
		var es []cfbw.Entry
		for i, n := 0, c.C.Int("streams", 1, 4); i < n; i++ {
			name := gen.Pick(c.C, "stream name", "Workbook", "Book", "a", "dir", "\x01Ole")
			es = append(es, cfbw.Entry{Name: name + strings.Repeat("x", i), Data: gen.Bytes(c.C, "stream", c.C.Int("stream size", 0, 9000))})
		}
		o := cfbw.DrawOpt(c.C)
		if gen.Rare(c.C, "large", 5) {
			o.LeadFree = c.C.Int("free sectors", 100, 20000)
		}
		data, _ = cfbw.Write(c.C, es, o)
		data = mut.CFB(c.C, data, &log)
	case "delimited":
		ext = gen.Pick(c.C, "extension", "csv", "tsv", "txt")
		s := drawDelimited(c.C, gen.Pick(c.C, "format", "csv", "tsv"))
		data = mut.Bytes(c.C, []byte(s), &log)
	case "codes":
		// valid files with odd format codes
		b := drawBase(c)
		if gen.Bool(c.C, "as xls") {
			data, _ = storeXLS(c, b)
		} else {
			ext = "xlsx"
			data, _ = storeXLSX(c, b)
		}
		for _, f := range b.Formats {
			log = append(log, fmt.Sprintf("%.40q", f.Code))
		}
	default:
		n := c.C.Int("size", 0, 5000)
		data = gen.Bytes(c.C, "bytes", n)
		magic := gen.Pick(c.C, "magic", "", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", "PK\x03\x04", "\x09\x08\x10\x00\x00\x06\x05\x00")
		copy(data, magic)
	}
	if gen.Rare(c.C, "bytes too", 15) {
		data = mut.Bytes(c.C, data, &log)
	}
	return
}

func TestC15(t *testing.T) {
	prop(t, func(c *Case) {
		data, ext, kind, log := damaged(c)
		fn := c.File("a."+ext, data)
		before := allocated()
		opened, rows, errs := exerciseFile(c, fn)
		// NB memory that is never touched is not resident
		if a, limit := allocated()-before, uint64(10<<30+200*len(data)); a > limit {
			c.Fatalf("%s, %d bytes, %q: %d bytes allocated", kind, len(data), log, a)
		}
		c.Label("base: %s", kind)
		if len(errs) > 4 {
			c.Label("errors after opening")
		}
		if len(data) > 0 && (opened > 0 || kind != "random") {
			c.NonTrivial(data)
			c.Sample("%s, %d bytes, %q: %d times opened, %d rows, errors %q", kind, len(data), log, opened, rows, errs)
		}
	})
}
