package props

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/biff"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

// sectorChains lists the sectors of a compound file's FAT (less than 110 of
// them), where each sector's entry is in the file and the entries themselves.
func sectorChains(data []byte) (ss int, at []int, fat []uint32) {
	ss = 1 << binary.LittleEndian.Uint16(data[30:])
	for i := 0; i < 109; i++ {
		sid := binary.LittleEndian.Uint32(data[76+4*i:])
		if sid == 0xFFFFFFFF {
			break
		}
		for k := 0; k < ss; k += 4 {
			p := (1+int(sid))*ss + k
			at = append(at, p)
			fat = append(fat, binary.LittleEndian.Uint32(data[p:]))
		}
	}
	return
}

// damageFile cuts a file off, breaks one of its chains or alters its packed
// contents. It returns what it did, "" if there is nothing to damage.
func damageFile(c *Case, data []byte, format string) ([]byte, string) {
	size := len(data)
	data = bytes.Clone(data)
	how := c.C.Int("damage", 0, 4)
	switch {
	case how >= 3 && format == "xls":
		ss, at, fat := sectorChains(data)
		// the sectors of the directory tell what there is
		skip := map[uint32]bool{}
		for sid := binary.LittleEndian.Uint32(data[48:]); sid < uint32(len(fat)) && !skip[sid]; sid = fat[sid] {
			skip[sid] = true
		}
		var used []int
		for i, next := range fat {
			if !skip[uint32(i)] && (next < 0xFFFFFFFC || next == 0xFFFFFFFE) {
				used = append(used, i)
			}
		}
		if gen.Bool(c.C, "mini stream") {
			// the chains of the short streams
			var miniAt, mini []int
			seen := map[uint32]bool{}
			for sid := binary.LittleEndian.Uint32(data[60:]); sid < uint32(len(fat)) && !seen[sid]; sid = fat[sid] {
				seen[sid] = true
				for k := 0; k < ss; k += 4 {
					miniAt = append(miniAt, (1+int(sid))*ss+k)
				}
			}
			for i, p := range miniAt {
				if next := binary.LittleEndian.Uint32(data[p:]); next != 0xFFFFFFFF {
					mini = append(mini, i)
				}
			}
			if len(mini) > 0 {
				i := gen.Pick(c.C, "mini sector", mini...)
				was := binary.LittleEndian.Uint32(data[miniAt[i]:])
				end := gen.Pick[uint32](c.C, "mini end", 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFD, 0x7FFFFFFF, uint32(size/64+1))
				binary.LittleEndian.PutUint32(data[miniAt[i]:], end)
				return data, fmt.Sprintf("the chain ends at mini sector %d (%x) instead of %x", i, end, was)
			}
		}
		if len(used) == 0 {
			return nil, ""
		}
		i := gen.Pick(c.C, "sector", used...)
		end := gen.Pick[uint32](c.C, "end", 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFD, 0x7FFFFFFF, uint32(size/ss+1))
		binary.LittleEndian.PutUint32(data[at[i]:], end)
		return data, fmt.Sprintf("the chain ends at sector %d (%x) instead of %x", i, end, fat[i])
	case how >= 2 && format == "xlsx":
		z, err := zip.NewReader(bytes.NewReader(data), int64(size))
		if err != nil {
			c.Fatalf("harness: %v", err)
		}
		f := gen.Pick(c.C, "part", z.File...)
		off, err := f.DataOffset()
		if err != nil || f.CompressedSize64 == 0 {
			return nil, ""
		}
		switch c.C.Int("packing", 0, 9) {
		case 0:
			// a compression that nobody has
			name := []byte(f.Name)
			for p := size - len(name); p > 46; p-- {
				if bytes.HasPrefix(data[p:], name) && string(data[p-46:p-42]) == "PK\x01\x02" {
					data[p-36] = byte(c.C.Int("method", 12, 14))
					return data, f.Name + " in another compression"
				}
			}
			return nil, ""
		case 1:
			// without the part. Those for the links of a sheet are optional.
			if strings.Contains(strings.ToLower(f.Name), "_rels/") {
				return nil, ""
			}
			var buf bytes.Buffer
			w := zip.NewWriter(&buf)
			for _, x := range z.File {
				if x != f {
					err = errors.Join(err, w.Copy(x))
				}
			}
			if err = errors.Join(err, w.Close()); err != nil {
				c.Fatalf("harness: %v", err)
			}
			return buf.Bytes(), f.Name + " is missing"
		case 2, 3:
			// the part as a program leaves it that ends while writing
			r, err := f.Open()
			if err != nil {
				c.Fatalf("harness: %v", err)
			}
			all, err := io.ReadAll(r)
			n := c.C.Int("kept", 0, len(all)-1)
			if gen.Bool(c.C, "near the end") {
				n = len(all) - 1 - min(len(all)-1, c.C.Int("lost", 0, 60))
			}
			var buf bytes.Buffer
			w := zip.NewWriter(&buf)
			for _, x := range z.File {
				if x != f {
					err = errors.Join(err, w.Copy(x))
					continue
				}
				p, err2 := w.Create(x.Name)
				err = errors.Join(err, err2)
				if err == nil {
					_, err = p.Write(all[:n])
				}
			}
			if err = errors.Join(err, w.Close()); err != nil {
				c.Fatalf("harness: %v", err)
			}
			return buf.Bytes(), fmt.Sprintf("%s ends after %d of %d bytes", f.Name, n, len(all))
		}
		at := int(off) + c.C.Int("byte", 0, int(f.CompressedSize64)-1)
		if gen.Bool(c.C, "late byte") {
			at = int(off) + int(f.CompressedSize64) - 1 - min(int(f.CompressedSize64)-1, c.C.Int("from the end", 0, 30))
		}
		if gen.Bool(c.C, "zeros") {
			n := min(c.C.Int("length", 1, 64), int(off)+int(f.CompressedSize64)-at)
			if bytes.Equal(data[at:at+n], make([]byte, n)) {
				return nil, ""
			}
			clear(data[at : at+n])
		} else {
			data[at] ^= byte(c.C.Int("bits", 1, 255))
		}
		return data, fmt.Sprintf("byte %d of %s altered", at-int(off), f.Name)
	}
	n := c.C.Int("length", 0, size-1)
	switch c.C.Int("where", 0, 3) {
	case 0:
		n = size - 1 - min(size-1, c.C.Int("missing", 0, 1200))
	case 1:
		n = n / 512 * 512
	case 2:
		// in the middle of a sector that not all of its stream fills
		n = n/512*512 + 511 - min(511, c.C.Int("missing bytes", 0, 80))
		n = min(n, size-1)
	}
	return data[:n], fmt.Sprintf("cut off at %d of %d", n, size)
}

// streamsOf reads all streams of a compound file.
func streamsOf(c *Case, fn string) (names []string, streams []string, err error) {
	d, err := cfb.Open(fn)
	if err != nil {
		return nil, nil, err
	}
	if names, err = d.List(); err != nil {
		return nil, nil, err
	}
	for _, n := range names {
		// NB a stream is in no state to be read at all, or complete
		s := "error"
		if r, err := d.Open(n); err == nil {
			b, err := io.ReadAll(r)
			if err == nil {
				s = string(b)
			}
		}
		streams = append(streams, s)
	}
	return
}

// danglingStrings writes a workbook without some of its shared strings.
func danglingStrings(c *Case, b *model.Book, read func([]byte) (*whole, error), format string) {
	seed := c.C.U64("layout")
	write := func(drop int) []byte {
		layout := gen.NewSeeded(seed)
		if format == "xlsx" {
			o := xlsxw.DrawOpt(layout)
			o.DropSST = drop
			data, _ := xlsxw.Write(layout, b, o)
			return data
		}
		o := biff.DrawOpt(layout)
		o.DropSST = drop
		stream, _ := biff.Stream(layout, b, o)
		return wrapXLS(layout, stream)
	}
	base, err := read(write(0))
	if err != nil {
		c.Fatalf("undamaged: %v", err)
	}
	n := c.C.Int("dropped", 1, 3)
	if gen.Rare(c.C, "drop all", 20) {
		n = 1 << 20
	}
	got, err := read(write(n))
	if err == nil && !reflect.DeepEqual(got, base) {
		c.Fatalf("%s without %d shared strings: no error, but other contents: %.300v instead of %.300v", format, n, got.Rows, base.Rows)
	}
	if err != nil {
		c.Label("%s: missing strings", format)
	}
}

// TestC29 checks that the contents of damaged files are not passed off as whole.
func TestC29(t *testing.T) {
	prop(t, func(c *Case) {
		b := drawBook(c.C, BookOpt{MaxSheets: 3, Text: true, Formats: true, Hidden: true, MaxR: 6, MaxC: 6})
		if gen.Bool(c.C, "bulk") {
			bulkText(b.Sheets[0], c.C.U64("bulk seed"), c.C.Int("bulk cells", 10, 200), c.C.Int("bulk length", 2, 100), true)
		}
		for _, s := range b.Sheets {
			if s.Rows > 0 {
				s.Merges = drawMerges(c.C, s, true)
			}
		}
		if s := b.Sheets[0]; s.Rows > 0 && gen.Bool(c.C, "link") {
			l := model.Link{Range: model.Range{R1: s.Rows - 1, C1: s.Cols - 1, R2: s.Rows - 1, C2: s.Cols - 1}}
			l.Target, l.File = drawTarget(c.C)
			s.Links = append(s.Links, l)
		}
		format, open := "xls", grate.OpenFunc(xls.Open)
		var data []byte
		switch c.C.Int("format", 0, 4) {
		case 0, 1:
			data, _ = storeXLS(c, b)
		case 2:
			o := biff.DrawOpt(c.C)
			o.Encrypt = true
			stream, _ := biff.Stream(c.C, b, o)
			data = wrapXLS(c.C, biff.Encrypt(stream, "VelvetSweatshop", gen.Bytes(c.C, "salt", 16), gen.Bytes(c.C, "verifier", 16)))
		default:
			format, open = "xlsx", xlsx.Open
			data, _ = storeXLSX(c, b)
		}
		common := gen.Bool(c.C, "common open")
		read := func(data []byte) (*whole, error) {
			op := open
			if common {
				op = grate.Open
			}
			src, err := op(c.File("a."+format, data))
			if err != nil {
				return nil, err
			}
			defer src.Close()
			return readWhole(src)
		}
		base, err := read(data)
		if err != nil {
			c.Fatalf("undamaged: %v", err)
		}
		var baseNames, baseStreams []string
		if format == "xls" {
			baseNames, baseStreams, err = streamsOf(c, c.File("a.xls", data))
			if err != nil {
				c.Fatalf("undamaged: %v", err)
			}
		}
		if gen.Rare(c.C, "dangling", 12) {
			danglingStrings(c, b, read, format)
		}
		for n := c.C.Int("damages", 1, 6); n > 0; n-- {
			bad, what := damageFile(c, data, format)
			if bad == nil {
				continue
			}
			if common && (len(bad) < 8 || !bytes.Equal(bad[:4], data[:4]) || strings.HasSuffix(what, "_rels/.rels is missing")) {
				// nothing tells that this is a spreadsheet
				continue
			}
			got, err := read(bad)
			if err == nil && !reflect.DeepEqual(got, base) {
				desc := fmt.Sprintf("sheets %q instead of %q", got.Names, base.Names)
				for name, rows := range base.Rows {
					if g := got.Rows[name]; !reflect.DeepEqual(g, rows) {
						desc = fmt.Sprintf("sheet %q has %d rows instead of %d: %.300v instead of %.300v", name, len(g), len(rows), g, rows)
					}
				}
				c.Fatalf("%s, %s: no error, but %s", format, what, desc)
			}
			if format == "xls" {
				names, streams, err := streamsOf(c, c.File("a.xls", bad))
				if err == nil && !reflect.DeepEqual(names, baseNames) {
					c.Fatalf("%s: no error, but streams %q instead of %q", what, names, baseNames)
				}
				for i, s := range streams {
					if s != baseStreams[i] && s != "error" {
						c.Fatalf("%s: no error, but stream %q has %d bytes instead of %d, or others", what, names[i], len(s), len(baseStreams[i]))
					}
				}
			}
			if err != nil {
				c.Label("%s: error", format)
				c.NonTrivial(bad)
				c.Sample("%s, %d bytes, %s: %v", format, len(data), what, err)
			} else {
				c.Label("%s: same contents", format)
			}
		}
	})
}
