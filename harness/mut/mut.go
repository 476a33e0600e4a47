// Package mut damages files, at the level of bytes, compound-file structures, BIFF
// records, ZIP entries and XML.
package mut

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"regexp"
	"strings"

	"verif/harness/gen"
	"verif/harness/xlsxw"
)

// U32 is a number that may be unexpected, n being the size of something.
func U32(c gen.Ch, n int) uint32 {
	switch c.Int("nasty kind", 0, 3) {
	case 0:
		return gen.Pick[uint32](c, "nasty", 0, 1, 2, 3, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0xFFFFFFFB, 0xFFFFFFFA, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFF, 0x10000, 0x7FFF, 0x8000, 0x3FFFFFFF, 0x40000000, 0x01000000, 255, 256, 4095, 4096, 512, 32, 64, 20, 109, 127, 128)
	case 1:
		return uint32(n + c.Int("near", -3, 3))
	case 2:
		return uint32(c.Int("inside", 0, max(n, 1)))
	}
	return uint32(c.U64("random"))
}

// Bytes edits a file at random places.
func Bytes(c gen.Ch, data []byte, log *[]string) []byte {
	data = append([]byte{}, data...)
	for n := c.Int("byte edits", 1, 6); n > 0 && len(data) > 0; n-- {
		at := int(c.U64("at") % uint64(len(data)))
		if gen.Bool(c, "near the start") {
			at = c.Int("start at", 0, min(len(data)-1, 1023))
		}
		kind := c.Int("byte edit", 0, 8)
		*log = append(*log, fmt.Sprintf("byte edit %d at %d", kind, at))
		switch kind {
		case 0:
			data[at] ^= 1 << uint(c.Int("bit", 0, 7))
		case 1:
			data[at] = byte(gen.Pick(c, "byte", 0, 0xFF, 0x7F, 0x80, 1, 0x20))
		case 2:
			data = data[:at]
		case 3:
			if at+4 <= len(data) {
				binary.LittleEndian.PutUint32(data[at:], U32(c, len(data)))
			}
		case 4:
			if at+2 <= len(data) {
				binary.LittleEndian.PutUint16(data[at:], uint16(U32(c, len(data))))
			}
		case 5:
			copy(data[at:], gen.Bytes(c, "random bytes", c.Int("random length", 1, 200)))
		case 6:
			to := min(len(data), at+c.Int("cut", 1, 600))
			data = append(data[:at:at], data[to:]...)
		case 7:
			to := min(len(data), at+c.Int("repeat", 1, 600))
			data = append(data[:to:to], data[at:]...)
		case 8:
			data = append(data[:at:at], append(gen.Bytes(c, "new bytes", c.Int("new length", 1, 100)), data[at:]...)...)
		}
	}
	return data
}

// CFB edits the structures of a compound file.
func CFB(c gen.Ch, data []byte, log *[]string) []byte {
	data = append([]byte{}, data...)
	if len(data) < 1024 {
		return data
	}
	le := binary.LittleEndian
	ss := 1 << le.Uint16(data[30:])
	nsec := len(data)/ss - 1
	sector := func(i uint32) []byte {
		off := (int(i) + 1) * ss
		if off < 0 || off+ss > len(data) {
			return nil
		}
		return data[off : off+ss]
	}
	var fat []uint32
	for i := 0; i < 109; i++ {
		if x := le.Uint32(data[76+4*i:]); int(x) < nsec {
			fat = append(fat, x)
		}
	}
	chain := func(start uint32) []uint32 {
		var res []uint32
		for int(start) < nsec && len(res) <= nsec {
			res = append(res, start)
			k := int(start) / (ss / 4)
			if k >= len(fat) {
				break
			}
			s := sector(fat[k])
			if s == nil {
				break
			}
			start = le.Uint32(s[int(start)%(ss/4)*4:])
		}
		return res
	}
	dirs := chain(le.Uint32(data[48:]))
	minifat := chain(le.Uint32(data[60:]))
	for n := c.Int("structure edits", 1, 5); n > 0; n-- {
		kind := c.Int("structure", 0, 7)
		v := U32(c, nsec)
		switch kind {
		case 6:
			// more DIFAT sectors, in a chain of any shape
			k := c.Int("DIFAT sectors", 1, 3)
			if len(data)%ss != 0 {
				continue
			}
			first := uint32(len(data)/ss - 1)
			what := c.Int("DIFAT entries", 0, 3)
			for j := 0; j < k; j++ {
				s := bytes.Repeat([]byte{0xFF}, ss)
				for e := 0; e < ss/4-1; e++ {
					switch what {
					case 1:
						le.PutUint32(s[e*4:], first+uint32(e%k))
					case 2:
						if len(fat) > 0 {
							le.PutUint32(s[e*4:], fat[e%len(fat)])
						}
					case 3:
						le.PutUint32(s[e*4:], U32(c, nsec))
					}
				}
				le.PutUint32(s[ss-4:], gen.Pick(c, "next DIFAT sector", first+uint32(j), first, first+uint32(j)+1, first+uint32(k)-1, 0xFFFFFFFE, 0xFFFFFFFF, U32(c, nsec)))
				data = append(data, s...)
			}
			nsec = len(data)/ss - 1
			le.PutUint32(data[68:], first)
			if c.Int("count", 0, 3) > 0 {
				le.PutUint32(data[72:], uint32(k))
			} else {
				le.PutUint32(data[72:], U32(c, k))
			}
			if gen.Bool(c, "FAT sectors too") {
				le.PutUint32(data[44:], gen.Pick(c, "number of FAT sectors", uint32(109+k*(ss/4-1)), 109, 110, 200, U32(c, 109)))
			}
			*log = append(*log, fmt.Sprintf("%d DIFAT sectors of kind %d", k, what))
		case 7:
			// cycles and shared tails in the chains
			if len(fat) > 0 {
				s := sector(gen.Pick(c, "FAT sector", fat...))
				i := c.Int("FAT entry", 0, min(nsec-1, ss/4-1))
				to := uint32(c.Int("leads to", max(0, i-8), i))
				if s != nil && i >= 0 {
					le.PutUint32(s[i*4:], to)
					*log = append(*log, fmt.Sprintf("FAT entry %d leads to %d", i, to))
				}
			}
		case 0:
			at := gen.Pick(c, "header field", 24, 26, 28, 30, 32, 40, 44, 48, 52, 56, 60, 64, 68, 72, 76, 80)
			if at < 34 {
				le.PutUint16(data[at:], uint16(v))
			} else {
				le.PutUint32(data[at:], v)
			}
			*log = append(*log, fmt.Sprintf("header field %d = %#x", at, v))
		case 1:
			if len(fat) > 0 {
				s := sector(gen.Pick(c, "FAT sector", fat...))
				i := c.Int("FAT entry", 0, min(nsec+2, ss/4-1))
				le.PutUint32(s[i*4:], v)
				*log = append(*log, fmt.Sprintf("FAT entry %d = %#x", i, v))
			}
		case 2, 3:
			if len(dirs) > 0 {
				s := sector(gen.Pick(c, "directory sector", dirs...))
				i := c.Int("entry", 0, min(ss/128-1, 7))
				f := gen.Pick(c, "field", 64, 66, 67, 68, 72, 76, 80, 116, 116, 120, 120, 124, 0, 2, 6)
				switch f {
				case 64:
					le.PutUint16(s[i*128+f:], uint16(v))
				case 66, 67:
					s[i*128+f] = byte(v)
				default:
					le.PutUint32(s[i*128+f:], v)
				}
				*log = append(*log, fmt.Sprintf("directory entry %d field %d = %#x", i, f, v))
			}
		case 4:
			if len(minifat) > 0 {
				s := sector(gen.Pick(c, "mini FAT sector", minifat...))
				i := c.Int("mini FAT entry", 0, ss/4-1)
				if gen.Bool(c, "first ones") {
					i %= 20
				}
				le.PutUint32(s[i*4:], v)
				*log = append(*log, fmt.Sprintf("mini FAT entry %d = %#x", i, v))
			}
		case 5:
			// not a whole number of sectors, or fewer than there should be
			to := len(data) - c.Int("missing", 1, ss+1)
			if gen.Bool(c, "far") {
				to = c.Int("length", 0, len(data))
			}
			if to >= 0 {
				*log = append(*log, fmt.Sprintf("cut to %d bytes", to))
				return data[:to]
			}
		}
	}
	return data
}

// Rec is a BIFF record.
type Rec struct {
	Typ  int
	Data []byte
	off  int
}

// Split a workbook stream into records.
func Split(stream []byte) (recs []Rec) {
	for p := 0; p+4 <= len(stream); {
		n := int(binary.LittleEndian.Uint16(stream[p+2:]))
		end := min(p+4+n, len(stream))
		recs = append(recs, Rec{int(binary.LittleEndian.Uint16(stream[p:])), append([]byte{}, stream[p+4:end]...), p})
		p = end
	}
	return
}

var types = []int{0x0A, 0x3C, 0xFC, 0xFD, 0x85, 0x06, 0x207, 0x203, 0x27E, 0xBD, 0xBE, 0x201, 0x205, 0x204, 0xD6, 0xE5, 0x1B8, 0x809, 0x2F, 0x22, 0x41E, 0xE0, 0x200, 0xFF, 0x42, 0x4BC, 0x221, 0x208, 0x0, 0xEB, 0x23E, 0x55, 0x7D, 0xE2, 0xE1, 0xC1}

// BIFF edits the records of a workbook stream.
func BIFF(c gen.Ch, stream []byte, log *[]string) []byte {
	recs := Split(stream)
	if len(recs) == 0 {
		return stream
	}
	// most records are of little interest
	pick := func() int {
		i := c.Int("record", 0, len(recs)-1)
		for k := 0; k < 6; k++ {
			switch recs[i].Typ {
			case 0xFC, 0x3C, 0x85, 0x06, 0x207, 0x203, 0x27E, 0xBD, 0xBE, 0x205, 0x204, 0xFD, 0xD6, 0xE5, 0x1B8, 0x809, 0x2F, 0x22, 0x41E, 0xE0, 0x200:
				return i
			}
			i = c.Int("record", 0, len(recs)-1)
		}
		return i
	}
	fixOffsets := c.Int("keep offsets", 0, 4) > 0
	badLength := map[int]int{}
	for n := c.Int("record edits", 1, 6); n > 0; n-- {
		i := pick()
		r := &recs[i]
		kind := c.Int("record edit", 0, 13)
		*log = append(*log, fmt.Sprintf("record edit %d of record %d (%#x, %d bytes)", kind, i, r.Typ, len(r.Data)))
		switch kind {
		case 0, 1, 2:
			if len(r.Data) == 0 {
				continue
			}
			at := c.Int("field at", 0, min(len(r.Data)-1, 64))
			if gen.Bool(c, "anywhere") {
				at = c.Int("at", 0, len(r.Data)-1)
			}
			v := U32(c, len(r.Data))
			switch {
			case kind == 0:
				r.Data[at] = byte(v)
			case kind == 1 && at+2 <= len(r.Data):
				binary.LittleEndian.PutUint16(r.Data[at:], uint16(v))
			case at+4 <= len(r.Data):
				binary.LittleEndian.PutUint32(r.Data[at:], v)
			}
			*log = append(*log, fmt.Sprintf("  field at %d = %#x", at, v))
		case 3:
			r.Data = r.Data[:c.Int("shorter", 0, len(r.Data))]
		case 4:
			r.Data = append(r.Data, gen.Bytes(c, "more", c.Int("more length", 1, 40))...)
			if len(r.Data) > 65535 {
				r.Data = r.Data[:65535]
			}
		case 5:
			r.Typ = gen.Pick(c, "type", types...)
		case 6:
			if len(recs) > 1 {
				recs = append(recs[:i:i], recs[i+1:]...)
			}
		case 7:
			for k := c.Int("copies", 1, 3); k > 0; k-- {
				d := Rec{r.Typ, append([]byte{}, r.Data...), -1}
				recs = append(recs[:i+1:i+1], append([]Rec{d}, recs[i+1:]...)...)
			}
		case 8:
			j := pick()
			recs[i], recs[j] = recs[j], recs[i]
		case 9:
			d := Rec{gen.Pick(c, "new type", types...), gen.Bytes(c, "new data", c.Int("new length", 0, 60)), -1}
			if gen.Bool(c, "zeroes") {
				d.Data = make([]byte, len(d.Data))
			}
			recs = append(recs[:i+1:i+1], append([]Rec{d}, recs[i+1:]...)...)
		case 10:
			badLength[i] = int(uint16(U32(c, len(r.Data))))
		case 11:
			recs = recs[:i+1] // the end is missing
		case 12:
			// a continuation, or none
			d := Rec{0x3C, gen.Bytes(c, "continuation", gen.Pick(c, "continuation length", 0, 0, 1, 2, 3, 20)), -1}
			recs = append(recs[:i+1:i+1], append([]Rec{d}, recs[i+1:]...)...)
		case 13:
			// another string table
			var d []byte
			p16 := func(n int) { d = append(d, byte(n), byte(n>>8)) }
			p32 := func(n uint32) { d = append(d, byte(n), byte(n>>8), byte(n>>16), byte(n>>24)) }
			n := c.Int("strings", 1, 3)
			p32(uint32(n))
			p32(gen.Pick(c, "unique strings", uint32(n), uint32(n), uint32(n+1), U32(c, n)))
			var all []Rec
			cut := func() {
				if c.Int("cut here", 0, 5) == 5 {
					all, d = append(all, Rec{0x3C, d, -1}), nil
				}
			}
			for ; n > 0; n-- {
				k := gen.Pick(c, "characters", 0, 1, 3, 10, 300, 65535)
				fl := c.Int("string flags", 0, 15)
				p16(k)
				d = append(d, byte(fl))
				runs, ext := 0, uint32(0)
				if fl&8 != 0 {
					runs = gen.Pick(c, "runs", 0, 1, 2, 5, 65535)
					p16(runs)
				}
				if fl&4 != 0 {
					ext = gen.Pick(c, "phonetic bytes", 0, 1, 10, 100, U32(c, 20))
					p32(ext)
				}
				cut()
				if gen.Bool(c, "text in full") {
					d = append(d, make([]byte, min(k, 400)*(1+fl&1))...)
				} else {
					d = append(d, make([]byte, c.Int("text bytes", 0, min(k, 20)))...)
				}
				cut()
				if runs < 100 && gen.Bool(c, "runs in full") {
					d = append(d, make([]byte, runs*4)...)
				}
				cut()
				if ext < 400 && gen.Bool(c, "phonetic data in full") {
					d = append(d, make([]byte, ext)...)
				}
				cut()
			}
			all = append(all, Rec{0x3C, d, -1})
			for k := c.Int("trailing continuations", 0, 2); k > 0; k-- {
				all = append(all, Rec{0x3C, make([]byte, gen.Pick(c, "trailing length", 0, 0, 1, 4)), -1})
			}
			all[0].Typ = 0xFC
			for j := range recs {
				if recs[j].Typ == 0xFC {
					e := j + 1
					for e < len(recs) && recs[e].Typ == 0x3C {
						e++
					}
					recs = append(recs[:j:j], append(all, recs[e:]...)...)
					break
				}
			}
		}
	}
	moved := map[int]int{}
	p := 0
	for _, r := range recs {
		if r.off >= 0 {
			moved[r.off] = p
		}
		p += 4 + len(r.Data)
	}
	var out bytes.Buffer
	for i, r := range recs {
		if r.Typ == 0x85 && fixOffsets && len(r.Data) >= 4 {
			if to, ok := moved[int(binary.LittleEndian.Uint32(r.Data))]; ok {
				binary.LittleEndian.PutUint32(r.Data, uint32(to))
			}
		}
		n := len(r.Data)
		if x, ok := badLength[i]; ok {
			n = x
		}
		var h [4]byte
		binary.LittleEndian.PutUint16(h[:], uint16(r.Typ))
		binary.LittleEndian.PutUint16(h[2:], uint16(n))
		out.Write(h[:])
		out.Write(r.Data)
	}
	return out.Bytes()
}

// Numbers, references, format codes and so on that may be unexpected.
var Values = []string{
	"", " ", "0", "-1", "1", "2", "3", "17", "65535", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999",
	"1e9", "1e400", "-1e400", "NaN", "Inf", "-inf", "0x10", "1_0", "-0", "+1", "1.5", ".", "-", "e", "true", "false", "TRUE", "2", "x",
	"A1:XFD65536", "A1:IV65536", "A1:A1048576", "XFD1048576:XFD1048576",
	"A", "A0", "A00", "1A", "AA", "XFD1048576", "XFE1", "A1048577", "ZZZZZZZ1", "ZZZZZZZZZZZZZZZZZZZZZZZZ1", "A99999999999", "A4294967297", "A18446744073709551617", "A-1", "$A$1", "A$1", "A1:B2", "B2:A1", "A1:XFD1048576", "A1:A1048576", "A1:XFD1", "C3:XFD1048576", "a1", "Ä1", "A1A1", " A1", "A1 ", "A1:", ":B2", "A1:B2:C3", "A:A", "1:1", "A1,B2", "A1 B2", "R1C1", "#REF!", "@1", "[1", "AAAAAAAAAAAAAAAA", "1048577", "XFD",
	"s", "str", "n", "b", "e", "inlineStr", "d", "z", "S", "rId1", "rId2", "rId9999", "../../../../etc/passwd", "/", "//", ".", "..", "/xl/workbook.xml", "xl/workbook.xml", "worksheets/sheet1.xml", "/xl/worksheets/", "%00", "%zz", "\x01", "&#0;", "&amp;", "&bogus;",
	"general", "\\", "[", "]", "[h", "[Red", "_", "*", "0.0.0", "0..0", "E+", "0E", "0E+", ".E+", "%%%%%%%%%%", ";;;;;;;;", ";", "@@", "0;@;0;@", "?/?", "# ?/", "# ?/?????????????????????", "#/#", "yyyyyyyyyyyyyy", "[hhhhhhhh]", "h:m:s.0000000000000", "AM/PM", "A/", "a", "[$-409]", "[<1]0;0", "mmmmmmm", "\"", "General;General;General;General;General", ",,,,", "0,,,,,,,,,,,,,", ",0", "0,", "#,", strings.Repeat("0", 400), "0." + strings.Repeat("0", 400), "0E+" + strings.Repeat("0", 100), strings.Repeat("x", 70000), strings.Repeat("%", 300), "0." + strings.Repeat("#", 70000),
}

// refs are the ones of them that look like references.
var refs = func() (res []string) {
	re := regexp.MustCompile(`^\$?[A-Z]*\$?[0-9]*(:[A-Z]*[0-9]*)?$`)
	for _, v := range Values {
		if re.MatchString(v) {
			res = append(res, v)
		}
	}
	return
}()

var (
	tagRe  = regexp.MustCompile(`<[^<>]*>`)
	attrRe = regexp.MustCompile(`\s([\w:.-]+)=("[^"]*"|'[^']*')`)
	textRe = regexp.MustCompile(`>[^<>]+<`)
)

func xmlEscape(s string) string {
	return strings.NewReplacer("<", "&lt;", "\"", "&quot;", "'", "&apos;", ">", "&gt;").Replace(s)
}

// XML edits an XML part.
func XML(c gen.Ch, data []byte, log *[]string) []byte {
	s := string(data)
	splice := func(at []int, with string) { s = s[:at[0]] + with + s[at[1]:] }
	for n := c.Int("XML edits", 1, 4); n > 0; n-- {
		kind := c.Int("XML edit", 0, 10)
		v := gen.Pick(c, "value", Values...)
		if kind == 2 {
			v = gen.Pick(c, "reference", refs...)
		}
		short := v
		if len(short) > 30 {
			short = short[:30] + "…"
		}
		*log = append(*log, fmt.Sprintf("XML edit %d %q", kind, short))
		switch kind {
		case 0, 1, 2:
			all := attrRe.FindAllStringSubmatchIndex(s, -1)
			if kind == 2 {
				// only references
				var some [][]int
				for _, m := range all {
					if a := s[m[2]:m[3]]; a == "ref" || a == "r" {
						some = append(some, m)
					}
				}
				all = some
			}
			if len(all) > 0 {
				m := gen.Pick(c, "attribute", all...)
				*log = append(*log, "  attribute "+s[m[2]:m[3]])
				splice([]int{m[4], m[5]}, "\""+xmlEscape(v)+"\"")
			}
		case 3:
			if all := textRe.FindAllStringIndex(s, -1); len(all) > 0 {
				m := gen.Pick(c, "text", all...)
				splice([]int{m[0] + 1, m[1] - 1}, xmlEscape(v))
			}
		case 4:
			if all := tagRe.FindAllStringIndex(s, -1); len(all) > 0 {
				splice(gen.Pick(c, "tag", all...), "")
			}
		case 5:
			if all := tagRe.FindAllStringIndex(s, -1); len(all) > 0 {
				m := gen.Pick(c, "tag", all...)
				splice([]int{m[1], m[1]}, s[m[0]:m[1]])
			}
		case 6:
			if all := attrRe.FindAllStringIndex(s, -1); len(all) > 0 {
				splice(gen.Pick(c, "attribute", all...), "")
			}
		case 7:
			if len(s) > 0 {
				s = s[:c.Int("length", 0, len(s)-1)]
			}
		case 8:
			if all := tagRe.FindAllStringIndex(s, -1); len(all) > 0 {
				m := gen.Pick(c, "tag", all...)
				new := gen.Pick(c, "element", "<c/>", "<c r=\"\"/>", "<c t=\"s\"><v/></c>", "<c t=\"s\"><v>99</v></c>", "<c r=\"B2\" t=\"s\"><v>-1</v></c>", "<row/>", "<v>1</v>", "<v/>", "<is><t>x</t></is>", "<t>y</t>", "<t/>", "<r>", "</r>", "<sst>", "<mergeCell/>", "<mergeCell ref=\"A1\"/>", "<mergeCells><mergeCell ref=\"A1:XFD1048576\"/></mergeCells>",
					"<dimension/>", "<dimension ref=\"A1:XFD1048576\"/>", "<hyperlinks><hyperlink ref=\"A1\" id=\"zz\"/></hyperlinks>", "<xf/>", "<xf numFmtId=\"70000\"/>", "<cellXfs/>", "<numFmt/>", "<numFmt numFmtId=\"200\"/>", "<sheet/>", "<sheet name=\"x\"/>", "<Relationship/>", "<Relationship Id=\"rId1\" Target=\"\"/>", "<workbookPr date1904=\"x\"/>",
					"<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<!DOCTYPE x [<!ENTITY e \"ee\">]>", "<!--", "<![CDATA[", "&e;", "<\x00>", "\xff\xfe", strings.Repeat("<g>", 3000), strings.Repeat("<c>", 200))
				splice([]int{m[1], m[1]}, new)
			}
		case 9:
			if all := tagRe.FindAllStringIndex(s, -1); len(all) > 1 {
				a, b := gen.Pick(c, "tag", all...), gen.Pick(c, "other tag", all...)
				ta, tb := s[a[0]:a[1]], s[b[0]:b[1]]
				if a[0] > b[0] {
					a, b, ta, tb = b, a, tb, ta
				}
				if a[1] <= b[0] {
					s = s[:a[0]] + tb + s[a[1]:b[0]] + ta + s[b[1]:]
				}
			}
		case 10:
			s = string(Bytes(c, []byte(s), log))
		}
	}
	return []byte(s)
}

// Parts edits the parts of a package.
func Parts(c gen.Ch, parts []xlsxw.Part, log *[]string) []xlsxw.Part {
	parts = append([]xlsxw.Part{}, parts...)
	for n := c.Int("part edits", 1, 4); n > 0 && len(parts) > 0; n-- {
		i := c.Int("part", 0, len(parts)-1)
		kind := c.Int("part edit", 0, 9)
		*log = append(*log, fmt.Sprintf("part edit %d of %s", kind, parts[i].Name))
		switch kind {
		case 0:
			parts = append(parts[:i:i], parts[i+1:]...)
		case 1:
			parts = append(parts, parts[i])
		case 2:
			parts[i].Name = gen.Pick(c, "name", "", "/", "xl", "xl/", "../x", "xl/workbook.xml", "_rels/.rels", "XL/WORKBOOK.XML", "\\xl\\workbook.xml", "/xl/workbook.xml", "x\x00y")
		case 3:
			j := c.Int("other part", 0, len(parts)-1)
			parts[i].Data, parts[j].Data = parts[j].Data, parts[i].Data
		case 4:
			parts[i].Data = nil
		default:
			parts[i].Data = XML(c, parts[i].Data, log)
		}
	}
	return parts
}

// Zip packs parts, with odd entries.
func Zip(c gen.Ch, parts []xlsxw.Part, log *[]string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	odd := -1
	if gen.Bool(c, "odd entry") && len(parts) > 0 {
		odd = c.Int("entry", 0, len(parts)-1)
	}
	for i, p := range parts {
		h := &zip.FileHeader{Name: p.Name, Method: zip.Deflate}
		if i != odd {
			f, err := w.CreateHeader(h)
			if err == nil {
				f.Write(p.Data)
			}
			continue
		}
		kind := c.Int("oddity", 0, 4)
		*log = append(*log, fmt.Sprintf("oddity %d of ZIP entry %s", kind, p.Name))
		h.CRC32, h.CompressedSize64, h.UncompressedSize64 = crc32.ChecksumIEEE(p.Data), uint64(len(p.Data)), uint64(len(p.Data))
		h.Method = zip.Store
		switch kind {
		case 0:
			h.Method = uint16(gen.Pick(c, "method", 1, 9, 12, 14, 93, 99))
		case 1:
			h.CRC32++
		case 2:
			h.UncompressedSize64 = uint64(U32(c, len(p.Data)))
		case 3:
			h.Method = zip.Deflate // which it is not
		case 4:
			h.Flags |= 1 // encrypted
		}
		if f, err := w.CreateRaw(h); err == nil {
			f.Write(p.Data)
		}
	}
	w.Close()
	return buf.Bytes()
}
