// Package biff writes BIFF8 workbook streams, following [MS-XLS] only.
package biff

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"math"
	"unicode/utf16"

	"verif/harness/gen"
)

// record types
const (
	EOF              = 0x000A
	CalcMode         = 0x000D
	BOF              = 0x0809
	BoundSheet8      = 0x0085
	SST              = 0x00FC
	ExtSST           = 0x00FF
	Continue         = 0x003C
	Format           = 0x041E
	XF               = 0x00E0
	Font             = 0x0031
	Date1904         = 0x0022
	CodePage         = 0x0042
	FilePass         = 0x002F
	WriteProtect     = 0x0086
	InterfaceHdr     = 0x00E1
	InterfaceEnd     = 0x00E2
	WriteAccess      = 0x005C
	UsrExcl          = 0x0194
	FileLock         = 0x0195
	Window1          = 0x003D
	Palette          = 0x0092
	Country          = 0x008C
	Dimensions       = 0x0200
	Row              = 0x0208
	Blank            = 0x0201
	MulBlank         = 0x00BE
	Number           = 0x0203
	Label            = 0x0204
	RK               = 0x027E
	MulRk            = 0x00BD
	BoolErr          = 0x0205
	Formula          = 0x0006
	String           = 0x0207
	LabelSst         = 0x00FD
	WsBool           = 0x0081
	MergeCells       = 0x00E5
	HLink            = 0x01B8
	HLinkTooltip     = 0x0800
	Index            = 0x020B
	DBCell           = 0x00D7
	Window2          = 0x023E
	DefaultRowHeight = 0x0225
	Array            = 0x0221
	ShrFmla          = 0x04BC
	Table            = 0x0236
	Uncalced         = 0x005E
	Note             = 0x001C
	Obj              = 0x005D
	MsoDrawing       = 0x00EC
	MsoDrawingGroup  = 0x00EB
	TxO              = 0x01B6
	ColInfo          = 0x007D
	DefColWidth      = 0x0055
	Selection        = 0x001D
	Pane             = 0x0041
	CondFmt          = 0x01B0
	Guts             = 0x0080
	Header           = 0x0014
	Footer           = 0x0015
	PrintGrid        = 0x002B
	Protect          = 0x0012
	Chart            = 0x1002
	Units            = 0x1001
	Begin            = 0x1033
	End              = 0x1034
	SIIndex          = 0x1065
	Lbl              = 0x0018
	SupBook          = 0x01AE
	ExternSheet      = 0x0017
)

// MaxData is the most data a record may have.
const MaxData = 8224

// W writes records.
type W struct{ bytes.Buffer }

func (w *W) Rec(typ int, data []byte) {
	if len(data) > MaxData {
		panic("record too large")
	}
	w.Write(U16(typ))
	w.Write(U16(len(data)))
	w.Write(data)
}

func U16(x int) []byte { return []byte{byte(x), byte(x >> 8)} }
func U32(x int) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(x)) }
func F64(f float64) []byte {
	return binary.LittleEndian.AppendUint64(nil, math.Float64bits(f))
}

func Cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// BOFData for a document type: 5 globals, 0x10 worksheet, 0x20 chart
func BOFData(dt int, year int) []byte {
	return Cat(U16(0x0600), U16(dt), U16(0x0DBB), U16(year), U32(0x000040C1), U32(0x00000106))
}

func Units16(s string) []uint16 { return utf16.Encode([]rune(s)) }

// Narrow returns true if s can be stored in 8-bit characters.
func Narrow(s string) bool {
	for _, r := range s {
		if r > 0xFF {
			return false
		}
	}
	return true
}

func chars(us []uint16, wide bool) []byte {
	var b []byte
	for _, u := range us {
		b = append(b, byte(u))
		if wide {
			b = append(b, byte(u>>8))
		} else if u > 0xFF {
			panic("character is not narrow")
		}
	}
	return b
}

// Str encodes a string with a character count of lenBytes bytes.
func Str(s string, lenBytes int, wide bool) []byte {
	us := Units16(s)
	if !Narrow(s) {
		wide = true
	}
	b := U16(len(us))[:lenBytes]
	if wide {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	return append(b, chars(us, wide)...)
}

// Rich is a string with formatting runs and phonetic data.
type Rich struct {
	S    string
	Wide bool
	Runs int
	Ext  []byte
}

// splitter writes data over a record and its continuations.
type splitter struct {
	w     *W
	typ   int
	buf   []byte
	limit int
	ch    gen.Ch
	small bool
	Conts int
	Mixed int
}

func newSplitter(w *W, typ int, ch gen.Ch, small bool) *splitter {
	s := &splitter{w: w, typ: typ, ch: ch, small: small}
	s.newLimit()
	return s
}

func (s *splitter) newLimit() {
	s.limit = MaxData
	if s.small {
		s.limit = gen.Pick(s.ch, "rec limit", MaxData, 20+s.ch.Int("small limit", 0, 120), 12+s.ch.Int("tiny limit", 0, 20))
	}
}

func (s *splitter) flush() {
	s.w.Rec(s.typ, s.buf)
	s.buf = nil
	s.typ = Continue
	s.Conts++
	s.newLimit()
}

// atomic writes bytes that must not be split.
func (s *splitter) atomic(b []byte) {
	if len(s.buf)+len(b) > s.limit {
		s.flush()
	}
	s.buf = append(s.buf, b...)
}

// bytes may be split anywhere (at multiples of unit).
func (s *splitter) bytes(b []byte, unit int) {
	for len(b) > 0 {
		n := (s.limit - len(s.buf)) / unit * unit
		if n <= 0 {
			s.flush()
			continue
		}
		if n > len(b) {
			n = len(b)
		}
		s.buf = append(s.buf, b[:n]...)
		b = b[n:]
	}
}

// chars are split with a new width flag at the start of each continuation.
func (s *splitter) chars(us []uint16, wide bool) {
	for len(us) > 0 {
		size := 1
		if wide {
			size = 2
		}
		n := (s.limit - len(s.buf)) / size
		if n <= 0 {
			s.flush()
			// the rest may change to the other width, until the next split
			was := wide
			narrow := true
			for i, u := range us {
				if i < s.limit && u > 0xFF {
					narrow = false
				}
			}
			wide = !narrow || gen.Bool(s.ch, "wide continuation")
			if was != wide {
				s.Mixed++
			}
			if wide {
				s.buf = append(s.buf, 1)
			} else {
				s.buf = append(s.buf, 0)
			}
			continue
		}
		if n > len(us) {
			n = len(us)
		}
		s.buf = append(s.buf, chars(us[:n], wide)...)
		us = us[n:]
	}
}

func (s *splitter) rich(r Rich) {
	us := Units16(r.S)
	wide := r.Wide || !Narrow(r.S)
	flags := byte(0)
	if wide {
		flags |= 1
	}
	var tail []byte
	if r.Runs > 0 {
		flags |= 8
		tail = append(tail, U16(r.Runs)...)
	}
	if r.Ext != nil {
		flags |= 4
		tail = append(tail, U32(len(r.Ext))...)
	}
	s.atomic(Cat(U16(len(us)), []byte{flags}, tail))
	s.chars(us, wide)
	var runs []byte
	for i := 0; i < r.Runs; i++ {
		runs = append(runs, U16(i)...)
		runs = append(runs, U16(0x4141+i)...)
	}
	s.bytes(runs, 4)
	s.bytes(r.Ext, 1)
}

// WriteSST writes the shared string table, returning how many continuations it
// has, and how many of them change the character width.
func WriteSST(w *W, strs []Rich, refs int, ch gen.Ch, small bool) (conts, mixed int) {
	s := newSplitter(w, SST, ch, small)
	s.buf = Cat(U32(refs), U32(len(strs)))
	for _, r := range strs {
		s.rich(r)
	}
	w.Rec(s.typ, s.buf)
	return s.Conts, s.Mixed
}

// WriteString writes the cached string of a formula.
func WriteString(w *W, str string, wide bool, ch gen.Ch, small bool) (conts, mixed int) {
	wide = wide || !Narrow(str)
	s := newSplitter(w, String, ch, small)
	us := Units16(str)
	s.buf = append(U16(len(us)), 0)
	if wide {
		s.buf[2] = 1
	}
	s.chars(us, wide)
	w.Rec(s.typ, s.buf)
	return s.Conts, s.Mixed
}

// RKValue is the number that a RK encoding stands for.
func RKValue(rk uint32) float64 {
	var f float64
	if rk&2 != 0 {
		f = float64(int32(rk) >> 2)
	} else {
		f = math.Float64frombits(uint64(rk&^3) << 32)
	}
	if rk&1 != 0 {
		f /= 100
	}
	return f
}

// Encrypt a workbook stream with RC4. Its records must include a FilePass
// record of 54 bytes, which is filled in.
func Encrypt(stream []byte, password string, salt, verifier []byte) []byte {
	var pw []byte
	for _, u := range Units16(password) {
		pw = append(pw, byte(u), byte(u>>8))
	}
	h0 := md5.Sum(pw)
	var seed []byte
	for i := 0; i < 16; i++ {
		seed = append(seed, h0[:5]...)
		seed = append(seed, salt...)
	}
	h1 := md5.Sum(seed)
	cipher := func(block int) *rc4.Cipher {
		k := md5.Sum(Cat(h1[:5], U32(block)))
		c, err := rc4.NewCipher(k[:])
		if err != nil {
			panic(err)
		}
		return c
	}
	c := cipher(0)
	vh := md5.Sum(verifier)
	ev, evh := make([]byte, 16), make([]byte, 16)
	c.XORKeyStream(ev, verifier)
	c.XORKeyStream(evh, vh[:])

	// keystream over the whole stream
	ks := make([]byte, len(stream))
	for b := 0; b*1024 < len(ks); b++ {
		end := (b + 1) * 1024
		if end > len(ks) {
			end = len(ks)
		}
		cipher(b).XORKeyStream(ks[b*1024:end], ks[b*1024:end])
	}

	out := append([]byte{}, stream...)
	for pos := 0; pos+4 <= len(out); {
		typ := int(binary.LittleEndian.Uint16(out[pos:]))
		n := int(binary.LittleEndian.Uint16(out[pos+2:]))
		from, to := pos+4, pos+4+n
		pos = to
		switch typ {
		case FilePass:
			copy(out[from:], Cat(U16(1), U16(1), U16(1), salt, ev, evh))
			continue
		case BOF, UsrExcl, FileLock, InterfaceHdr, 0x0138 /* RRDHead */, 0x0196 /* RRDInfo */ :
			continue
		case BoundSheet8:
			from += 4
		}
		for i := from; i < to; i++ {
			out[i] ^= ks[i]
		}
	}
	return out
}
