package biff

import (
	"bytes"
	"encoding/binary"
	"math"
	"sort"

	"verif/harness/gen"
	"verif/harness/model"
)

// Opt controls how a workbook is stored.
type Opt struct {
	Noise     bool // records that do not describe cells, blank cells, ...
	SmallRecs bool // split strings over many short continuation records
	WideAll   bool // narrow text may be stored in 16 bits
	RichText  bool // formatting runs and phonetic data
	Shuffle   bool // sheets in another order than their names
	PadSST    int  // unused shared strings in front
	DropSST   int  // shared strings missing at the end
	Encrypt   bool // leave room for encryption
	NoPrefs   bool // always use the plainest record for a number
	Filler    int  // bytes of records without cells, in front of the sheets
}

// DrawOpt chooses how to store a workbook.
func DrawOpt(c gen.Ch) Opt {
	return Opt{
		Noise:     gen.Bool(c, "xls noise"),
		SmallRecs: c.Int("xls small records", 0, 2) == 2,
		WideAll:   gen.Bool(c, "xls wide"),
		RichText:  gen.Bool(c, "xls rich"),
		Shuffle:   gen.Bool(c, "xls shuffle sheets"),
	}
}

// Info tells what a file needed.
type Info struct {
	Conts, Mixed int // continuations, and those with another character width
	SST          int
	Recs         map[string]int
}

func (i *Info) count(k string) {
	if i.Recs == nil {
		i.Recs = map[string]int{}
	}
	i.Recs[k]++
}

// Stream writes the workbook stream. It sets PlainInt of the cells stored as such.
func Stream(c gen.Ch, b *model.Book, o Opt) ([]byte, *Info) {
	info := &Info{}
	year := gen.Pick(c, "xls year", 0x07CC, 0x07CD)
	g := &W{}
	g.Rec(BOF, BOFData(5, year))
	if o.Noise && gen.Bool(c, "write protected") {
		g.Rec(0x0086, nil) // WriteProtect
	}
	if o.Encrypt {
		g.Rec(FilePass, make([]byte, 54))
	}
	noise := func(label string) bool { return o.Noise && gen.Bool(c, label) }
	if noise("interface") {
		g.Rec(InterfaceHdr, U16(1200))
		g.Rec(0x00C1, U16(0)) // Mms
		g.Rec(InterfaceEnd, nil)
		g.Rec(WriteAccess, append(Str("somebody", 2, false), make([]byte, 101)...))
	}
	if noise("codepage") {
		g.Rec(CodePage, U16(1200))
	}
	if b.Date1904 || noise("date mode") {
		v := 0
		if b.Date1904 {
			v = 1
		}
		g.Rec(Date1904, U16(v))
	}
	if noise("windows") {
		g.Rec(0x0161, U16(0))                                                                                  // DSF
		g.Rec(Window1, Cat(U16(0), U16(0), U16(9000), U16(8000), U16(0x38), U16(0), U16(0), U16(1), U16(600))) // Window1
		g.Rec(0x0040, U16(0))                                                                                  // Backup
	}
	for i := 0; o.Noise && i < 4; i++ {
		g.Rec(Font, Cat(U16(200), U16(0), U16(0x7FFF), U16(400), U16(0), []byte{0, 0, 0, 0}, Str("Arial", 1, gen.Bool(c, "font name"))))
	}
	// FORMAT is followed by XF
	for _, f := range b.Formats {
		g.Rec(Format, append(U16(f.ID), Str(f.Code, 2, o.WideAll && gen.Bool(c, "wide format"))...))
	}
	for i, id := range b.XFs {
		flags := 0
		if o.Noise {
			flags = c.Int("xf flags", 0, 1) * 0xF401
		}
		g.Rec(XF, Cat(U16(i%4), U16(id), U16(flags), make([]byte, 14)))
	}
	if noise("style") {
		g.Rec(0x0293, Cat(U16(0x8000), []byte{0, 0xFF})) // Style
		g.Rec(0x0160, U16(0))                            // UsesELFs
	}
	if noise("palette") {
		g.Rec(Palette, append(U16(56), gen.Bytes(c, "palette", 56*4)...))
	}
	for n := 0; n < o.Filler; n += 8228 {
		// pictures
		typ := MsoDrawingGroup
		if n > 0 {
			typ = Continue
		}
		d := make([]byte, 8224)
		for i := 0; i < len(d); i += 32 {
			d[i] = byte(n>>10) ^ byte(i)
		}
		g.Rec(typ, d)
	}
	patch := make([]int, len(b.Sheets))
	for i, s := range b.Sheets {
		patch[i] = g.Len() + 4
		hidden := s.Hidden
		if o.Noise {
			// the other bits are not used
			hidden |= c.Int("unused bits", 0, 63) << 2
		}
		g.Rec(BoundSheet8, Cat(U32(0), []byte{byte(hidden), 0}, Str(s.Name, 1, o.WideAll && gen.Bool(c, "wide sheet name"))))
	}
	if noise("exempt") {
		// never encrypted
		exempt(c, g)
	}
	if noise("country") {
		g.Rec(Country, Cat(U16(1), U16(49)))
	}
	if noise("names") {
		g.Rec(SupBook, Cat(U16(len(b.Sheets)), U16(0x0401)))
		g.Rec(ExternSheet, Cat(U16(1), U16(0), U16(0), U16(0)))
		g.Rec(Lbl, Cat(U16(0), []byte{0, 4}, U16(0), U16(0), U16(0), make([]byte, 4), []byte{0}, []byte("name")))
	}

	// shared strings
	idx := map[string]int{}
	var strs []Rich
	large := -1
	if o.RichText && gen.Rare(c, "large string data", 1) {
		large = o.PadSST
	}
	addStr := func(s string) int {
		r := Rich{S: s}
		r.Wide = o.WideAll && gen.Bool(c, "wide string")
		if o.RichText {
			r.Runs = gen.Pick(c, "runs", 0, 0, 1, 3, 40)
			if n := c.Int("phonetic", 0, 3); n > 0 {
				r.Ext = gen.Bytes(gen.NewSeeded(uint64(n)), "", n*n*7-3)
			}
			// the limits are those of a text of 32767 characters
			if len(strs) == large {
				if gen.Bool(c, "many runs") {
					r.Runs = 16384 + c.Int("more runs", 0, 2000)
					info.count("many runs")
				} else {
					r.Ext = bytes.Repeat([]byte{byte(c.Int("phonetic byte", 0, 2))}, 65536+c.Int("phonetic size", 0, 2000))
					info.count("long phonetic")
				}
			}
		}
		strs = append(strs, r)
		return len(strs) - 1
	}
	pad := gen.NewSeeded(77)
	for i := 0; i < o.PadSST; i++ {
		strs = append(strs, Rich{S: LongTextFor(pad, i)})
	}
	refs := 0
	dups := o.Noise && gen.Bool(c, "duplicate strings")
	ref := map[*model.Cell]int{}
	for _, s := range b.Sheets {
		for _, x := range s.Cells {
			if x.K == model.Text && !x.Formula {
				refs++
				i, ok := idx[x.S]
				if !ok || dups {
					i = addStr(x.S)
					idx[x.S] = i
				}
				ref[x] = i
			}
		}
	}
	strs = strs[:max(0, len(strs)-o.DropSST)]
	if len(strs) > 0 || noise("empty sst") {
		cont, mixed := WriteSST(g, strs, refs, c, o.SmallRecs)
		info.Conts += cont
		info.Mixed += mixed
		info.SST = len(strs)
		if noise("extsst") {
			g.Rec(ExtSST, U16(8))
		}
	}
	g.Rec(EOF, nil)

	order := gen.Perm(gen.Zero{}, "", len(b.Sheets))
	if o.Shuffle {
		order = gen.Perm(c, "sheet order", len(b.Sheets))
	}
	for _, i := range order {
		at := g.Len()
		if b.Sheets[i].Lost {
			// inside of some record
			at = 2 + c.Int("lost at", 0, 1)*(at-3)
		}
		binary.LittleEndian.PutUint32(g.Bytes()[patch[i]:], uint32(at))
		writeSheet(c, g, b, b.Sheets[i], o, ref, info, year)
	}
	return g.Bytes(), info
}

func exempt(c gen.Ch, g *W) {
	for n := c.Int("exempt records", 1, 3); n > 0; n-- {
		g.Rec(gen.Pick(c, "exempt", UsrExcl, FileLock, 0x0138, 0x0196), gen.Bytes(c, "exempt data", gen.Pick(c, "exempt size", 0, 2, 58, 1100)))
	}
}

// LongTextFor pads a string table.
func LongTextFor(r gen.Ch, i int) string {
	return gen.LongText(r.U64(""), r.Int("", 1, 40))
}

// RKFor returns the encodings of a number as RK.
func RKFor(f float64) (res []uint32) {
	try := func(rk uint32) {
		if RKValue(rk) == f && math.Signbit(RKValue(rk)) == math.Signbit(f) {
			res = append(res, rk)
		}
	}
	if f == math.Trunc(f) && math.Abs(f) < 1<<29 {
		try(uint32(int32(f))<<2 | 2)
	}
	if h := math.Round(f * 100); math.Abs(h) < 1<<29 {
		try(uint32(int32(h))<<2 | 3)
	}
	bits := math.Float64bits(f)
	if bits&(1<<34-1) == 0 {
		try(uint32(bits >> 32))
	}
	bits = math.Float64bits(f * 100)
	for _, d := range []uint64{0, 1 << 34} {
		rk := uint32((bits+d)>>32)&^3 | 1
		try(rk)
	}
	return res
}

func ref8(r model.Range) []byte { return Cat(U16(r.R1), U16(r.R2), U16(r.C1), U16(r.C2)) }

func writeSheet(c gen.Ch, g *W, b *model.Book, s *model.Sheet, o Opt, ref map[*model.Cell]int, info *Info, year int) {
	noise := func(label string) bool { return o.Noise && gen.Bool(c, label) }
	// how the sheet is displayed does not matter
	look := gen.NewSeeded(1)
	if o.Noise {
		look = gen.NewSeeded(c.U64("look"))
	}
	g.Rec(BOF, BOFData(0x10, year))
	if noise("index") {
		g.Rec(Index, Cat(U32(0), U32(0), U32(s.Rows), U32(0)))
	}
	if noise("calc") {
		g.Rec(CalcMode, U16(1))
		g.Rec(0x000C, U16(100)) // CalcCount
		g.Rec(0x000F, U16(1))   // CalcRefMode
		g.Rec(0x0011, U16(0))   // CalcIter
		g.Rec(0x0010, F64(0.001))
		g.Rec(PrintGrid, U16(0))
		g.Rec(Guts, make([]byte, 8))
	}
	if o.Noise || gen.Bool(c, "wsbool") {
		// not a dialog; any of the other flags
		flags := c.Int("wsbool flags", 0, 0xFFFF) &^ 0x0010
		g.Rec(WsBool, U16(flags))
	}
	if noise("header") {
		g.Rec(Header, Str("&Cheader", 2, gen.Bool(c, "wide header")))
		g.Rec(Footer, nil)
		g.Rec(Protect, U16(1))
	}
	if noise("columns") {
		g.Rec(DefaultRowHeight, Cat(U16(look.Int("", 0, 15)), U16(look.Int("", 0, 409))))
		g.Rec(DefColWidth, U16(8))
		col := 0
		for n := look.Int("", 1, 3); n > 0; n-- {
			// hidden, outlined
			last := col + look.Int("", 0, 5)
			g.Rec(ColInfo, Cat(U16(col), U16(last), U16(2560*look.Int("", 0, 1)), U16(0), U16(look.Int("", 0, 0xFFFF)&0x170F), U16(0)))
			col = last + 1
		}
	}
	if noise("exempt") {
		exempt(c, g)
	}
	minR, minC := 0, 0
	if len(s.Cells) > 0 && len(s.Merges) == 0 && len(s.Links) == 0 && gen.Bool(c, "tight dimensions") {
		minR, minC = s.Rows, s.Cols
		for _, x := range s.Cells {
			if x.R < minR {
				minR = x.R
			}
			if x.C < minC {
				minC = x.C
			}
		}
	}
	g.Rec(Dimensions, Cat(U32(minR), U32(s.Rows), U16(minC), U16(s.Cols), U16(0)))

	cells := append([]*model.Cell{}, s.Cells...)
	sort.SliceStable(cells, func(i, j int) bool {
		if cells[i].R != cells[j].R {
			return cells[i].R < cells[j].R
		}
		return cells[i].C < cells[j].C
	})
	busy := map[[2]int]bool{}
	for _, x := range cells {
		busy[[2]int{x.R, x.C}] = true
	}
	pos := func(x *model.Cell) []byte { return Cat(U16(x.R), U16(x.C), U16(x.XF)) }
	blank := func(r, col int) {
		if busy[[2]int{r, col}] || col >= s.Cols {
			return
		}
		xf := 0
		if len(b.XFs) > 0 {
			xf = c.Int("blank xf", 0, len(b.XFs)-1)
		}
		if col+1 < s.Cols && !busy[[2]int{r, col + 1}] && gen.Bool(c, "mulblank") {
			g.Rec(MulBlank, Cat(U16(r), U16(col), U16(xf), U16(0), U16(col+1)))
			info.count("mulblank")
			return
		}
		g.Rec(Blank, Cat(U16(r), U16(col), U16(xf)))
		info.count("blank")
	}

	row := -1
	for i := 0; i < len(cells); i++ {
		x := cells[i]
		if x.R != row {
			row = x.R
			if o.Noise && gen.Bool(c, "row records") {
				// of any height, hidden, outlined, with a format
				flags := look.Int("", 0, 0xFF)&0xF7 | 0x100
				if look.Int("", 0, 2) == 0 {
					flags = 0x100
				}
				xf := 15
				if len(b.XFs) > 0 {
					xf = look.Int("", 0, len(b.XFs)-1)
				}
				g.Rec(Row, Cat(U16(row), U16(0), U16(s.Cols), U16(look.Int("", 0, 8192)), make([]byte, 4), U32(flags|xf<<16|look.Int("", 0, 7)<<28)))
			}
		}
		if o.Noise && x.C > 0 && c.Int("blank here", 0, 5) == 5 {
			blank(x.R, x.C-1)
		}
		switch x.K {
		case model.Num:
			rks := RKFor(x.F)
			if x.Formula || len(rks) == 0 || (!o.NoPrefs && gen.Bool(c, "as number")) {
				if x.Formula {
					writeFormula(c, g, x, F64(x.F), o, info)
					info.count("formula number")
				} else {
					g.Rec(Number, Cat(pos(x), F64(x.F)))
					info.count("number")
				}
				break
			}
			// a run of RK numbers?
			run := []*model.Cell{x}
			for j := i + 1; j < len(cells); j++ {
				y := cells[j]
				if y.R == x.R && y.C == x.C+len(run) && y.K == model.Num && !y.Formula && len(RKFor(y.F)) > 0 {
					run = append(run, y)
				} else {
					break
				}
			}
			pickRK := func(y *model.Cell) []byte {
				all := RKFor(y.F)
				rk := all[0]
				if len(all) > 1 {
					rk = all[c.Int("rk form", 0, len(all)-1)]
				}
				info.count([]string{"rk float", "rk float/100", "rk int", "rk int/100"}[rk&3])
				y.PlainInt = rk&3 == 2
				return U32(int(rk))
			}
			if len(run) > 1 && gen.Bool(c, "as run") {
				d := Cat(U16(x.R), U16(x.C))
				for _, y := range run {
					d = append(d, U16(y.XF)...)
					d = append(d, pickRK(y)...)
				}
				d = append(d, U16(x.C+len(run)-1)...)
				g.Rec(MulRk, d)
				info.count("mulrk")
				i += len(run) - 1
				break
			}
			g.Rec(RK, append(pos(x), pickRK(x)...))
		case model.Bool:
			v := byte(0)
			if x.B {
				v = 1
			}
			if x.Formula {
				writeFormula(c, g, x, []byte{1, 0, v, 0, 0, 0, 0xFF, 0xFF}, o, info)
				info.count("formula boolean")
			} else {
				g.Rec(BoolErr, append(pos(x), v, 0))
				info.count("boolean")
			}
		case model.Err:
			e := model.BiffError(x.S)
			if x.Formula {
				writeFormula(c, g, x, []byte{2, 0, e, 0, 0, 0, 0xFF, 0xFF}, o, info)
				info.count("formula error")
			} else {
				g.Rec(BoolErr, append(pos(x), e, 1))
				info.count("error")
			}
		case model.Text:
			if x.Formula {
				if x.S == "" {
					writeFormula(c, g, x, []byte{3, 0, 0, 0, 0, 0, 0xFF, 0xFF}, o, info)
					info.count("formula blank")
					break
				}
				writeFormula(c, g, x, []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF}, o, info)
				cont, mixed := WriteString(g, x.S, o.WideAll && gen.Bool(c, "wide result"), c, o.SmallRecs)
				info.Conts += cont
				info.Mixed += mixed
				info.count("formula string")
			} else {
				g.Rec(LabelSst, append(pos(x), U32(ref[x])...))
				info.count("shared string")
			}
		}
		if o.Noise && c.Int("after cell", 0, 9) == 9 {
			g.Rec(DBCell, Cat(U32(20), U16(0)))
		}
	}
	if o.Noise && s.Cols > 0 && s.Rows > 0 && gen.Bool(c, "blank at end") {
		blank(s.Rows-1, s.Cols-1)
	}
	if noise("drawing") {
		// an embedded chart, with cached values of its own
		g.Rec(MsoDrawing, gen.Bytes(c, "drawing", 30))
		g.Rec(Obj, Cat(U16(0x15), U16(0x12), U16(5), U16(1), make([]byte, 14), U32(0)))
		chart := func(depth int) {}
		chart = func(depth int) {
			g.Rec(BOF, BOFData(0x20, year))
			g.Rec(Units, U16(0))
			g.Rec(Chart, make([]byte, 16))
			g.Rec(Begin, nil)
			g.Rec(End, nil)
			g.Rec(Dimensions, Cat(U32(0), U32(9), U16(0), U16(9), U16(0)))
			g.Rec(SIIndex, U16(1))
			for k := 0; k < 2; k++ {
				g.Rec(Number, Cat(U16(k), U16(k), U16(0), F64(-98765.25)))
				g.Rec(BoolErr, Cat(U16(k), U16(k+1), U16(0), []byte{1, 0}))
				g.Rec(Label, Cat(U16(k), U16(2), U16(0), Str("chart label", 2, false)))
				g.Rec(Formula, Cat(U16(k), U16(3), U16(0), F64(-98765.25), make([]byte, 8)))
			}
			if depth > 0 {
				chart(depth - 1)
				g.Rec(Dimensions, Cat(U32(0), U32(5000), U16(0), U16(200), U16(0)))
				g.Rec(Number, Cat(U16(0), U16(0), U16(0), F64(-44444)))
				g.Rec(MergeCells, Cat(U16(1), U16(0), U16(3), U16(0), U16(3)))
			}
			g.Rec(EOF, nil)
			info.count("chart")
		}
		chart(c.Int("nested charts", 0, 1))
		g.Rec(MsoDrawing, gen.Bytes(c, "drawing", 20))
		g.Rec(Obj, Cat(U16(0x15), U16(0x12), U16(0x19), U16(2), make([]byte, 14), U32(0)))
		g.Rec(TxO, Cat(make([]byte, 10), U16(5), U16(16), make([]byte, 4)))
		g.Rec(Continue, []byte("\x00notes"))
		g.Rec(Continue, make([]byte, 16))
	}
	if noise("note") {
		g.Rec(Note, Cat(U16(0), U16(0), U16(0), U16(2), Str("me", 2, false), []byte{0}))
	}
	if noise("window") {
		g.Rec(Window2, Cat(U16(0x06B6^look.Int("", 0, 0x0FFF)), make([]byte, 16)))
		g.Rec(Pane, make([]byte, 10))
		g.Rec(Selection, Cat([]byte{3}, U16(0), U16(0), U16(0), U16(1), U16(0), U16(0), []byte{0, 0}))
	}
	for i := 0; i < len(s.Merges); {
		n := len(s.Merges) - i
		if n > 1027 {
			n = 1027
		}
		if n > 1 && gen.Bool(c, "split merges") {
			n = c.Int("merges", 1, n)
		}
		d := U16(n)
		for _, m := range s.Merges[i : i+n] {
			d = append(d, ref8(m)...)
		}
		g.Rec(MergeCells, d)
		i += n
	}
	for _, l := range s.Links {
		g.Rec(HLink, HLinkData(c, l))
		if noise("tooltip") {
			g.Rec(HLinkTooltip, Cat(U16(HLinkTooltip), ref8(l.Range), []byte("t\x00i\x00p\x00\x00\x00")))
		}
	}
	if noise("conditional") {
		g.Rec(CondFmt, make([]byte, 20))
	}
	g.Rec(EOF, nil)
}

func writeFormula(c gen.Ch, g *W, x *model.Cell, value []byte, o Opt, info *Info) {
	rgce := Cat([]byte{0x1E}, U16(5)) // PtgInt
	flags, chn := 0, 0
	if o.Noise {
		d := gen.NewSeeded(c.U64("formula details"))
		flags, chn = d.Int("", 0, 0x3F)&0x2D, d.Int("", 0, 0xFFFFFFFF)
		if value[6] == 0xFF && value[7] == 0xFF {
			// these are not used
			value = append([]byte{}, value...)
			unused := []int{1, 3, 4, 5}
			if value[0] == 0 || value[0] == 3 {
				unused = append(unused, 2)
			}
			for _, i := range unused {
				value[i] = byte(d.Int("", 0, 255))
			}
		}
		for n := d.Int("", 0, 3); n > 0; n-- {
			rgce = append(rgce, 0x1E, byte(n), 0, 0x03) // PtgInt, PtgAdd
		}
	}
	g.Rec(Formula, Cat(U16(x.R), U16(x.C), U16(x.XF), value, U16(flags), U32(chn), U16(len(rgce)), rgce))
	if o.Noise {
		rng := Cat(U16(x.R), U16(x.R), []byte{byte(x.C), byte(x.C)})
		switch c.Int("formula kind", 0, 9) {
		case 6:
			g.Rec(Array, Cat(rng, U16(0), U32(0), U16(len(rgce)), rgce))
		case 7:
			g.Rec(ShrFmla, Cat(rng, []byte{0, 1}, U16(len(rgce)), rgce))
		case 8:
			g.Rec(Table, Cat(rng, make([]byte, 10)))
		}
	}
}

var (
	clsidStd  = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
	clsidURL  = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
	clsidFile = []byte{0x03, 0x03, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xC0, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x46}
)

func hlStr(s string) []byte {
	us := append(Units16(s), 0)
	return append(U32(len(us)), chars(us, true)...)
}

// HLinkData is the data of a HLink record.
func HLinkData(c gen.Ch, l model.Link) []byte {
	flags := 0
	var d []byte
	if l.Name != "" {
		flags |= 0x10 | 0x04
		d = append(d, hlStr(l.Name)...)
	}
	if c.Int("frame", 0, 4) == 4 {
		flags |= 0x80
		d = append(d, hlStr("_blank")...)
	}
	if l.Target != "" {
		flags |= 0x01
		kind := c.Int("moniker", 0, 3)
		switch {
		case kind == 3:
			flags |= 0x100
			d = append(d, hlStr(l.Target)...)
		case l.File:
			// the ANSI path only if that is enough
			wide := !ascii(l.Target) || gen.Bool(c, "wide path")
			ansi := []byte{}
			for _, r := range l.Target {
				if r > 0x7E {
					r = '_'
				}
				ansi = append(ansi, byte(r))
			}
			ansi = append(ansi, 0)
			d = Cat(d, clsidFile, U16(0), U32(len(ansi)), ansi, U16(0xFFFF), U16(0xDEAD), make([]byte, 20))
			if wide {
				p := chars(Units16(l.Target), true)
				d = Cat(d, U32(len(p)+6), U32(len(p)), U16(3), p)
			} else {
				d = append(d, U32(0)...)
			}
		default:
			flags |= 0x02
			u := chars(append(Units16(l.Target), 0), true)
			if kind == 1 {
				// optional fields behind the URL
				serial := []byte{0x79, 0x58, 0x81, 0xF4, 0x3B, 0x1D, 0x7F, 0x48, 0xAF, 0x2C, 0x82, 0x5D, 0xC4, 0x85, 0x27, 0x63}
				u = Cat(u, serial, U32(0), U32(0xA5AB0000))
			}
			d = Cat(d, clsidURL, U32(len(u)), u)
		}
	}
	if l.Location != "" {
		flags |= 0x08
		d = append(d, hlStr(l.Location)...)
	}
	if c.Int("guid", 0, 5) == 5 {
		flags |= 0x20
		d = append(d, gen.Bytes(c, "guid", 16)...)
		if gen.Bool(c, "created") {
			flags |= 0x40
			d = append(d, gen.Bytes(c, "created", 8)...)
		}
	}
	return Cat(ref8(l.Range), clsidStd, U32(2), U32(flags), d)
}

func ascii(s string) bool {
	for _, r := range s {
		if r > 0x7E {
			return false
		}
	}
	return true
}
