// Package cfbw writes compound files, following [MS-CFB] only.
package cfbw

import (
	"encoding/binary"
	"unicode/utf16"

	"verif/harness/gen"
)

// Entry is a stream (or a storage) of the root.
type Entry struct {
	Name    string
	Data    []byte
	Storage bool
	// InFirst places a stream inside of the first storage
	InFirst bool
}

// Opt chooses the layout.
type Opt struct {
	V4      bool // 4096 byte sectors
	Shuffle bool // sectors in any order
	FreeSec int  // unused sectors
	Unused  int  // unused directory entries
	// LeadFree puts that many unused sectors in front, so that later sectors have
	// high numbers (more than 109 FAT sectors need a DIFAT)
	LeadFree int
	// HighSize fills the upper half of stream sizes, to be ignored in version 3
	HighSize bool
}

// DrawOpt chooses a layout.
func DrawOpt(c gen.Ch) Opt {
	o := Opt{}
	o.V4 = c.Int("cfb v4", 0, 2) == 2
	o.Shuffle = gen.Bool(c, "cfb shuffle")
	o.FreeSec = c.Int("cfb free", 0, 4)
	o.Unused = gen.Pick(c, "cfb unused dirs", 0, 1, 7)
	o.HighSize = !o.V4 && c.Int("cfb high size", 0, 3) == 3
	return o
}

// Info tells what a file needed.
type Info struct {
	FATSectors, DIFATSectors, DirSectors, MiniSectors, Sectors int
	Mini, Regular                                              int
}

const (
	free   = 0xFFFFFFFF
	eoc    = 0xFFFFFFFE
	fatSec = 0xFFFFFFFD
	difSec = 0xFFFFFFFC
)

type dirent struct {
	name               string
	typ                byte
	left, right, child uint32
	start              uint32
	size               int
}

// Write returns the contents of the compound file.
func Write(c gen.Ch, entries []Entry, o Opt) ([]byte, Info) {
	var info Info
	ss := 512
	if o.V4 {
		ss = 4096
	}
	perm := func(n int) []int {
		if !o.Shuffle {
			return gen.Perm(gen.Zero{}, "", n)
		}
		return gen.Perm(gen.NewSeeded(c.U64("sectors")), "", n)
	}

	// mini stream
	type alloc struct {
		data []byte
		at   []int // sectors
	}
	var minis []*alloc
	miniOf := map[int]*alloc{}
	nMini := 0
	for i, e := range entries {
		if !e.Storage && len(e.Data) > 0 && len(e.Data) < 4096 {
			a := &alloc{data: e.Data}
			n := (len(e.Data) + 63) / 64
			a.at = make([]int, n)
			nMini += n
			minis = append(minis, a)
			miniOf[i] = a
			info.Mini++
		}
	}
	miniFree := 0
	if nMini > 0 && o.FreeSec > 0 {
		miniFree = c.Int("mini free", 0, 3)
	}
	mp := perm(nMini + miniFree)
	if nMini > 0 {
		k := 0
		for _, a := range minis {
			for i := range a.at {
				a.at[i] = mp[k]
				k++
			}
		}
	}
	miniTotal := 0
	for _, a := range minis {
		for _, x := range a.at {
			if x+1 > miniTotal {
				miniTotal = x + 1
			}
		}
	}
	info.MiniSectors = miniTotal
	mini := make([]byte, miniTotal*64)
	minifat := make([]uint32, miniTotal)
	for i := range minifat {
		minifat[i] = free
	}
	for _, a := range minis {
		for i, x := range a.at {
			copy(mini[x*64:x*64+64], a.data[i*64:])
			if i+1 < len(a.at) {
				minifat[x] = uint32(a.at[i+1])
			} else {
				minifat[x] = eoc
			}
		}
	}

	// directory entries, in any order after the root
	nd := 1 + len(entries) + o.Unused
	order := perm(nd - 1)
	slot := func(i int) uint32 { return uint32(1 + order[i]) }
	dirs := make([]dirent, nd)
	for i := range dirs {
		dirs[i] = dirent{left: free, right: free, child: free}
	}
	perSec := ss / 128
	nDirSec := (nd + perSec - 1) / perSec
	info.DirSectors = nDirSec

	// sectors of all chains
	sectors := func(n int) int { return (n + ss - 1) / ss }
	type chain struct {
		data []byte
		at   []int
	}
	var chains []*chain
	newChain := func(data []byte) *chain {
		ch := &chain{data: data, at: make([]int, sectors(len(data)))}
		chains = append(chains, ch)
		return ch
	}
	regular := map[int]*chain{}
	for i, e := range entries {
		if !e.Storage && len(e.Data) >= 4096 {
			regular[i] = newChain(e.Data)
			info.Regular++
		}
	}
	miniChain := newChain(mini)
	mfBytes := make([]byte, sectors(len(minifat)*4)*ss)
	for i := range mfBytes {
		mfBytes[i] = 0xFF
	}
	for i, x := range minifat {
		binary.LittleEndian.PutUint32(mfBytes[i*4:], x)
	}
	mfChain := newChain(mfBytes)
	dirChain := newChain(make([]byte, nDirSec*ss))

	data := 0
	for _, ch := range chains {
		data += len(ch.at)
	}
	data += o.FreeSec
	// FAT and DIFAT sectors for everything, including themselves
	nFat, nDif := 0, 0
	for {
		total := o.LeadFree + data + nFat + nDif
		f := (total*4 + ss - 1) / ss
		d := 0
		if f > 109 {
			d = (f - 109 + ss/4 - 2) / (ss/4 - 1)
		}
		if f == nFat && d == nDif {
			break
		}
		nFat, nDif = f, d
	}
	info.FATSectors, info.DIFATSectors = nFat, nDif
	total := o.LeadFree + data + nFat + nDif
	info.Sectors = total

	sp := perm(data + nFat + nDif)
	k := 0
	next := func() int {
		x := sp[k] + o.LeadFree
		k++
		return x
	}
	if o.Shuffle {
		// the sectors of all chains are permuted anyhow
	}
	fat := make([]uint32, nFat*ss/4)
	for i := range fat {
		fat[i] = free
	}
	out := make([]byte, (1+total)*ss)
	put := func(sec int, b []byte) { copy(out[(1+sec)*ss:(2+sec)*ss], b) }
	for _, ch := range chains {
		for i := range ch.at {
			ch.at[i] = next()
		}
	}
	var fatAt, difAt []int
	for i := 0; i < nFat; i++ {
		x := next()
		fat[x] = fatSec
		fatAt = append(fatAt, x)
	}
	for i := 0; i < nDif; i++ {
		x := next()
		fat[x] = difSec
		difAt = append(difAt, x)
	}
	// what is left is unused, and filled with garbage
	for k < len(sp) {
		put(next(), gen.Bytes(gen.NewSeeded(uint64(k)), "", ss))
	}
	first := func(at []int) uint32 {
		if len(at) == 0 {
			return eoc
		}
		return uint32(at[0])
	}

	// fill the directory
	var root, sub []int
	firstStorage := -1
	for i, e := range entries {
		if e.Storage && firstStorage < 0 {
			firstStorage = i
		}
	}
	for i, e := range entries {
		d := &dirs[slot(i)]
		d.name = e.Name
		d.typ = 2
		d.size = len(e.Data)
		d.start = eoc
		if e.Storage {
			d.typ = 1
			d.size = 0
			d.start = 0
		} else if a := miniOf[i]; a != nil {
			d.start = uint32(a.at[0])
		} else if ch := regular[i]; ch != nil {
			d.start = first(ch.at)
		}
		if e.InFirst && firstStorage >= 0 && i != firstStorage && !e.Storage {
			sub = append(sub, i)
		} else {
			root = append(root, i)
		}
	}
	dirs[0] = dirent{name: "Root Entry", typ: 5, left: free, right: free, start: first(miniChain.at), size: len(mini)}
	var tree func(ids []int) uint32
	tree = func(ids []int) uint32 {
		if len(ids) == 0 {
			return free
		}
		m := len(ids) / 2
		d := &dirs[slot(ids[m])]
		d.left = tree(ids[:m])
		d.right = tree(ids[m+1:])
		return slot(ids[m])
	}
	sortByName := func(ids []int) {
		less := func(a, b string) bool {
			ua, ub := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
			if len(ua) != len(ub) {
				return len(ua) < len(ub)
			}
			return upper(a) < upper(b)
		}
		for i := range ids {
			for j := i; j > 0 && less(entries[ids[j]].Name, entries[ids[j-1]].Name); j-- {
				ids[j], ids[j-1] = ids[j-1], ids[j]
			}
		}
	}
	sortByName(root)
	sortByName(sub)
	dirs[0].child = tree(root)
	if firstStorage >= 0 {
		dirs[slot(firstStorage)].child = tree(sub)
	}
	dd := dirChain.data
	for i := 0; i < nDirSec*perSec; i++ {
		b := dd[i*128 : i*128+128]
		d := dirent{left: free, right: free, child: free}
		if i < len(dirs) {
			d = dirs[i]
		}
		us := utf16.Encode([]rune(d.name))
		for j, u := range us {
			binary.LittleEndian.PutUint16(b[j*2:], u)
		}
		if d.typ != 0 {
			binary.LittleEndian.PutUint16(b[64:], uint16(len(us)*2+2))
		}
		b[66] = d.typ
		b[67] = 1
		binary.LittleEndian.PutUint32(b[68:], d.left)
		binary.LittleEndian.PutUint32(b[72:], d.right)
		binary.LittleEndian.PutUint32(b[76:], d.child)
		binary.LittleEndian.PutUint32(b[116:], d.start)
		binary.LittleEndian.PutUint64(b[120:], uint64(d.size))
		if o.HighSize && !o.V4 && d.typ != 0 {
			binary.LittleEndian.PutUint32(b[124:], uint32(0x01020304*(i+1)))
		}
	}

	for _, ch := range chains {
		for i, x := range ch.at {
			end := (i + 1) * ss
			if end > len(ch.data) {
				end = len(ch.data)
			}
			put(x, ch.data[i*ss:end])
			if i+1 < len(ch.at) {
				fat[x] = uint32(ch.at[i+1])
			} else {
				fat[x] = eoc
			}
		}
	}
	for i, x := range fatAt {
		b := make([]byte, ss)
		for j := 0; j < ss/4; j++ {
			binary.LittleEndian.PutUint32(b[j*4:], fat[i*ss/4+j])
		}
		put(x, b)
	}

	h := out[:ss]
	copy(h, []byte{0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1})
	le := binary.LittleEndian
	le.PutUint16(h[24:], 0x3E)
	le.PutUint16(h[26:], 3)
	le.PutUint16(h[28:], 0xFFFE)
	le.PutUint16(h[30:], 9)
	le.PutUint16(h[32:], 6)
	if o.V4 {
		le.PutUint16(h[26:], 4)
		le.PutUint16(h[30:], 12)
		le.PutUint32(h[40:], uint32(nDirSec))
	}
	le.PutUint32(h[44:], uint32(nFat))
	le.PutUint32(h[48:], first(dirChain.at))
	le.PutUint32(h[56:], 4096)
	le.PutUint32(h[60:], first(mfChain.at))
	le.PutUint32(h[64:], uint32(len(mfChain.at)))
	le.PutUint32(h[68:], eoc)
	if nDif > 0 {
		le.PutUint32(h[68:], uint32(difAt[0]))
	}
	le.PutUint32(h[72:], uint32(nDif))
	for i := 0; i < 109; i++ {
		x := uint32(free)
		if i < len(fatAt) {
			x = uint32(fatAt[i])
		}
		le.PutUint32(h[76+i*4:], x)
	}
	for i, x := range difAt {
		b := make([]byte, ss)
		per := ss/4 - 1
		for j := 0; j < per; j++ {
			v := uint32(free)
			if n := 109 + i*per + j; n < len(fatAt) {
				v = uint32(fatAt[n])
			}
			le.PutUint32(b[j*4:], v)
		}
		v := uint32(eoc)
		if i+1 < len(difAt) {
			v = uint32(difAt[i+1])
		}
		le.PutUint32(b[per*4:], v)
		put(x, b)
	}
	return out, info
}

func upper(s string) string {
	b := []rune(s)
	for i, r := range b {
		if r >= 'a' && r <= 'z' {
			b[i] = r - 32
		}
	}
	return string(b)
}
