package props

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"testing"
	"testing/iotest"

	"github.com/pbnjay/grate/xls/cfb"

	"verif/harness/cfbw"
	"verif/harness/gen"
)

var streamNames = []string{"Workbook", "Book", "\x05SummaryInformation", "\x05DocumentSummaryInformation", "a", "A long stream name of 31 units.", "é", "中文", "x y", "\x01CompObj", "dir", "0", "Root", "PROJECT"}

func streamSize(c gen.Ch) int {
	switch c.Int("size class", 0, 4) {
	case 0:
		return c.Int("size", 1, 200)
	case 1:
		return 64*c.Int("mini sectors", 1, 64) + c.Int("delta", -1, 1)
	case 2:
		return 4096 + c.Int("around cutoff", -2, 2)
	case 3:
		n := 512*c.Int("sectors", 8, 40) + c.Int("delta", -1, 1)
		return n
	default:
		return c.Int("size", 4096, 30000)
	}
}

func TestC04(t *testing.T) {
	prop(t, func(c *Case) {
		var entries []cfbw.Entry
		n := c.C.Int("streams", 1, 6)
		if gen.Rare(c.C, "many streams", 8) {
			n = c.C.Int("number of streams", 7, 60)
			if gen.Rare(c.C, "very many", 4) {
				n = c.C.Int("number of streams", 250, 300)
				c.Label("more than 250 streams")
			}
		}
		storage := gen.Bool(c.C, "storage")
		p := gen.Perm(c.C, "names", min(n, len(streamNames)))
		for i := 0; i < n; i++ {
			e := cfbw.Entry{Name: fmt.Sprintf("s%d", i)}
			if i < len(p) {
				e.Name = streamNames[p[i]]
			}
			size := streamSize(c.C)
			if c.C.Int("empty", 0, 15) == 15 {
				size = 0
			}
			e.Data = gen.Bytes(c.C, "data", size)
			e.InFirst = storage && gen.Bool(c.C, "in storage")
			entries = append(entries, e)
		}
		if c.C.Int("crowd", 0, 255) == 150 {
			// the directory and the allocation table of the mini stream are long, too
			r := gen.NewSeeded(c.C.U64("crowd data"))
			for i, n := 0, c.C.Int("crowd size", 1020, 1300); i < n; i++ {
				entries = append(entries, cfbw.Entry{Name: fmt.Sprintf("x%d", i), Data: gen.Bytes(r, "", r.Int("", 1, 4095))})
			}
			c.Label("more than 1000 streams")
		}
		if storage && gen.Rare(c.C, "same name", 30) {
			// an embedded document has a stream of the same name
			e := entries[c.C.Int("embedded", 0, len(entries)-1)]
			for i := range entries {
				if entries[i].Name == e.Name {
					entries[i].InFirst = false
				}
			}
			e.InFirst = true
			e.Data = gen.Bytes(c.C, "data", streamSize(c.C))
			at := c.C.Int("at", 0, len(entries))
			entries = append(entries[:at:at], append([]cfbw.Entry{e}, entries[at:]...)...)
			c.Label("same name in a storage")
		}
		inRoot := map[string]bool{}
		for _, e := range entries {
			if !e.InFirst {
				inRoot[e.Name] = true
			}
		}
		if storage {
			entries = append([]cfbw.Entry{{Name: "Storage 1", Storage: true}, {Name: "Storage 2", Storage: true}}, entries...)
		}
		o := cfbw.DrawOpt(c.C)
		if gen.Rare(c.C, "large", 3) {
			o.LeadFree = gen.Pick(c.C, "lead", 130, 1100, 14000, 14100, 30500, 30500)
			if c.C.Int("long DIFAT", 0, 7) == 7 {
				o.LeadFree = c.C.Int("long lead", 46000, 66000)
			}
			if o.V4 {
				o.LeadFree = min(o.LeadFree, 1100)
			}
		}
		data, info := cfbw.Write(c.C, entries, o)
		doc, err := cfb.Open(c.File("a.bin", data))
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		list, err := doc.List()
		if err != nil {
			c.Fatalf("list: %v", err)
		}
		var want []string
		for _, e := range entries {
			if !e.Storage {
				want = append(want, e.Name)
			}
		}
		sort.Strings(want)
		got := append([]string{}, list...)
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fatalf("listed %q instead of %q", got, want)
		}
		for _, name := range []string{"no such stream", "Root Entry", "Storage 1", "", "workboo"} {
			if r, err := doc.Open(name); err == nil {
				c.Fatalf("opened %q, which is not a stream: %v", name, r)
			}
		}
		var readers []io.ReadSeeker
		var models []*bytes.Reader
		for i, e := range entries {
			if e.Storage || e.InFirst && inRoot[e.Name] {
				continue
			}
			if len(e.Data) == 0 {
				c.Label("empty stream")
			}
			r, err := doc.Open(e.Name)
			if err != nil {
				c.Fatalf("open stream %q of %d bytes: %v", e.Name, len(e.Data), err)
			}
			k := 0
			if i < 320 {
				k = c.C.Int("how", 0, 3)
			}
			if k == 0 {
				if all, err := io.ReadAll(r); err != nil || !bytes.Equal(all, e.Data) {
					c.Fatalf("stream %q: %d of %d bytes, %v, first difference at %d", e.Name, len(all), len(e.Data), err, diffAt(all, e.Data))
				}
			} else if k == 1 && len(e.Data) < 6000 {
				if err := iotest.TestReader(r, e.Data); err != nil {
					c.Fatalf("stream %q of %d bytes: %v", e.Name, len(e.Data), err)
				}
			} else {
				readers = append(readers, r)
				models = append(models, bytes.NewReader(e.Data))
			}
		}
		// several streams are read at the same time
		ops := 0
		for len(readers) > 0 && ops < 60 {
			if ops >= 6 && c.C.Int("stop", 0, 11) == 0 {
				break
			}
			ops++
			i := c.C.Int("reader", 0, len(readers)-1)
			step(c, readers[i], models[i])
		}
		for i := range readers {
			// everything, at the end
			readers[i].Seek(0, io.SeekStart)
			models[i].Seek(0, io.SeekStart)
			a, err := io.ReadAll(readers[i])
			b, _ := io.ReadAll(models[i])
			if err != nil || !bytes.Equal(a, b) {
				c.Fatalf("after seeking back: %d of %d bytes, %v", len(a), len(b), err)
			}
		}
		if info.DIFATSectors > 0 {
			c.Label("DIFAT")
		}
		if info.FATSectors > 1 {
			c.Label("several FAT sectors")
		}
		if info.DirSectors > 1 {
			c.Label("several directory sectors")
		}
		if info.Mini > 0 {
			c.Label("mini streams")
		}
		if info.Regular > 0 {
			c.Label("regular streams")
		}
		if o.V4 {
			c.Label("4096-byte sectors")
		}
		if len(want) > 1 || ops > 3 {
			c.NonTrivial(want, len(data), info, ops)
			c.Sample("%d streams %+v %+v, %d reads and seeks", len(want), o, info, ops)
		}
	})
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// step does a read or seek on both.
func step(c *Case, r io.ReadSeeker, m *bytes.Reader) {
	size := m.Size()
	switch c.C.Int("op", 0, 4) {
	case 0, 1, 2:
		n := gen.Pick(c.C, "read", 0, 1, 2, 3, 63, 64, 65, 511, 512, 513, 1000, 4096, 5000, 100000)
		buf, want := make([]byte, n), make([]byte, n)
		full := gen.Bool(c.C, "full")
		if full {
			k, err := io.ReadFull(r, buf)
			k2, err2 := io.ReadFull(m, want)
			if k != k2 || (err == nil) != (err2 == nil) || (err != err2) || !bytes.Equal(buf[:k], want[:k]) {
				c.Fatalf("ReadFull of %d: %d, %v instead of %d, %v", n, k, err, k2, err2)
			}
			return
		}
		// short reads are allowed
		k, err := r.Read(buf)
		if k > n || k < 0 {
			c.Fatalf("Read of %d returned %d", n, k)
		}
		if k == 0 && n > 0 && err == nil {
			c.Fatalf("Read of %d returned nothing and no error", n)
		}
		k2, _ := io.ReadFull(m, want[:k])
		if k2 != k || !bytes.Equal(buf[:k], want[:k]) {
			c.Fatalf("Read of %d gave other data", n)
		}
		if err != nil && (err != io.EOF || m.Len() > 0) {
			c.Fatalf("Read of %d: %v with %d bytes left", n, err, m.Len())
		}
	default:
		whence := c.C.Int("whence", 0, 2)
		var off int64
		switch c.C.Int("offset class", 0, 3) {
		case 0:
			off = int64(c.C.Int("offset", 0, int(size)+10))
		case 1:
			off = -int64(c.C.Int("offset", 0, int(size)+10))
		case 2:
			off = int64(gen.Pick(c.C, "unit", 64, 512, 4096) * c.C.Int("multiple", -5, 20))
		default:
			off = size + int64(c.C.Int("offset", -3, 70000))
		}
		if c.C.Int("bad whence", 0, 30) == 30 {
			whence = 3
		}
		p, err := r.Seek(off, whence)
		p2, err2 := m.Seek(off, whence)
		if (err == nil) != (err2 == nil) || err == nil && p != p2 {
			c.Fatalf("Seek(%d, %d): %d, %v instead of %d, %v", off, whence, p, err, p2, err2)
		}
	}
	p, err := r.Seek(0, io.SeekCurrent)
	p2, _ := m.Seek(0, io.SeekCurrent)
	if err != nil || p != p2 {
		c.Fatalf("position %d, %v instead of %d", p, err, p2)
	}
}
