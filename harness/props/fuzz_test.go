package props

// Coverage-guided fuzz targets for C15. The thorough tier runs them after the generated
// cases, as the engine's choices cannot be repeated from a seed.

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/biff"
	"verif/harness/cfbw"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/xlsxw"
)

// fuzzBook is a small workbook with something of everything.
func fuzzBook(seed uint64) (*model.Book, gen.Ch) {
	c := gen.NewSeeded(seed)
	b := drawBook(c, BookOpt{MaxSheets: 2, Text: true, Formats: true, Hidden: true, MaxR: 3, MaxC: 4})
	for _, s := range b.Sheets {
		if s.Rows > 0 {
			s.Merges = drawMerges(c, s, true)
			l := model.Link{Range: model.Range{R1: 0, C1: 0}}
			l.Target, l.File = drawTarget(c)
			s.Links = append(s.Links, l)
		}
	}
	return b, c
}

// within runs a case under the watchdog.
func within(f func()) {
	caseStartWall.Store(int64(time.Since(started)))
	caseStartCPU.Store(int64(cpuTime()))
	inCase.Store(true)
	defer inCase.Store(false)
	f()
}

func fuzzFile(t *testing.T, data []byte, ext string, open ...grate.OpenFunc) {
	dir := scratch
	fn := filepath.Join(dir, "fuzz."+ext)
	if err := os.WriteFile(fn, data, 0o644); err != nil {
		t.Skip(err)
	}
	within(func() {
		for _, o := range open {
			src, err := o(fn)
			if err != nil {
				if src != nil {
					t.Fatalf("both a source and an error: %v", err)
				}
				continue
			}
			exercise(src, uint64(len(data)))
		}
	})
}

func FuzzC15Stream(f *testing.F) {
	for i := uint64(0); i < 40; i++ {
		b, c := fuzzBook(i)
		o := biff.DrawOpt(c)
		o.Encrypt = i%8 == 7
		stream, _ := biff.Stream(c, b, o)
		if o.Encrypt {
			stream = biff.Encrypt(stream, "VelvetSweatshop", make([]byte, 16), make([]byte, 16))
		}
		if len(stream) < 20000 {
			f.Add(stream)
		}
	}
	f.Fuzz(func(t *testing.T, stream []byte) {
		if len(stream) > 1<<17 {
			return
		}
		data, _ := cfbw.Write(gen.Zero{}, []cfbw.Entry{{Name: "Workbook", Data: stream}}, cfbw.DrawOpt(gen.Zero{}))
		fuzzFile(t, data, "xls", xls.Open)
	})
}

func FuzzC15CFB(f *testing.F) {
	for i := uint64(0); i < 30; i++ {
		c := gen.NewSeeded(i)
		var es []cfbw.Entry
		for k, n := 0, c.Int("", 1, 3); k < n; k++ {
			es = append(es, cfbw.Entry{Name: "Book" + strings.Repeat("x", k), Data: gen.Bytes(c, "", c.Int("", 0, 6000))})
		}
		data, _ := cfbw.Write(c, es, cfbw.DrawOpt(c))
		if len(data) < 40000 {
			f.Add(data)
		}
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 1<<18 {
			return
		}
		fn := filepath.Join(scratch, "fuzz.bin")
		if err := os.WriteFile(fn, data, 0o644); err != nil {
			t.Skip(err)
		}
		within(func() {
			readCFB(fn)
			if src, err := xls.Open(fn); err == nil {
				exercise(src, 1)
			}
		})
	})
}

func readCFB(fn string) {
	d, err := cfb.Open(fn)
	if err != nil {
		return
	}
	list, _ := d.List()
	for i, n := range list {
		if i > 50 {
			break
		}
		if r, err := d.Open(n); err == nil {
			buf := make([]byte, 1<<16)
			for total := 0; total < 1<<24; {
				k, err := r.Read(buf)
				total += k
				if err != nil {
					break
				}
			}
			r.Seek(-10, 2)
			r.Read(buf[:100])
		}
	}
}

func FuzzC15Parts(f *testing.F) {
	names := []string{"xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/styles.xml", "xl/sharedStrings.xml", "xl/worksheets/_rels/sheet1.xml.rels"}
	for i := uint64(0); i < 40; i++ {
		b, c := fuzzBook(i)
		b.Sheets = b.Sheets[:1]
		o := xlsxw.DrawOpt(c)
		o.Parts = 0
		parts, _ := xlsxw.Parts(c, b, o)
		data := make([][]byte, len(names))
		for _, p := range parts {
			for k, n := range names {
				if strings.EqualFold(p.Name, n) {
					data[k] = p.Data
				}
			}
		}
		f.Add(data[0], data[1], data[2], data[3], data[4], data[5])
	}
	top := []byte(`<Relationships><Relationship Id="r" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	f.Fuzz(func(t *testing.T, wb, rels, sheet, styles, sst, srels []byte) {
		if len(wb)+len(rels)+len(sheet)+len(styles)+len(sst)+len(srels) > 1<<17 {
			return
		}
		parts := []xlsxw.Part{{Name: "_rels/.rels", Data: top}}
		for i, d := range [][]byte{wb, rels, sheet, styles, sst, srels} {
			if len(d) > 0 {
				parts = append(parts, xlsxw.Part{Name: names[i], Data: d})
			}
		}
		fuzzFile(t, xlsxw.Zip(gen.Zero{}, parts, xlsxw.Opt{}), "xlsx", xlsx.Open)
	})
}

func FuzzC15Text(f *testing.F) {
	for i := uint64(0); i < 40; i++ {
		c := gen.NewSeeded(i)
		f.Add([]byte(drawDelimited(c, gen.Pick(c, "", "csv", "tsv"))))
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 1<<16 {
			return
		}
		fuzzFile(t, data, "csv", simple.OpenCSV, simple.OpenTSV, grate.Open)
	})
}

func FuzzC15Format(f *testing.F) {
	for i := uint64(0); i < 200; i++ {
		c := gen.NewSeeded(i)
		f.Add(oddCode(c), gen.Number(c, ""), int64(c.U64("")), "text")
	}
	f.Fuzz(func(t *testing.T, code string, v float64, n int64, s string) {
		if len(code) > 3000 {
			return
		}
		within(func() {
			for _, d1904 := range []bool{false, true} {
				fm := &commonxl.Formatter{}
				fm.Mode1904(d1904)
				if fm.Add(200, code) != nil {
					continue
				}
				for _, x := range []interface{}{v, n, s, true, false, "", (*commonxl.Formatter)(nil).ConvertToDate(v)} {
					fm.Apply(200, x)
				}
				sh := &commonxl.Sheet{Formatter: fm}
				sh.Put(0, 0, v, 200)
				sh.Put(0, 1, n, 200)
				sh.Put(0, 2, s, 200)
				exercise(one{sh}, 1)
			}
		})
	})
}

// one is a source with one sheet.
type one struct{ c grate.Collection }

func (o one) List() ([]string, error)              { return []string{"x"}, nil }
func (o one) Get(string) (grate.Collection, error) { return o.c, nil }
func (o one) Close() error                         { return nil }
