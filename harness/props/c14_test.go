package props

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/biff"
	"verif/harness/cfbw"
	"verif/harness/gen"
)

// the readers that have been registered, in order of registration
var registered = []*scripted{
	{name: "tsv", pri: 10, real: simple.OpenTSV}, {name: "csv", pri: 15, real: simple.OpenCSV},
	{name: "xls", pri: 1, real: xls.Open}, {name: "xlsx", pri: 5, real: xlsx.Open},
}

// scripted readers are of one case only, later they just refuse.
type scripted struct {
	name string
	pri  int
	real grate.OpenFunc
	src  grate.Source
	err  error
	live bool
}

type fakeSource struct{ grate.Source }

var dispatch struct {
	fn    string
	calls []*scripted
	names []string
}

func (s *scripted) open(fn string) (grate.Source, error) {
	if !s.live {
		return nil, grate.ErrNotInFormat
	}
	dispatch.calls = append(dispatch.calls, s)
	dispatch.names = append(dispatch.names, fn)
	return s.src, s.err
}

type causeErr struct{ error }

func (e causeErr) Unwrap() error { return e.error }

// refusals are all the ways to say that a file is in another format
func refusal(c gen.Ch) error {
	switch c.Int("refusal", 0, 7) {
	case 1:
		return grate.WrapErr(errors.New("bad magic"), grate.ErrNotInFormat)
	case 2:
		return fmt.Errorf("while looking: %w", grate.ErrNotInFormat)
	case 3:
		return grate.WrapErr(errors.New("outer"), grate.WrapErr(errors.New("inner"), grate.ErrNotInFormat))
	case 4:
		return causeErr{grate.ErrNotInFormat}
	case 5:
		return fmt.Errorf("twice: %w", grate.WrapErr(os.ErrInvalid, grate.ErrNotInFormat))
	case 6:
		return grate.WrapErr(grate.ErrNotInFormat, os.ErrInvalid)
	case 7:
		return grate.WrapErr(errors.New("one"), errors.New("two"), grate.ErrNotInFormat)
	}
	return grate.ErrNotInFormat
}

// failures are other errors
func failure(c gen.Ch) error {
	switch c.Int("failure", 0, 6) {
	case 1:
		return grate.WrapErr(errors.New("x"), os.ErrPermission)
	case 2:
		return &fs.PathError{Op: "open", Path: "x", Err: syscall.EIO}
	case 3:
		return errors.New(grate.ErrNotInFormat.Error())
	case 4:
		return fmt.Errorf("not wrapped: %v", grate.ErrNotInFormat)
	case 5:
		return grate.ErrUnknownFormat
	case 6:
		return grate.WrapErr(errors.New("only one"))
	}
	return errors.New("failure")
}

// dispatching tries scripted readers.
func dispatching(c *Case) {
	var mine []*scripted
	var script []string
	for n := c.C.Int("readers", 1, 8); n > 0; n-- {
		s := &scripted{name: fmt.Sprintf("r%d", n)}
		switch c.C.Int("priority", 0, 3) {
		case 0:
			s.pri = c.C.Int("small priority", -2, 3)
		case 1:
			s.pri = gen.Pick(c.C, "real priority", 1, 5, 10, 15)
		default:
			s.pri = c.C.Int("any priority", -20, 40)
		}
		if gen.Bool(c.C, "same name") {
			s.name = gen.Pick(c.C, "name of another", "xls", "xlsx", "tsv", "csv", "", "r1")
		}
		switch c.C.Int("answer", 0, 7) {
		case 6:
			s.src = &fakeSource{}
			script = append(script, fmt.Sprintf("%d accepts", s.pri))
		case 7:
			s.err = failure(c.C)
			script = append(script, fmt.Sprintf("%d fails with %v", s.pri, s.err))
		default:
			s.err = refusal(c.C)
			script = append(script, fmt.Sprintf("%d refuses", s.pri))
		}
		if err := grate.Register(s.name, s.pri, s.open); err != nil {
			c.Fatalf("registering: %v", err)
		}
		mine = append(mine, s)
		registered = append(registered, s)
	}
	defer func() {
		// NB also when shrinking ends the case
		for _, s := range mine {
			s.live = false
		}
	}()
	// a file that no real reader accepts, or one of theirs
	var fn, accepts string
	switch c.C.Int("file", 0, 4) {
	case 1:
		f := drawFile(c, 0, "xls")
		fn, accepts = f.fn, "xls"
	case 2:
		f := drawFile(c, 0, "xlsx")
		fn, accepts = f.fn, "xlsx"
	case 3:
		fn, accepts = c.File("a.tsv", []byte(strings.Repeat("a\tb\n", 20))), "tsv"
	case 4:
		fn, accepts = c.File("a.csv", []byte(strings.Repeat("a,b\n", 20))), "csv"
	default:
		fn = c.File("a.csv", []byte("a,b\n\"c\"d,e\n"))
	}
	for _, s := range mine {
		s.live = true
	}
	order := append([]*scripted{}, registered...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].pri < order[j].pri })
	var want []*scripted
	var last *scripted
	for _, s := range order {
		if s.real != nil {
			if s.name == accepts {
				last = s
				break
			}
			continue
		}
		if !s.live {
			continue
		}
		want = append(want, s)
		if s.src != nil || !errors.Is(s.err, grate.ErrNotInFormat) {
			last = s
			break
		}
	}
	for round := 0; round < 2; round++ {
		dispatch.calls, dispatch.names = nil, nil
		src, err := grate.Open(fn)
		if len(dispatch.calls) != len(want) {
			c.Fatalf("%q with a file for %q: %d readers called instead of %d", script, accepts, len(dispatch.calls), len(want))
		}
		for i, s := range want {
			if dispatch.calls[i] != s || dispatch.names[i] != fn {
				c.Fatalf("%q with a file for %q: reader %d called is %s of priority %d, with %q", script, accepts, i, dispatch.calls[i].name, dispatch.calls[i].pri, dispatch.names[i])
			}
		}
		switch {
		case last == nil:
			if src != nil || !errors.Is(err, grate.ErrUnknownFormat) {
				c.Fatalf("%q with a file nobody accepts: %v, %v", script, src, err)
			}
		case last.real != nil:
			if err != nil {
				c.Fatalf("%q with a file for %q: %v", script, accepts, err)
			}
			if p := fmt.Sprintf("%T", src); strings.HasPrefix(p, "*props") {
				c.Fatalf("%q with a file for %q: got %s", script, accepts, p)
			}
			src.Close()
		case last.src != nil:
			if src != last.src || err != nil {
				c.Fatalf("%q: %v, %v from the accepting reader", script, src, err)
			}
		default:
			// NB some errors cannot be compared
			if err == nil || !reflect.DeepEqual(err, last.err) && !reflect.DeepEqual(errors.Unwrap(err), last.err) || src != nil {
				c.Fatalf("%q: %v, %v instead of the error %v", script, src, err, last.err)
			}
		}
	}
	c.Label("scripted readers")
	if len(want) > 1 {
		c.NonTrivial("scripted", script, accepts)
		c.Sample("readers %q with a file for %q: %d called", script, accepts, len(want))
	}
}

// recognising files by content, whatever they are called.
func recognising(c *Case) {
	name := gen.Pick(c.C, "file name", "a.xls", "a.xlsx", "a.csv", "a.tsv", "a.txt", "a", ".xls", "a.b.zip", "ü.CSV", "XLSX", "a.xlsx.xls", "a b'c\"d", "a.xls ", "-")
	f := drawFile(c, 0, gen.Pick(c.C, "content", "xls", "xlsx", "encrypted"))
	format := "xls"
	if strings.HasSuffix(f.fn, ".xlsx") {
		format = "xlsx"
	}
	data, _ := os.ReadFile(f.fn)
	os.Remove(f.fn)
	fn := c.File(name, data)
	src, err := grate.Open(fn)
	if err != nil {
		c.Fatalf("an %s file called %q: %v", format, name, err)
	}
	list, err := src.List()
	if err != nil || fmt.Sprintf("%q", list) != fmt.Sprintf("%q", f.base.Names) {
		c.Fatalf("an %s file called %q lists %q (%v)", format, name, list, err)
	}
	for _, s := range f.names {
		rows, err := getSheet(src, s)
		if err != nil || fmt.Sprint(rows) != fmt.Sprint(f.base.Rows[s]) {
			c.Fatalf("an %s file called %q: %q differs, %v", format, name, s, err)
		}
	}
	src.Close()
	other, same := grate.OpenFunc(xlsx.Open), grate.OpenFunc(xls.Open)
	if format == "xlsx" {
		other, same = same, other
	}
	if src, err := other(fn); !errors.Is(err, grate.ErrNotInFormat) || src != nil {
		c.Fatalf("the other reader opens an %s file called %q: %v, %v", format, name, src, err)
	}
	if src, err := same(fn); err != nil {
		c.Fatalf("its reader opens an %s file called %q: %v", format, name, err)
	} else {
		src.Close()
	}
	c.Label("content of %s", format)
	c.NonTrivial("recognised", name, f.desc)
	c.Sample("%s file called %q", format, name)
}

// refusing files that are not spreadsheets, some of them nearly so.
func refusing(c *Case) {
	var data []byte
	what := ""
	zipped := func(names ...string) []byte {
		var buf bytes.Buffer
		w := zip.NewWriter(&buf)
		for _, n := range names {
			f, _ := w.Create(n)
			f.Write(gen.Bytes(c.C, "part", c.C.Int("part size", 0, 200)))
		}
		w.Close()
		return buf.Bytes()
	}
	text := false
	switch k := c.C.Int("other content", 0, 10); k {
	case 0:
		what, text, data = "text", true, []byte(strings.Repeat(strings.ReplaceAll(gen.Text(c.C, "line", 1, 60), "\n", " ")+"\tx\n", c.C.Int("lines", 1, 40)))
	case 1:
		what, text = "nothing", true
	case 2:
		what, data = "random bytes", gen.Bytes(c.C, "random", c.C.Int("size", 1, 3000))
	case 3:
		what, data = "a ZIP file of something else", zipped("word/document.xml", "[Content_Types].xml")
	case 4:
		what, data = "an empty ZIP file", zipped()
	case 5:
		what = "a compound file of something else"
		data, _ = cfbw.Write(c.C, []cfbw.Entry{{Name: "WordDocument", Data: gen.Bytes(c.C, "doc", 5000)}}, cfbw.DrawOpt(c.C))
	case 6:
		what, data = "an HTML page", []byte("<html><body><table><tr><td>1</td></tr></table></body></html>")
	case 7:
		what, data = "magic number only", []byte("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1")
		if gen.Bool(c.C, "zip") {
			data = []byte("PK\x03\x04")
		}
	case 9, 10:
		// workbooks of other versions, or whose encryption is not supported
		b := drawBook(c.C, BookOpt{MaxSheets: 2, Text: true, MaxR: 3, MaxC: 3})
		stream, _ := biff.Stream(c.C, b, biff.DrawOpt(c.C))
		if k == 9 {
			what = "a workbook of another version"
			copy(stream[4:], biff.U16(gen.Pick(c.C, "version", 0x0500, 0x0400, 0, 0x0601, 0x0700, 0x0006, 0xffff)))
		} else {
			what = "a workbook with another encryption"
			pass := biff.Cat(biff.U16(gen.Pick(c.C, "encryption", 0, 2, 3, 4, 5, 0x100, 0xffff)), gen.Bytes(c.C, "pass", c.C.Int("pass size", 0, 60)))
			if gen.Rare(c.C, "other RC4", 30) {
				// not the version of RC4 encryption there is
				pass = biff.Cat(biff.U16(1), biff.U16(gen.Pick(c.C, "major", 0, 2, 3, 4)), biff.U16(gen.Pick(c.C, "minor", 0, 1, 2)), make([]byte, 48))
			}
			n := 4 + int(stream[2])
			stream = biff.Cat(stream[:n], biff.U16(0x2f), biff.U16(len(pass)), pass, stream[n:])
		}
		data = wrapXLS(c.C, stream)
	case 8:
		what, data = "a gzip file", append([]byte("\x1f\x8b\x08\x00"), gen.Bytes(c.C, "gz", 100)...)
	}
	if len(data) >= 8 && (string(data[:8]) == "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1") && what == "random bytes" {
		return
	}
	fn := c.File(gen.Pick(c.C, "file name", "a.xls", "a.xlsx", "a.txt", "a"), data)
	// compound files are not XLSX, ZIP files are not XLS, and the rest is neither
	cfb, isZip := bytes.HasPrefix(data, []byte("\xd0\xcf")), bytes.HasPrefix(data, []byte("PK"))
	for i, open := range []grate.OpenFunc{xls.Open, xlsx.Open} {
		src, err := open(fn)
		if err == nil || src != nil {
			c.Fatalf("reader %d opens %s: %v %v", i, what, src, err)
		}
		if cfb && i == 0 && what != "a compound file of something else" || isZip && i == 1 {
			continue
		}
		if !errors.Is(err, grate.ErrNotInFormat) {
			c.Fatalf("reader %d refuses %s with %v", i, what, err)
		}
	}
	if strings.HasPrefix(what, "a workbook") {
		// it is in the format, so no other reader is to read it as something else
		if _, err := xls.Open(fn); errors.Is(err, grate.ErrNotInFormat) {
			c.Fatalf("%s is not in the format: %v", what, err)
		}
		if src, err := grate.Open(fn); err == nil {
			c.Fatalf("%s is opened as %T", what, src)
		}
	}
	if text {
		src, err := grate.Open(fn)
		if err != nil {
			c.Fatalf("open %s: %v", what, err)
		}
		src.Close()
	}
	c.Label("content: %s", what)
	c.NonTrivial("refused", what, data)
	c.Sample("%s (%d bytes) is refused", what, len(data))
}

// unreadable files are reported with the underlying error.
func unreadable(c *Case) {
	name := gen.Pick(c.C, "file name", "a.xls", "a.xlsx", "a.csv", "a.tsv", "a.txt", "a", "ü 😀.xls")
	fn := filepath.Join(c.Dir, name)
	what, want := "", error(nil)
	switch c.C.Int("how", 0, 6) {
	case 0:
		what, want = "missing", fs.ErrNotExist
	case 1:
		what, want = "in a missing directory", fs.ErrNotExist
		fn = filepath.Join(c.Dir, "none", name)
	case 2:
		what, want = "a directory", syscall.EISDIR
		os.Mkdir(fn, 0o755)
	case 3:
		what, want = "inside of a file", syscall.ENOTDIR
		fn = filepath.Join(c.File("file", []byte("x")), name)
	case 4:
		what, want = "a name that is too long", syscall.ENAMETOOLONG
		fn = filepath.Join(c.Dir, strings.Repeat("n", 300)+name)
	case 5:
		what, want = "a link to itself", syscall.ELOOP
		os.Symlink(name, fn)
	case 6:
		what, want = "a link to nothing", fs.ErrNotExist
		os.Symlink("nothing", fn)
	}
	for i, open := range []grate.OpenFunc{grate.Open, xls.Open, xlsx.Open, simple.OpenTSV, simple.OpenCSV} {
		src, err := open(fn)
		if err == nil || src != nil {
			c.Fatalf("%s opened by reader %d: %v %v", what, i, src, err)
		}
		if (i == 2 || i == 4) && want == syscall.EISDIR {
			continue // these readers are only tried once others have read the file
		}
		if !errors.Is(err, want) || errors.Is(err, grate.ErrNotInFormat) {
			c.Fatalf("%s opened by reader %d: %v instead of %v", what, i, err, want)
		}
	}
	c.Label("unreadable: %s", what)
	c.NonTrivial("unreadable", what, name)
	c.Sample("%s (%s): %v", what, name, want)
}

func TestC14(t *testing.T) {
	prop(t, func(c *Case) {
		switch k := c.C.Int("kind of case", 0, 9); {
		case k <= 3:
			if len(registered) < 3000 {
				dispatching(c)
			}
		case k <= 6:
			recognising(c)
		case k <= 8:
			refusing(c)
		default:
			unreadable(c)
		}
	})
}
