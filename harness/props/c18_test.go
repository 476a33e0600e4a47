package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/gen"
)

// openFiles lists the open files in a directory.
func openFiles(dir string) (res []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ENV", err)
		os.Exit(79)
	}
	for _, fd := range fds {
		to, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(to, dir) {
			res = append(res, to)
		}
	}
	return
}

func TestC18(t *testing.T) {
	prop(t, func(c *Case) {
		// NB the garbage collector would close files that nobody else does
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		dir, err := filepath.EvalSymlinks(c.Dir)
		if err != nil {
			c.Fatal(err)
		}
		var fn, kind string
		var log []string
		var base *aFile
		switch k := c.C.Int("file", 0, 9); {
		case k <= 3:
			base = drawFile(c, 0)
			fn, kind = base.fn, "intact "+filepath.Ext(base.fn)
		case k <= 8:
			data, ext, what, l := damaged(c)
			fn, kind, log = c.File("a."+ext, data), "damaged "+what, l
			if gen.Rare(c.C, "odd name", 10) {
				fn = c.File(gen.Pick(c.C, "name", "a.csv", "a.tsv", "a", "a.xlsx"), data)
			}
		default:
			kind = "unreadable"
			fn = filepath.Join(c.Dir, gen.Pick(c.C, "name", "a.xls", "a.xlsx", "a.csv", "a"))
			if gen.Bool(c.C, "directory") {
				os.Mkdir(fn, 0o755)
			}
		}
		if left := openFiles(dir); len(left) > 0 {
			c.Fatalf("%s %q: still open after reading it: %q", kind, log, left)
		}
		seed := c.C.U64("scans")
		opened, failed := 0, 0
		var srcs []grate.Source
		var whos []string
		for i, open := range []grate.OpenFunc{grate.Open, xls.Open, xlsx.Open, simple.OpenTSV, simple.OpenCSV, func(fn string) (grate.Source, error) {
			_, err := cfb.Open(fn)
			return nil, err
		}} {
			before := openFiles(dir)
			src, err := open(fn)
			who := []string{"grate.Open", "xls.Open", "xlsx.Open", "simple.OpenTSV", "simple.OpenCSV", "cfb.Open"}[i]
			if err != nil || src == nil {
				failed++
				if left := openFiles(dir); len(left) > len(before) {
					c.Fatalf("%s %q: still open after %s has failed with %v: %q", kind, log, who, err, left)
				}
				continue
			}
			opened++
			srcs, whos = append(srcs, src), append(whos, who)
		}
		// use the sources to some degree, close them in any order
		hand := c.C.Int("use", 0, 3)
		for _, i := range gen.Perm(c.C, "order", len(srcs)) {
			src, who := srcs[i], whos[i]
			var kept []grate.Collection
			var first [][]string
			if hand > 0 {
				names, _ := src.List()
				for k, n := range append(names, "no such sheet") {
					if k > 20 {
						break
					}
					if hand == 2 && k == 1 {
						// the file changes meanwhile
						os.Truncate(fn, int64(c.C.Int("new size", 0, 4000)))
						hand = 3
					}
					col, err := src.Get(n)
					if err != nil || col == nil {
						continue
					}
					if col.Next() {
						kept = append(kept, col)
						first = append(first, col.Strings())
					}
				}
			}
			var again [][]string
			for _, col := range kept {
				again = append(again, append([]string{}, col.Strings()...))
			}
			if err := src.Close(); err != nil && base != nil && hand < 2 {
				c.Fatalf("%s %q: closing what %s has opened: %v", kind, log, who, err)
			}
			if left := openFiles(dir); len(left) > 0 && i == len(srcs)-1 && len(srcs) == 1 {
				c.Fatalf("%s %q: still open after closing what %s has opened: %q", kind, log, who, left)
			}
			for k, col := range kept {
				if !reflect.DeepEqual(first[k], again[k]) || !reflect.DeepEqual(col.Strings(), first[k]) {
					c.Fatalf("%s %q: a row from %s has changed by closing: %q", kind, log, who, first[k])
				}
				for n := 0; n < 20 && col.Next(); n++ {
					col.Strings()
				}
			}
		}
		if left := openFiles(dir); len(left) > 0 {
			c.Fatalf("%s %q: still open after closing everything %q have opened: %q", kind, log, whos, left)
		}
		// the whole of it, too
		if src, err := grate.Open(fn); err == nil {
			exercise(src, seed) // closes it
		}
		if left := openFiles(dir); len(left) > 0 {
			c.Fatalf("%s %q: still open in the end: %q", kind, log, left)
		}
		c.Label("%s", kind)
		if opened > 0 {
			c.Label("opened")
		}
		if failed > 0 {
			c.Label("failed to open")
		}
		if opened > 0 || base == nil {
			data, _ := os.ReadFile(fn)
			c.NonTrivial(kind, log, data)
			c.Sample("%s %q: opened by %q, %d readers failed", kind, log, whos, failed)
		}
	})
}
