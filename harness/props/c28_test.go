package props

import (
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/harness/gen"
)

// kinded errors have a type to ask for
type kindA struct{ n int }
type kindB struct{ n int }

func (e *kindA) Error() string { return fmt.Sprint("kind A ", e.n) }
func (e kindB) Error() string  { return fmt.Sprint("kind B ", e.n) }

type errTree struct {
	err    error
	msg    string
	causes []error
	desc   string
}

var sentinels = []error{grate.ErrNotInFormat, grate.ErrUnknownFormat, grate.ErrInvalidScanType, io.EOF, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrPermission, errors.New("x"), errors.New("x"), errors.New("")}

func drawErr(c gen.Ch, depth int) errTree {
	k := c.Int("error", 0, 9)
	if depth == 0 && k > 3 {
		k %= 4
	}
	switch k {
	case 0, 1:
		e := sentinels[c.Int("sentinel", 0, len(sentinels)-1)]
		return errTree{e, e.Error(), []error{e}, fmt.Sprintf("%q", e)}
	case 2:
		var e error = &kindA{c.Int("A", 0, 9)}
		if gen.Bool(c, "B") {
			e = kindB{c.Int("B", 0, 9)}
		}
		return errTree{e, e.Error(), []error{e}, fmt.Sprintf("%T", e)}
	case 3:
		e := &os.PathError{Op: "open", Path: "a", Err: sentinels[c.Int("cause", 0, len(sentinels)-1)]}
		return errTree{e, e.Error(), []error{e, e.Err}, fmt.Sprintf("path(%q)", e.Err)}
	case 4:
		t := drawErr(c, depth-1)
		return errTree{fmt.Errorf("more: %w", t.err), "more: " + t.msg, t.causes, "more(" + t.desc + ")"}
	default:
		var res errTree
		var es []error
		var ds []string
		for i := c.Int("wrapped", 1, 5); i > 0; i-- {
			t := drawErr(c, depth-1)
			es = append(es, t.err)
			ds = append(ds, t.desc)
			if res.causes == nil {
				res.msg = t.msg
			}
			res.causes = append(res.causes, t.causes...)
		}
		res.err = grate.WrapErr(es...)
		res.desc = "wrap(" + strings.Join(ds, ", ") + ")"
		return res
	}
}

// csvError is the error for a malformed file.
func csvError(c *Case) errTree {
	n := c.C.Int("lines", 0, 30)
	_, err := simple.OpenCSV(c.File("a.csv", []byte(strings.Repeat("a,b\n", n)+gen.Pick(c.C, "mistake", "a,b\"c\n", "\"a\"b,c\n", "\"a,b\n"))))
	var pe *csv.ParseError
	if !errors.As(err, &pe) || pe.StartLine != n+1 {
		c.Fatalf("malformed CSV in line %d: %v is no parse error of that line", n+1, err)
	}
	return errTree{err, pe.Error(), []error{pe, pe.Err, grate.ErrNotInFormat}, "malformed CSV"}
}

// TestC28 checks that errors keep their message and all of their causes.
func TestC28(t *testing.T) {
	prop(t, func(c *Case) {
		x := drawErr(c.C, c.C.Int("depth", 1, 4))
		if gen.Rare(c.C, "malformed CSV", 10) {
			x = csvError(c)
		}
		if x.err == nil || x.err.Error() != x.msg {
			c.Fatalf("%s: message %q instead of %q", x.desc, x.err, x.msg)
		}
		for round := 0; round < 2; round++ {
			var a *kindA
			var b kindB
			var p *os.PathError
			wa, wb, wp := false, false, false
			has := func(e error) bool {
				for _, y := range x.causes {
					if y == e {
						return true
					}
				}
				return false
			}
			for _, e := range x.causes {
				if !errors.Is(x.err, e) {
					c.Fatalf("%s: is not %q (%T)", x.desc, e, e)
				}
				switch e.(type) {
				case *kindA:
					wa = true
				case kindB:
					wb = true
				case *os.PathError:
					wp = true
				}
			}
			for _, e := range sentinels {
				if errors.Is(x.err, e) != has(e) {
					c.Fatalf("%s: errors.Is %q: %v", x.desc, e, !has(e))
				}
			}
			if errors.Is(x.err, &kindA{1}) || errors.Is(x.err, kindB{99}) {
				c.Fatalf("%s: is an error that it is not", x.desc)
			}
			if errors.As(x.err, &a) != wa || wa && !has(a) {
				c.Fatalf("%s: errors.As *kindA: %v %v", x.desc, !wa, a)
			}
			if errors.As(x.err, &b) != wb || wb && !has(b) {
				c.Fatalf("%s: errors.As kindB: %v %v", x.desc, !wb, b)
			}
			if errors.As(x.err, &p) != wp || wp && !has(p) {
				c.Fatalf("%s: errors.As *os.PathError: %v %v", x.desc, !wp, p)
			}
		}
		c.Label("causes %d", min(len(x.causes), 10))
		if len(x.causes) > 1 {
			c.NonTrivial(x.desc, x.msg)
			c.Sample("%s", x.desc)
		}
	})
}
