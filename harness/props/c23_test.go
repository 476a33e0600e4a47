package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/ref"
)

// drawRest draws a number from 0 up to 1, and the fraction it is, if any.
func drawRest(c gen.Ch, n int) (f float64, frac bool) {
	max := int(math.Pow10(n)) - 1
	switch c.Int("rest", 0, 6) {
	case 0, 1, 2:
		q := c.Int("den", 2, max)
		p := c.Int("num", 1, q-1)
		if gen.Bool(c, "near the limit") {
			q = max - c.Int("below max", 0, min(9, max-2))
			p = gen.Pick(c, "num at", 1, q-1, q/2, q/3+1, p%q)
			if p < 1 || p >= q {
				p = 1
			}
		}
		return float64(p) / float64(q), true
	case 3:
		q := c.Int("den", 2, max)
		f = float64(c.Int("num", 1, q-1)) / float64(q)
		// nearly such a fraction
		f += gen.Pick(c, "off", 1e-16, -1e-16, 1e-12, -1e-12, 1e-10, -1e-10, 1e-9, 1e-7, -1e-7, 1e-5, -1e-5)
	case 4:
		f = gen.Pick(c, "small", 1e-300, 1e-20, 1e-12, 1e-10, 1e-9, 1.1e-9, 1e-6, 0.001, 0.004, 0.005, 0.0099, 0.01, 0.0101, 0.05, 0.1, 0.09, 0.111)
		if gen.Bool(c, "next to one") {
			f = 1 - f
		}
	case 5:
		f = float64(c.Int("decimals", 1, 999999)) / math.Pow10(6)
	default:
		f = float64(c.U64("any")>>11) / (1 << 53)
	}
	if f <= 0 || f >= 1 {
		f = 0.5
	}
	return f, false
}

func TestC23(t *testing.T) {
	prop(t, func(c *Case) {
		n := c.C.Int("digits", 1, 6)
		part, frac := drawRest(c.C, n)
		val := part
		neg := gen.Bool(c.C, "neg")
		if neg {
			val = -val
		}
		limit := math.Pow10(n)
		num, den := commonxl.DecimalToFraction(val, n, n)
		fail := func(why string) {
			c.Fatalf("%v with %d digits is approximated as %d/%d: %s", val, n, num, den, why)
		}
		if den <= 0 {
			fail("denominator")
		}
		if float64(den) >= limit || math.Abs(float64(num)) >= limit {
			fail("too many digits")
		}
		if num != 0 && (num < 0) != neg {
			fail("sign")
		}
		// NB TestFractions has a number shown with five digits although six would be closer
		if g := float64(num) / float64(den); frac && g != val && (n <= 4 || math.Abs(g-val) > 1e-10) {
			fail("not exact")
		}
		tooFar := func(shown *big.Rat, f float64) bool {
			diff := new(big.Rat).Sub(shown, ref.Rat(f))
			d, _ := diff.Float64()
			return math.Abs(d) > 1/limit*(1+1e-9)
		}
		if tooFar(big.NewRat(int64(num), int64(den)), val) {
			fail("not close")
		}
		key := fmt.Sprint(n, val)
		sample := fmt.Sprintf("%v with %d digits is %d/%d", val, n, num, den)
		// different limits for numerator and denominator
		nn, nd := c.C.Int("numerator digits", 1, 6), c.C.Int("denominator digits", 1, 6)
		a, b := commonxl.DecimalToFraction(val, nn, nd)
		if b <= 0 || float64(b) >= math.Pow10(nd) || math.Abs(float64(a)) >= math.Pow10(nn) || (a != 0 && (a < 0) != neg) {
			c.Fatalf("%v with %d/%d digits is approximated as %d/%d", val, nn, nd, a, b)
		}

		// mixed numbers
		whole, huge := float64(0), float64(0)
		switch c.C.Int("whole", 0, 4) {
		case 0:
		case 1:
			whole = float64(c.C.Int("small whole", 1, 20))
		case 2:
			whole = float64(c.C.Int("larger whole", 1, 10000000))
		case 3:
			whole = gen.Pick[float64](c.C, "some whole", 9, 99, 999, 65535, 1<<31, 1<<32, 1<<40, 1<<53)
		default:
			// no fraction at all
			val = math.Trunc(drawNum(c.C, "integer"))
			if math.Abs(val) > 1<<53 {
				huge = val
				val = 1 << 53
			}
			whole, part = math.Abs(val), 0
			neg = val < 0
		}
		val = whole + part
		if neg {
			val = -val
		}
		w, num, den := commonxl.DecimalToWholeFraction(val, n, n)
		fail = func(why string) {
			c.Fatalf("%v with %d digits is approximated as %d and %d/%d: %s", val, n, w, num, den, why)
		}
		if den <= 0 {
			fail("denominator")
		}
		if float64(den) >= limit || math.Abs(float64(num)) >= limit {
			fail("too many digits")
		}
		absNum := num
		if num < 0 {
			if !neg {
				fail("sign")
			}
			absNum = -num
		}
		if absNum > den {
			fail("not a proper fraction")
		}
		if w != 0 && (w < 0) != neg {
			fail("sign")
		}
		if tr := int64(val); int64(w) != tr && !(absNum == 0 && (int64(w) == tr+1 || int64(w) == tr-1)) {
			fail("another whole part")
		}
		shown := new(big.Rat).SetInt64(int64(max(w, -w)))
		shown.Add(shown, big.NewRat(int64(absNum), int64(den)))
		if tooFar(shown, math.Abs(val)) {
			fail("not close")
		}
		if n <= 4 && ref.IsFraction(val, n) {
			if g, _ := shown.Float64(); g != math.Abs(val) {
				fail("not exact")
			}
		}

		// displayed
		fm := &commonxl.Formatter{}
		ids := map[uint16]int{12: 1, 13: 2, 69: 1, 70: 2}
		if c.C.Int("custom", 0, 1) == 1 {
			q := strings.Repeat("?", min(n, 4))
			if err := fm.Add(164, "# "+q+"/"+q); err != nil {
				c.Fatalf("add: %v", err)
			}
			ids[164] = min(n, 4)
		}
		for id, k := range ids {
			s, ok := fm.Apply(id, val)
			if !ok {
				c.Fatalf("format %d is unknown", id)
			}
			if err := ref.Fraction(s, val, k); err != nil {
				c.Fatalf("format %d: %v", id, err)
			}
			if huge != 0 {
				// the digits after the sixteenth do not matter
				s, _ := fm.Apply(id, huge)
				if f, err := strconv.ParseFloat(s, 64); err != nil || strings.Trim(s, "-0123456789") != "" || math.Abs(f-huge) > 1e-15*math.Abs(huge) {
					c.Fatalf("format %d shows %v as %q", id, huge, s)
				}
			}
			if id == 13 {
				sample += fmt.Sprintf(", %v is shown as %q", val, s)
			}
		}
		c.Label("%d digits", n)
		if frac {
			c.Label("fraction")
		}
		if part != 0 {
			c.NonTrivial(key, val)
			c.Sample("%s", sample)
		}
		if gen.Rare(c.C, "file", 5) {
			bk := &model.Book{XFs: []int{0, 12, 13, 164}, Formats: []model.Format{{ID: 164, Code: "# ???/???", Check: func(s string, f float64) error { return ref.Fraction(s, f, 3) }}}}
			sh := &model.Sheet{Name: "Fractions", Rows: 1, Cols: 3}
			for k := 1; k < 4; k++ {
				sh.Cells = append(sh.Cells, &model.Cell{C: k - 1, K: model.Num, F: val, XF: k})
			}
			bk.Sheets = []*model.Sheet{sh}
			file := gen.Pick(c.C, "file format", "xls", "xlsx")
			var data []byte
			if file == "xls" {
				data, _ = storeXLS(c, bk)
			} else {
				data, _ = storeXLSX(c, bk)
			}
			src, err := openAs(c, file, c.File("a."+file, data))
			if err != nil {
				c.Fatalf("open: %v", err)
			}
			defer src.Close()
			rows, err := getSheet(src, sh.Name)
			if err != nil {
				c.Fatalf("get: %v", err)
			}
			if err := expect(bk, sh, file).compare(rows); err != nil {
				c.Fatalf("%s: %v", file, err)
			}
			c.Label("%s file", file)
		}
	})
}
