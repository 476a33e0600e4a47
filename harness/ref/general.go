// Package ref says what a value should look like, independent of the code under
// test. Where several renderings are right all of them are accepted.
package ref

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// Rat is the exact value of a float.
func Rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// General checks the display of a number without a number format.
func General(s string, f float64) error {
	want := strconv.FormatFloat(f, 'f', -1, 64)
	if len(strings.TrimPrefix(want, "-")) <= 11 {
		if s != want {
			return fmt.Errorf("%v is displayed as %q instead of %q", f, s, want)
		}
		return nil
	}
	if f == math.Trunc(f) && s == want {
		return nil
	}
	p, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return fmt.Errorf("%v is displayed as %q, which is no number", f, s)
	}
	if p == f {
		return nil
	}
	diff := new(big.Rat).Sub(Rat(p), Rat(f))
	diff.Abs(diff)
	lim := new(big.Rat).Mul(new(big.Rat).Abs(Rat(f)), Rat(5.0001e-6))
	if diff.Cmp(lim) > 0 || (p < 0) != (f < 0) {
		return fmt.Errorf("%v is displayed as %q", f, s)
	}
	return nil
}

var plainDigits = regexp.MustCompile(`^([0-9]+)(\.([0-9]*))?$`)

// Digits describes how the magnitude of a number is shown.
type Digits struct {
	MinInt         int // leading zeros
	MinDec, MaxDec int
	Point          bool // a decimal point, even without decimals
	Commas         bool
	Exact          bool // the magnitude is exact (an integer)
	BlankZero      bool // no digits are shown for zero
}

// zeroShown returns true if s consists of zeros only.
func zeroShown(s string) bool { return strings.Trim(s, "0.,") == "" }

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(n))), nil)
	r := new(big.Rat).SetInt(p)
	if n < 0 {
		r.Inv(r)
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// near checks that two numbers differ by at most half a unit of the last decimal.
func near(shown, want *big.Rat, dec int, exact bool) bool {
	diff := new(big.Rat).Sub(shown, want)
	diff.Abs(diff)
	lim := new(big.Rat).Quo(pow10(-dec), big.NewRat(2, 1))
	if !exact {
		// scaling and rounding is done with floats
		tol := new(big.Rat).Mul(new(big.Rat).Abs(want), Rat(1e-14))
		lim.Add(lim, tol)
	}
	return diff.Cmp(lim) <= 0
}

// Check that s shows the magnitude mag.
func (d Digits) Check(s string, mag *big.Rat) error {
	bad := func(why string) error {
		f, _ := mag.Float64()
		return fmt.Errorf("%v is shown as %q: %s", f, s, why)
	}
	body := s
	if d.Commas {
		ip, rest := s, ""
		if i := strings.IndexByte(s, '.'); i >= 0 {
			ip, rest = s[:i], s[i:]
		}
		groups := strings.Split(ip, ",")
		for i, g := range groups {
			if i > 0 && len(g) != 3 || i == 0 && (len(g) > 3 || len(g) == 0 && len(groups) > 1) {
				return bad("thousands separators")
			}
		}
		body = strings.Join(groups, "") + rest
	} else if strings.Contains(s, ",") {
		return bad("thousands separators")
	}
	if d.BlankZero && body != "" && zeroShown(body) {
		return bad("zero is blank")
	}
	if d.MinInt == 0 && (body == "" || body[0] == '.') {
		// no digits at all for zero
		body = "0" + body
	}
	m := plainDigits.FindStringSubmatch(body)
	if m == nil {
		return bad("digits expected")
	}
	ip, dec := m[1], m[3]
	if len(ip) < d.MinInt {
		return bad("leading zeros")
	}
	if len(ip) > d.MinInt && len(ip) > 1 && ip[0] == '0' {
		return bad("leading zeros")
	}
	if len(dec) < d.MinDec || len(dec) > d.MaxDec {
		return bad("number of decimals")
	}
	if len(dec) > d.MinDec && dec[len(dec)-1] == '0' {
		return bad("needless decimals")
	}
	if m[2] == "." && !d.Point && d.MaxDec == 0 {
		return bad("decimal point")
	}
	shown, ok := new(big.Rat).SetString(ip + "." + dec + "0")
	if !ok || !near(shown, mag, d.MaxDec, d.Exact) {
		return bad("another number")
	}
	return nil
}

var sciDigits = regexp.MustCompile(`^([0-9]+)(\.([0-9]*))?E([+-]?)([0-9]+)$`)

// Sci checks scientific notation with that many decimals, and 1 up to maxInt digits
// before the point.
func Sci(s string, mag *big.Rat, minDec, maxDec, maxInt int) error {
	f, _ := mag.Float64()
	m := sciDigits.FindStringSubmatch(s)
	if m == nil {
		return fmt.Errorf("%v is shown as %q: scientific notation expected", f, s)
	}
	if len(m[1]) > maxInt || (m[1][0] == '0' && mag.Sign() != 0) || len(m[3]) < minDec || len(m[3]) > maxDec {
		return fmt.Errorf("%v is shown as %q: mantissa", f, s)
	}
	if len(m[3]) > minDec && strings.HasSuffix(m[3], "0") {
		return fmt.Errorf("%v is shown as %q: needless decimals", f, s)
	}
	e, err := strconv.Atoi(m[5])
	if err != nil || e > 400 {
		return fmt.Errorf("%v is shown as %q: exponent", f, s)
	}
	if m[4] == "-" {
		e = -e
	}
	shown, ok := new(big.Rat).SetString(m[1] + "." + m[3] + "0")
	if !ok {
		return fmt.Errorf("%v is shown as %q", f, s)
	}
	scaled := new(big.Rat).Mul(mag, pow10(-e))
	if !near(shown, scaled, maxDec, false) {
		return fmt.Errorf("%v is shown as %q: another number", f, s)
	}
	return nil
}

// Magnitude and sign of an int64 or float64.
func Magnitude(v interface{}) (mag *big.Rat, neg, exact bool) {
	switch v := v.(type) {
	case int64:
		mag = new(big.Rat).SetInt64(v)
		exact = true
	case float64:
		mag = Rat(v)
	default:
		panic(fmt.Sprintf("no number: %T", v))
	}
	neg = mag.Sign() < 0
	mag.Abs(mag)
	return
}

// Builtin numeric formats, by class.
var (
	Plain0    = []int{1, 59}
	Plain2    = []int{2, 60}
	Comma0    = []int{3, 61}
	Comma2    = []int{4, 62}
	Percent0  = []int{9, 67}
	Percent2  = []int{10, 68}
	Frac1     = []int{12, 69}
	Frac2     = []int{13, 70}
	NumberIDs = []int{1, 2, 3, 4, 9, 10, 11, 12, 13, 37, 38, 39, 40, 41, 42, 43, 44, 48, 59, 60, 61, 62, 67, 68, 69, 70}
)

func in(id int, ids []int) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// Builtin checks the display of a number (int64 or float64) by a built-in numeric format.
func Builtin(id int, s string, v interface{}) error {
	mag, neg, exact := Magnitude(v)
	body := s
	fail := func(why string) error { return fmt.Errorf("format %d shows %v as %q: %s", id, v, s, why) }
	// removes the sign, which is optional when all digits are zero
	sign := func() error {
		minus := strings.HasPrefix(body, "-")
		if minus {
			body = body[1:]
		}
		if minus != neg && !(neg && zeroShown(strings.TrimRight(body, "%"))) {
			return fail("sign")
		}
		return nil
	}
	parens := func(alsoMinus bool) error {
		if strings.HasPrefix(body, "(") && strings.HasSuffix(body, ")") {
			body = strings.TrimSpace(body[1 : len(body)-1])
			if !neg {
				return fail("sign")
			}
			return nil
		}
		if alsoMinus {
			return sign()
		}
		if neg && !zeroShown(body) {
			return fail("sign")
		}
		return nil
	}
	d := Digits{MinInt: 1, Exact: exact}
	dec := func(n int) { d.MinDec, d.MaxDec = n, n }
	switch {
	case in(id, Plain0):
	case in(id, Plain2):
		dec(2)
	case in(id, Comma0):
		d.Commas = true
	case in(id, Comma2):
		d.Commas = true
		dec(2)
	case in(id, Percent0), in(id, Percent2):
		if in(id, Percent2) {
			dec(2)
		}
		if !strings.HasSuffix(body, "%") {
			return fail("percent sign")
		}
		body = body[:len(body)-1]
		mag.Mul(mag, big.NewRat(100, 1))
		d.Exact = false
		if strings.Contains(body, "%") {
			return fail("percent sign")
		}
	case id == 37, id == 38, id == 39, id == 40:
		d.Commas = true
		if id >= 39 {
			dec(2)
		}
		body = strings.TrimSpace(body)
		if err := parens(false); err != nil {
			return err
		}
		return wrap(fail, d.Check(body, mag))
	case id >= 41 && id <= 44:
		d.Commas = true
		if id >= 43 {
			dec(2)
		}
		body = strings.TrimSpace(body)
		if id == 42 || id == 44 {
			// $5 $(5) ($5) -$5 $-5
			if strings.Count(body, "$") != 1 {
				return fail("currency sign")
			}
			if i := strings.IndexByte(body, '$'); i > 1 || (i == 1 && body[0] != '-' && body[0] != '(') {
				return fail("currency sign")
			}
			body = strings.Replace(body, "$", "", 1)
			body = strings.TrimSpace(body)
		}
		if mag.Sign() == 0 {
			if body != "-" {
				return fail("dash")
			}
			return nil
		}
		if err := parens(true); err != nil {
			return err
		}
		return wrap(fail, d.Check(body, mag))
	case id == 11:
		if err := sign(); err != nil {
			return err
		}
		return wrap(fail, Sci(body, mag, 2, 2, 1))
	case id == 48:
		if err := sign(); err != nil {
			return err
		}
		return wrap(fail, Sci(body, mag, 1, 1, 3))
	case in(id, Frac1):
		return Fraction(s, v, 1)
	case in(id, Frac2):
		return Fraction(s, v, 2)
	default:
		panic(fmt.Sprint("not a numeric format: ", id))
	}
	if err := sign(); err != nil {
		return err
	}
	return wrap(fail, d.Check(body, mag))
}

func wrap(fail func(string) error, err error) error {
	if err == nil {
		return nil
	}
	return fail(err.Error())
}

var fracForm = regexp.MustCompile(`^(-?)(?:([0-9]+)(?: |$))?(?:([0-9]+)/([0-9]+))?$`)

// Fraction checks the display of a number as a fraction with at most n digits.
func Fraction(s string, v interface{}, n int) error {
	mag, neg, _ := Magnitude(v)
	fail := func(why string) error { return fmt.Errorf("%v is displayed as %q: %s", v, s, why) }
	m := fracForm.FindStringSubmatch(s)
	if m == nil || s == "" || s == "-" || strings.HasSuffix(s, " ") {
		return fail("not a fraction")
	}
	shown := new(big.Rat)
	if m[2] != "" {
		if len(m[2]) > 1 && m[2][0] == '0' {
			return fail("leading zeros")
		}
		shown.SetString(m[2])
		if m[3] != "" && shown.Sign() == 0 {
			return fail("zero part")
		}
	}
	if m[3] != "" {
		if strings.Trim(m[3], "0") == "" || strings.Trim(m[4], "0") == "" {
			return fail("zero part")
		}
		if len(m[3]) > n || len(m[4]) > n || m[3][0] == '0' || m[4][0] == '0' {
			return fail("too many digits")
		}
		fr, _ := new(big.Rat).SetString(m[3] + "/" + m[4])
		if fr.Cmp(big.NewRat(1, 1)) >= 0 {
			return fail("not a proper fraction")
		}
		shown.Add(shown, fr)
	}
	if (m[1] == "-") != (neg && shown.Sign() != 0) && !(shown.Sign() == 0 && neg) {
		return fail("sign")
	}
	diff := new(big.Rat).Sub(shown, mag)
	diff.Abs(diff)
	if d, _ := diff.Float64(); d > math.Pow10(-n)*(1+1e-9)+1e-15*math.Abs(d) {
		// NB 0.01 may be shown as 0 or as 1/99
		return fail("not close")
	}
	// exact when the float is that of such a fraction
	if f, _ := mag.Float64(); IsFraction(f, n) {
		if g, _ := shown.Float64(); g != f {
			return fail("not exact")
		}
	}
	return nil
}

// IsFraction returns true if f is the float nearest to a whole number plus a
// fraction with at most n digits.
func IsFraction(f float64, n int) bool {
	f = math.Abs(f)
	whole, rest := math.Modf(f)
	if rest == 0 {
		return true
	}
	ulp := math.Nextafter(f, math.Inf(1)) - f
	if ulp > math.Pow10(-2*n)/4 {
		// several fractions may share a float
		return false
	}
	max := math.Pow10(n)
	for q := 1.0; q < max; q++ {
		p := math.Round(rest * q)
		if p == 0 || p >= max || p > q || math.Abs(rest-p/q) > 2*ulp {
			continue
		}
		x := new(big.Rat).SetFloat64(whole)
		x.Add(x, big.NewRat(int64(p), int64(q)))
		if g, _ := x.Float64(); g == f {
			return true
		}
	}
	return false
}

// BuiltinCodes are the codes of the built-in formats that are the same everywhere.
var BuiltinCodes = map[int]string{
	0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 9: "0%", 10: "0.00%", 11: "0.00E+00", 12: "# ?/?", 13: "# ??/??",
	37: "#,##0 ;(#,##0)", 38: "#,##0 ;[Red](#,##0)", 39: "#,##0.00;(#,##0.00)", 40: "#,##0.00;[Red](#,##0.00)", 48: "##0.0E+0", 49: "@",
}

// ThaiCodes are those of the Thai built-in formats, which also come with a "t" in front.
var ThaiCodes = map[int]string{59: "0", 60: "0.00", 61: "#,##0", 62: "#,##0.00", 67: "0%", 68: "0.00%", 69: "# ?/?", 70: "# ??/??"}

func init() {
	for id := 71; id <= 80; id++ {
		ThaiCodes[id] = BuiltinDates[id]
	}
	for id, code := range BuiltinDates {
		if id < 59 {
			BuiltinCodes[id] = code
		}
	}
}

// IsBuiltinNumber returns true for the built-in numeric formats.
func IsBuiltinNumber(id int) bool { return in(id, NumberIDs) }

// IsBuiltinDate returns true for the built-in date formats.
func IsBuiltinDate(id int) bool { _, ok := BuiltinDates[id]; return ok }
