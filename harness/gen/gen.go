// Package gen has the source of choices for the file writers, and generators of
// texts and numbers built on it. Choices come from rapid (so that they shrink and
// replay), or are expanded from a seed drawn by rapid for bulk data.
package gen

import (
	"math"
	"strings"

	"pgregory.net/rapid"
)

// Ch is a source of choices.
type Ch interface {
	// Int in [lo, hi], the simplest being lo.
	Int(label string, lo, hi int) int
	// Uint64 of any value.
	U64(label string) uint64
}

// Rapid draws choices from rapid.
type Rapid struct{ T *rapid.T }

func (r Rapid) Int(label string, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(r.T, label)
}

func (r Rapid) U64(label string) uint64 {
	// NB rapid prefers small numbers, which would leave the high bits unset
	x := rapid.Uint64().Draw(r.T, label)
	if x == 0 {
		return 0
	}
	return NewSeeded(x).U64("")
}

// Seeded expands a seed.
type Seeded struct{ s uint64 }

func NewSeeded(seed uint64) *Seeded { return &Seeded{seed} }

func (r *Seeded) U64(string) uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Seeded) Int(_ string, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return lo + int(r.U64("")%uint64(hi-lo+1))
}

// Zero always takes the simplest choice.
type Zero struct{}

func (Zero) Int(_ string, lo, hi int) int { return lo }
func (Zero) U64(string) uint64            { return 0 }

func Bool(c Ch, label string) bool { return c.Int(label, 0, 1) == 1 }

// Rare is true in roughly pct percent of the cases (and false in the simplest one).
func Rare(c Ch, label string, pct int) bool {
	if _, ok := c.(Rapid); ok {
		// NB rapid prefers small numbers
		return c.Int(label, 0, 1023) >= 1024-pct*16
	}
	return c.Int(label, 0, 99) >= 100-pct
}

// Pick one of the choices, the simplest being the first.
func Pick[T any](c Ch, label string, xs ...T) T { return xs[c.Int(label, 0, len(xs)-1)] }

// Bytes expands n bytes from a single choice.
func Bytes(c Ch, label string, n int) []byte {
	s := NewSeeded(c.U64(label))
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := s.U64("")
		for j := i; j < i+8 && j < n; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// Perm is a permutation of 0..n-1, the simplest being the identity.
func Perm(c Ch, label string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := c.Int(label, i, n-1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// SeedPerm is a permutation chosen at once.
func SeedPerm(c Ch, label string, n int) []int {
	if c.Int(label+" shuffled", 0, 2) == 0 {
		return Perm(Zero{}, "", n)
	}
	return Perm(NewSeeded(c.U64(label)), "", n)
}

// Marks are the texts that stand for merged cells.
var Marks = []string{"→", "⇥", "↓", "⤓"}

var textBits = []string{
	"a", "Z", "q", "0", "1", " ", ".", "-", ",", "/", "'", "\"", "%", "$", "@", "#", "&", "<", ">", ";", ":", "_", "(", ")", "[", "]", "{", "=", "+",
	"\t", "\n", "é", "ß", "ÿ", "\u00a0", "€", "Ж", "中", "文", "あ", "ﾊ", "א", "\u0301", "\ufeff", "\ufffd", "\ue000", "\u2028", "😀", "𝒳", "\U0010ffff", "→x",
	"&amp;", "<v>", "]]>", "<!--", "_x0041_", "_x000D_", "_x005F_", "TRUE", "1e5", "0x10", "\\", "\u0080", "\u0100",
	"\u0085", "\u0091", "\u0099", "\u009f",
}

var wholeTexts = []string{
	"Hello", "a", "x y", " lead", "trail ", "123", "1.50", "TRUE", "-7", "#N/A", "=A1+1", "it's", "\"q\"", "a\tb", "a\nb", "<b>&amp;</b>", "naïve", "中文", "😀", "0",
	"General", "1e400", "NaN", "_x000A_", "\u00ff\u0100", "A1", "NULL", "''", " ",
}

// Text never equals one of the merge marks, and may be empty only if min is 0.
// It consists of XML characters, without carriage returns.
func Text(c Ch, label string, min, max int) string {
	var s string
	switch k := c.Int(label+" kind", 0, 7); {
	case k <= 1:
		s = Pick(c, label, wholeTexts...)
	case k == 2:
		s = strings.Repeat("ab c", 1+c.Int(label+" n", 0, 20))
	case k <= 6:
		n := c.Int(label+" len", 1, 12)
		for i := 0; i < n; i++ {
			s += Pick(c, label, textBits...)
		}
	default:
		n := c.Int(label+" len", 1, max)
		s = LongText(c.U64(label), n)
	}
	if min == 0 && c.Int(label+" empty", 0, 15) == 15 {
		s = ""
	}
	if len([]rune(s)) > max/2+1 {
		// NB runes outside of the BMP take two UTF-16 units
		s = string([]rune(s)[:max/2+1])
	}
	for _, m := range Marks {
		if s == m {
			s = "m" + s
		}
	}
	return s
}

// LongText of n UTF-16 units, expanded from a seed.
func LongText(seed uint64, n int) string {
	r := NewSeeded(seed)
	mode := r.Int("", 0, 3)
	var sb strings.Builder
	for i := 0; i < n; {
		var x rune
		switch mode {
		case 0:
			x = rune(r.Int("", 'a', 'z'))
		case 1:
			x = rune(r.Int("", 0x80, 0xFF))
		case 2:
			x = rune(r.Int("", 0x4E00, 0x9FFF))
		default:
			x = Pick(Ch(r), "", 'a', 'ÿ', 'Ж', '中', '😀', ' ', '7')
		}
		if x > 0xFFFF {
			if i+2 > n {
				x = 'z'
			} else {
				i++
			}
		}
		sb.WriteRune(x)
		i++
	}
	return sb.String()
}

var niceFloats = []float64{0, 1, 2, 10, 100, 0.5, 0.25, 0.1, 0.2, 0.01, 1.5, 2.5, 3.14159, 12345.678, 1e10, 99999999999, 123456789012, 1e11, 1e-5, 0.000123, 1e15, 1e16, 1e20,
	0.999, 0.9999999, 9.995, 1.005, 0.005, 999.5, 999.995, 1234567.891, 0.3333333333333333, 0.6666666666666666, 2147483647, 2147483648, 4294967296, 9007199254740992, 9007199254740993, 1e100, 1e-100, 1e300, 1e-300,
	math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e22, 1e21, 1e-7, 1e-6, 123456.7890123, 43831, 43831.5, 60, 61, 59.999988425925926}

// Number is a finite float.
func Number(c Ch, label string) float64 {
	var f float64
	switch k := c.Int(label+" kind", 0, 9); {
	case k <= 1:
		f = float64(c.Int(label, 0, 1000))
	case k <= 3:
		f = Pick(c, label, niceFloats...)
	case k <= 6:
		// decimals with few digits
		f = float64(c.Int(label, 0, 99999999)) / math.Pow10(c.Int(label+" decimals", 0, 9))
	case k == 7:
		// around a power of ten, or a tie
		p := math.Pow10(c.Int(label+" pow", -9, 18))
		f = p * Pick(c, label+" at", 1.0, 0.5, 0.05, 0.95, 0.995, 0.9995, 1.5, 9.5)
		for n := c.Int(label+" ulp", 0, 2); n > 0; n-- {
			f = math.Nextafter(f, Pick(c, label+" dir", math.Inf(1), math.Inf(-1)))
		}
	case k == 8:
		f = math.Ldexp(float64(c.U64(label)>>11), c.Int(label+" exp", -70, 10))
	default:
		f = math.Float64frombits(c.U64(label))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 12.75
	}
	if f == 0 {
		return 0 // no negative zero
	}
	if c.Int(label+" neg", 0, 2) == 2 {
		f = -f
	}
	return f
}
