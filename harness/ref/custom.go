package ref

import (
	"fmt"
	"math/big"
	"strings"
)

// Piece of literal text in a number format, and how it is written there.
type Piece struct{ Src, Text string }

func pieces(ps []Piece) (src, text string) {
	for _, p := range ps {
		src += p.Src
		text += p.Text
	}
	return
}

// Section of a custom number format.
type Section struct {
	Colour    string  // with brackets
	Pre, Post []Piece // among them the percent sign, if any
	Kind      string  // digits, general, static, text
	Num       string  // the digit placeholders
	Exp       string  // E+00 and the like
	Percent   bool
	Scale     int    // how often it is divided by a thousand
	D         Digits // for Kind digits
	MaxInt    int    // of the mantissa, for Exp
	Padded    bool   // with padding, spaces do not count
}

// squeeze removes all spaces.
func squeeze(s string) string { return strings.ReplaceAll(s, " ", "") }

// Src is the code of the section.
func (x *Section) Src() string {
	pre, _ := pieces(x.Pre)
	post, _ := pieces(x.Post)
	mid := ""
	switch x.Kind {
	case "digits":
		mid = x.Num + x.Exp
	case "general":
		mid = x.Num
	case "text":
		mid = "@"
	}
	return x.Colour + pre + mid + post
}

// Check the display of a number; with magnitude only, the sign is not shown.
func (x *Section) Check(s string, v interface{}, magOnly bool) error {
	_, pre := pieces(x.Pre)
	_, post := pieces(x.Post)
	if x.Padded {
		s, pre, post = squeeze(s), squeeze(pre), squeeze(post)
	}
	if x.Kind == "static" {
		if s != pre+post {
			return fmt.Errorf("%q instead of %q", s, pre+post)
		}
		return nil
	}
	mag, neg, exact := Magnitude(v)
	if magOnly {
		neg = false
	}
	if x.Percent {
		mag.Mul(mag, big.NewRat(100, 1))
		exact = false
	}
	if x.Scale > 0 {
		mag.Quo(mag, pow10(3*x.Scale))
		exact = false
	}
	body := func(prefix string) (string, bool) {
		if !strings.HasPrefix(s, prefix) || !strings.HasSuffix(s[len(prefix):], post) {
			return "", false
		}
		return s[len(prefix) : len(s)-len(post)], true
	}
	shown := func(b string) error {
		switch {
		case x.Kind == "general":
			f, _ := mag.Float64()
			if exact {
				// whole numbers are shown in full
				if n, ok := new(big.Int).SetString(b, 10); ok && new(big.Rat).SetInt(n).Cmp(mag) == 0 {
					return nil
				}
			}
			return General(b, f)
		case x.Exp != "":
			return Sci(b, mag, x.D.MinDec, x.D.MaxDec, x.MaxInt)
		}
		d := x.D
		d.Exact = exact
		return d.Check(b, mag)
	}
	err := fmt.Errorf("%q has not the literals %q and %q, or another sign", s, pre, post)
	if !neg {
		if b, ok := body(pre); ok {
			err = shown(b)
		}
		return err
	}
	for _, p := range []string{"-" + pre, pre + "-"} {
		if b, ok := body(p); ok {
			if err = shown(b); err == nil {
				return nil
			}
		}
	}
	if b, ok := body(pre); ok && (zeroShown(b) || x.D.BlankZero && b == "") {
		return shown(b)
	}
	return err
}

// Custom is a custom number format.
type Custom struct{ Sections []*Section }

// Code of the format.
func (x *Custom) Code() string {
	var ss []string
	for _, s := range x.Sections {
		ss = append(ss, s.Src())
	}
	return strings.Join(ss, ";")
}

// for numbers only
func (x *Custom) numeric() []*Section {
	n := len(x.Sections)
	if n > 3 || (n > 1 && x.Sections[n-1].Kind == "text") {
		n--
	}
	return x.Sections[:n]
}

// Check the display of a number (int64 or float64).
func (x *Custom) Check(s string, v interface{}) error {
	ss := x.numeric()
	mag, neg, _ := Magnitude(v)
	i := 0
	switch {
	case neg && len(ss) > 1:
		i = 1
	case mag.Sign() == 0 && len(ss) > 2:
		i = 2
	}
	if err := ss[i].Check(s, v, i == 1); err != nil {
		return fmt.Errorf("%q shows %T %v as %q: %v", x.Code(), v, v, s, err)
	}
	return nil
}

// PaddedText returns true if spaces do not count in the display of text.
func (x *Custom) PaddedText() bool {
	n := len(x.Sections)
	last := x.Sections[n-1]
	return (last.Kind == "text" || n > 3) && last.Padded
}

// SameText compares a display with that of a text.
func (x *Custom) SameText(got, text string) bool {
	if x.PaddedText() {
		return squeeze(got) == squeeze(x.Text(text))
	}
	return got == x.Text(text)
}

// Text is how a text is shown.
func (x *Custom) Text(s string) string {
	n := len(x.Sections)
	last := x.Sections[n-1]
	if last.Kind != "text" && n < 4 {
		return s
	}
	_, pre := pieces(last.Pre)
	_, post := pieces(last.Post)
	if last.Kind == "text" {
		return pre + s + post
	}
	return pre + post
}
