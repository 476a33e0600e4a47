package ref

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// MilliOf returns the time of a date serial as milliseconds since its epoch, exactly
// rounded, and how far the serial is from that.
func MilliOf(serial float64) (ms int64, off float64) {
	x := new(big.Rat).Mul(Rat(serial), big.NewRat(86400000, 1))
	y := new(big.Rat).Add(x, big.NewRat(1, 2))
	q := new(big.Int).Div(y.Num(), y.Denom()) // floor
	ms = q.Int64()
	d := new(big.Rat).Sub(x, new(big.Rat).SetInt64(ms))
	off, _ = d.Float64()
	return ms, off
}

// Civil is a date and time of day.
type Civil struct {
	Y, M, D, H, Min, S, Ms int
	WD                     int   // 0 is Sunday
	Elapsed                int64 // whole hours since the epoch
}

var monthDays = [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// CivilOf counts from 1899-12-30 or 1904-01-01, without any date library.
func CivilOf(ms int64, date1904 bool) Civil {
	days := ms / 86400000
	rest := ms % 86400000
	if rest < 0 {
		rest += 86400000
		days--
	}
	c := Civil{H: int(rest / 3600000), Min: int(rest / 60000 % 60), S: int(rest / 1000 % 60), Ms: int(rest % 1000)}
	c.Elapsed = ms / 3600000
	if date1904 {
		days += 1462
	}
	// 1899-12-30 was a Saturday
	c.WD = int(((days+6)%7 + 7) % 7)
	// days since 1900-01-01
	d := days - 2
	y := 1900
	for d < 0 {
		y--
		d += 365
		if leap(y) {
			d++
		}
	}
	for {
		n := int64(365)
		if leap(y) {
			n++
		}
		if d < n {
			break
		}
		d -= n
		y++
	}
	m := 0
	for {
		n := int64(monthDays[m])
		if m == 1 && leap(y) {
			n++
		}
		if d < n {
			break
		}
		d -= n
		m++
	}
	c.Y, c.M, c.D = y, m+1, int(d)+1
	return c
}

// Same returns true if t is that date and time.
func (c Civil) Same(t time.Time) bool {
	return t.Year() == c.Y && int(t.Month()) == c.M && t.Day() == c.D && t.Hour() == c.H && t.Minute() == c.Min && t.Second() == c.S &&
		t.Nanosecond() == c.Ms*1000000 && t.UTC().Equal(t) && t.UTC().Day() == c.D && t.UTC().Hour() == c.H
}

func (c Civil) String() string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%03d", c.Y, c.M, c.D, c.H, c.Min, c.S, c.Ms)
}

// names of months and weekdays
var (
	Months   = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	Weekdays = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
)

// Tok is a part of a date format: a code or literal text.
type Tok struct {
	Code string // "" for a literal
	Text string // of the literal
	Src  string // how it is written in the format code
}

// Code is the text of a date format.
func Code(toks []Tok) string {
	var sb strings.Builder
	for _, t := range toks {
		sb.WriteString(t.Src)
	}
	return sb.String()
}

// Render a date token by token; m and mm are minutes next to hours or seconds.
func Render(toks []Tok, c Civil) string {
	has12 := false
	for _, t := range toks {
		switch t.Code {
		case "AM/PM", "A/P", "am/pm", "a/p", "上午/下午":
			has12 = true
		}
	}
	neighbour := func(i, step int) string {
		for j := i + step; j >= 0 && j < len(toks); j += step {
			switch strings.ToLower(toks[j].Code) {
			case "", "am/pm", "a/p", "上午/下午":
				continue
			}
			return strings.ToLower(toks[j].Code)
		}
		return ""
	}
	var sb strings.Builder
	for i, t := range toks {
		code := strings.ToLower(t.Code)
		if t.Code == "" {
			sb.WriteString(t.Text)
			continue
		}
		if code == "m" || code == "mm" {
			prev, next := neighbour(i, -1), neighbour(i, 1)
			if prev == "h" || prev == "hh" || prev == "[h]" || next == "s" || next == "ss" {
				code += " minutes"
			}
		}
		h := c.H
		if has12 {
			h = (c.H+11)%12 + 1
		}
		n := func(w, x int) { fmt.Fprintf(&sb, "%0*d", w, x) }
		switch code {
		case "yy", "y":
			n(2, c.Y%100)
		case "yyyy", "yyy":
			n(4, c.Y)
		case "m":
			n(1, c.M)
		case "mm":
			n(2, c.M)
		case "mmm":
			sb.WriteString(Months[c.M-1][:3])
		case "mmmmm":
			sb.WriteString("\x01" + Months[c.M-1][:3])
		case "mmmm":
			sb.WriteString(Months[c.M-1])
		case "d":
			n(1, c.D)
		case "dd":
			n(2, c.D)
		case "ddd":
			sb.WriteString(Weekdays[c.WD][:3])
		case "dddd":
			sb.WriteString(Weekdays[c.WD])
		case "h":
			n(1, h)
		case "hh":
			n(2, h)
		case "m minutes":
			n(1, c.Min)
		case "mm minutes":
			n(2, c.Min)
		case "s":
			n(1, c.S)
		case "ss":
			n(2, c.S)
		case ".000":
			fmt.Fprintf(&sb, ".%03d", c.Ms)
		case ".00":
			fmt.Fprintf(&sb, ".%02d", c.Ms/10)
		case "frac1":
			fmt.Fprintf(&sb, ".%d", c.Ms/100)
		case "am/pm":
			if c.H < 12 {
				sb.WriteString("AM")
			} else {
				sb.WriteString("PM")
			}
		case "a/p":
			if c.H < 12 {
				sb.WriteString("A")
			} else {
				sb.WriteString("P")
			}
		case "上午/下午":
			sb.WriteString(strings.Split(code, "/")[c.H/12])
		case "[h]":
			fmt.Fprintf(&sb, "%d", c.Elapsed)
		default:
			panic("unknown date code " + t.Code)
		}
	}
	return sb.String()
}

// SameDate compares a display with a rendered date, where mmmmm may be three letters.
func SameDate(got, want string) bool {
	if got == strings.ReplaceAll(want, "\x01", "") {
		return true
	}
	for i := strings.IndexByte(want, 1); i >= 0; i = strings.IndexByte(want, 1) {
		want = want[:i] + want[i+1:i+2] + want[i+4:]
	}
	return got == want
}

// lit and code make tokens; parse splits one of the simple codes of the built-in formats.
func parseBuiltin(code string) (toks []Tok) {
	rs := []rune(code)
	for i := 0; i < len(rs); {
		rest := string(rs[i:])
		switch {
		case rs[i] == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			toks = append(toks, Tok{Text: string(rs[i+1 : j]), Src: string(rs[i:min(j+1, len(rs))])})
			i = j + 1
		case strings.HasPrefix(rest, "AM/PM"), strings.HasPrefix(rest, "上午/下午"):
			toks = append(toks, Tok{Code: string(rs[i : i+5]), Src: string(rs[i : i+5])})
			i += 5
		case strings.HasPrefix(rest, "[h]"):
			toks = append(toks, Tok{Code: "[h]", Src: "[h]"})
			i += 3
		case strings.HasPrefix(rest, ".0"):
			toks = append(toks, Tok{Code: "frac1", Src: ".0"})
			i += 2
		case strings.ContainsRune("ymdhs", rs[i]):
			j := i
			for j < len(rs) && rs[j] == rs[i] {
				j++
			}
			toks = append(toks, Tok{Code: string(rs[i:j]), Src: string(rs[i:j])})
			i = j
		default:
			toks = append(toks, Tok{Text: string(rs[i]), Src: string(rs[i])})
			i++
		}
	}
	return
}

// BuiltinDates are the codes of the built-in date formats (ECMA-376 18.8.30).
var BuiltinDates = map[int]string{
	14: `mm-dd-yy`, 15: `d-mmm-yy`, 16: `d-mmm`, 17: `mmm-yy`, 18: `h:mm AM/PM`, 19: `h:mm:ss AM/PM`, 20: `h:mm`, 21: `h:mm:ss`, 22: `m/d/yy h:mm`,
	45: `mm:ss`, 46: `[h]:mm:ss`, 47: `mmss.0`,
	27: `yyyy"年"m"月"`, 28: `m"月"d"日"`, 29: `m"月"d"日"`, 30: `m-d-yy`, 31: `yyyy"年"m"月"d"日"`, 32: `h"时"mm"分"`, 33: `h"时"mm"分"ss"秒"`,
	34: `上午/下午 h"时"mm"分"`, 35: `上午/下午 h"时"mm"分"ss"秒"`, 36: `yyyy"年"m"月"`, 50: `yyyy"年"m"月"`, 51: `m"月"d"日"`, 52: `yyyy"年"m"月"`,
	53: `m"月"d"日"`, 54: `m"月"d"日"`, 55: `上午/下午 h"时"mm"分"`, 56: `上午/下午 h"时"mm"分"ss"秒"`, 57: `yyyy"年"m"月"`, 58: `m"月"d"日"`,
	71: `d/m/yyyy`, 72: `d-mmm-yy`, 73: `d-mmm`, 74: `mmm-yy`, 75: `h:mm`, 76: `h:mm:ss`, 77: `d/m/yyyy h:mm`, 78: `mm:ss`, 79: `[h]:mm:ss`, 80: `mm:ss.0`,
}

// DateIDs lists the built-in date formats.
var DateIDs = []int{14, 15, 16, 17, 18, 19, 20, 21, 22, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 45, 46, 47, 50, 51, 52, 53, 54, 55, 56, 57, 58, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80}

// BuiltinDate returns the acceptable displays of a date by a built-in format.
func BuiltinDate(id int, ms int64, date1904 bool) []string {
	toks := parseBuiltin(BuiltinDates[id])
	var res []string
	add := func(ms int64) {
		c := CivilOf(ms, date1904)
		res = append(res, Render(toks, c))
		// hours may be padded
		padded := append([]Tok{}, toks...)
		for i, t := range padded {
			if t.Code == "h" {
				padded[i].Code = "hh"
			}
		}
		res = append(res, Render(padded, c))
	}
	add(ms)
	for _, t := range toks {
		if t.Code == "frac1" {
			// may be rounded instead
			add((ms + 50) / 100 * 100)
		}
	}
	return res
}
