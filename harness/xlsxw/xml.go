// Package xlsxw writes Office Open XML workbooks, following ECMA-376 only.
package xlsxw

import (
	"fmt"
	"strings"

	"verif/harness/gen"
)

// El is an XML element. Kids are *El or Text.
type El struct {
	Name  string
	Attrs [][2]string
	Kids  []interface{}
	// Mixed content must not get any additional whitespace
	Mixed bool
	// Fixed elements keep their attribute order and have no prefix
}

// Text is character data.
type Text string

// E makes an element from attributes (name, value pairs) and kids.
func E(name string, attrs []string, kids ...interface{}) *El {
	e := &El{Name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		e.Attrs = append(e.Attrs, [2]string{attrs[i], attrs[i+1]})
	}
	for _, k := range kids {
		switch k := k.(type) {
		case nil:
		case []interface{}:
			e.Kids = append(e.Kids, k...)
		case *El:
			if k != nil {
				e.Kids = append(e.Kids, k)
			}
		default:
			e.Kids = append(e.Kids, k)
		}
	}
	for _, k := range e.Kids {
		if _, ok := k.(Text); ok {
			e.Mixed = true
		}
	}
	return e
}

// A lists attributes.
func A(kv ...string) []string { return kv }

// Style of serialisation.
type Style struct {
	Prefix   bool // a namespace prefix for all elements
	Shuffle  bool // order of attributes
	Layout   bool // indentation
	Comments bool
	Refs     bool // character references
	CDATA    bool
	Quotes   bool // single quotes
	Expand   bool // <a></a> instead of <a/>
	Decl     int  // form of the XML declaration
}

// DrawStyle chooses a style.
func DrawStyle(c gen.Ch) Style {
	return Style{
		Prefix: gen.Bool(c, "xml prefix"), Shuffle: gen.Bool(c, "xml attr order"), Layout: gen.Bool(c, "xml layout"),
		Comments: gen.Bool(c, "xml comments"), Refs: gen.Bool(c, "xml refs"), CDATA: gen.Bool(c, "xml cdata"),
		Quotes: gen.Bool(c, "xml quotes"), Expand: gen.Bool(c, "xml expand"), Decl: c.Int("xml decl", 0, 3),
	}
}

type ser struct {
	sb strings.Builder
	st Style
	r  gen.Ch
	p  string
	rp string // prefix for relationship ids
}

// XML serialises an element in the namespace ns, with others (prefix, ns pairs) declared.
func XML(c gen.Ch, st Style, root *El, ns string, others ...string) []byte {
	s := &ser{st: st, r: gen.NewSeeded(c.U64("xml"))}
	switch st.Decl {
	case 0:
		s.sb.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\r\n")
	case 1:
		s.sb.WriteString(`<?xml version='1.0' encoding='utf-8'?>`)
	case 2:
		s.sb.WriteString("\ufeff" + `<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	decl := "xmlns"
	if st.Prefix {
		s.p = gen.Pick(s.r, "", "x", "main", "v", "t", "_a.b-c") + ":"
		decl = "xmlns:" + strings.TrimSuffix(s.p, ":")
	}
	s.rp = "r"
	if st.Prefix {
		s.rp = gen.Pick(s.r, "", "r", "rel", "d3p1")
	}
	e := *root
	e.Attrs = append([][2]string{{decl, ns}}, e.Attrs...)
	for i := 0; i+1 < len(others); i += 2 {
		e.Attrs = append(e.Attrs, [2]string{"xmlns:" + s.rp, others[i+1]})
	}
	s.misc()
	s.el(&e)
	s.misc()
	return []byte(s.sb.String())
}

func (s *ser) chance(n int) bool { return s.r.Int("", 0, n-1) == 0 }

func (s *ser) misc() {
	if s.st.Layout && s.chance(2) {
		s.sb.WriteString(gen.Pick(s.r, "", "\n", "\n  ", " ", "\r\n\t", "\n\n"))
	}
	if s.st.Comments && s.chance(8) {
		s.sb.WriteString(gen.Pick(s.r, "", "<!-- note -->", "<!---->", "<?pi data?>", "<!--<v>7</v>-->", "<!-- </c> -->"))
	}
}

func (s *ser) el(e *El) {
	name := e.Name
	if !strings.Contains(name, ":") {
		name = s.p + name
	}
	s.sb.WriteString("<" + name)
	attrs := e.Attrs
	if s.st.Shuffle {
		attrs = nil
		for _, i := range gen.Perm(s.r, "", len(e.Attrs)) {
			attrs = append(attrs, e.Attrs[i])
		}
	}
	for _, a := range attrs {
		s.sb.WriteString(" ")
		if s.st.Layout && s.chance(5) {
			s.sb.WriteString("\n   ")
		}
		q := `"`
		if s.st.Quotes {
			q = `'`
		}
		eq := "="
		if s.st.Layout && s.chance(9) {
			eq = " = "
		}
		s.sb.WriteString(name1(a[0], s.rp) + eq + q + s.attr(a[1]) + q)
	}
	if len(e.Kids) == 0 && !(s.st.Expand && s.chance(2)) {
		if s.st.Layout && s.chance(3) {
			s.sb.WriteString(" ")
		}
		s.sb.WriteString("/>")
		return
	}
	s.sb.WriteString(">")
	for _, k := range e.Kids {
		switch k := k.(type) {
		case *El:
			if !e.Mixed {
				s.misc()
			}
			s.el(k)
		case Text:
			s.text(string(k))
		}
	}
	if !e.Mixed {
		s.misc()
	}
	s.sb.WriteString("</" + name)
	if s.st.Layout && s.chance(9) {
		s.sb.WriteString("\n")
	}
	s.sb.WriteString(">")
}

func name1(n, rp string) string {
	if strings.HasPrefix(n, "r:") {
		return rp + n[1:]
	}
	return n
}

func (s *ser) attr(v string) string {
	var sb strings.Builder
	for _, r := range v {
		switch {
		case r == '&':
			sb.WriteString("&amp;")
		case r == '<':
			sb.WriteString("&lt;")
		case r == '>' && s.chance(2):
			sb.WriteString("&gt;")
		case r == '"':
			sb.WriteString("&quot;")
		case r == '\'':
			sb.WriteString("&apos;")
		case r == '\t' || r == '\n' || r == '\r':
			fmt.Fprintf(&sb, "&#%d;", r)
		case s.st.Refs && s.chance(6):
			sb.WriteString(s.ref(r))
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s *ser) ref(r rune) string {
	return fmt.Sprintf(gen.Pick(s.r, "", "&#%d;", "&#x%X;", "&#x%04x;"), r)
}

func (s *ser) text(v string) {
	rs := []rune(v)
	if s.st.Comments && s.chance(6) && len(rs) > 0 {
		// a comment or processing instruction in the middle of text
		i := s.r.Int("", 0, len(rs))
		s.run(rs[:i])
		s.sb.WriteString(gen.Pick(s.r, "", "<!-- in text -->", "<?p?>", "<!---->"))
		s.run(rs[i:])
		return
	}
	s.run(rs)
}

func (s *ser) run(rs []rune) {
	for i := 0; i < len(rs); {
		if s.st.CDATA && s.chance(8) {
			n := s.r.Int("", 1, len(rs)-i)
			sec := string(rs[i : i+n])
			if !strings.Contains(sec, "]]>") && !strings.Contains(sec, "\r") {
				s.sb.WriteString("<![CDATA[" + sec + "]]>")
				i += n
				continue
			}
		}
		r := rs[i]
		i++
		switch {
		case r == '&':
			s.sb.WriteString(gen.Pick(s.r, "", "&amp;", "&#38;"))
		case r == '<':
			s.sb.WriteString(gen.Pick(s.r, "", "&lt;", "&#x3c;"))
		case r == '>':
			s.sb.WriteString("&gt;")
		case r == '\r':
			s.sb.WriteString("&#13;")
		case r == '"' && s.chance(4):
			s.sb.WriteString("&quot;")
		case r == '\'' && s.chance(4):
			s.sb.WriteString("&apos;")
		case r == '\n' && s.chance(3):
			// line ends are normalised
			s.sb.WriteString("\r\n")
		case s.st.Refs && s.chance(4):
			s.sb.WriteString(s.ref(r))
		default:
			s.sb.WriteRune(r)
		}
	}
}
