package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

var soup = []string{
	"(", ")", "[", "]", "{", "}", "(", ")", "(", ")", "[", "]", "'", "`", "~", "~@", "@", "^", "#", "#{", "#(", "#_", "#?", "#?@", "#:", "#'", "#^", "#=", "#\"", "#!", "#<",
	"\n", "\n", " ", " ", ",", "\t", "\r", "\r\n", ";c", "; c\n", "\"", "\"s\"", "\"a\\\"b\"", "\"l1\n  l2\"", "\\", "\\a", "\\newline", "\\u0041", "\\o17", "\\(", "\\ ", "\\\\", "a", "b", "foo", "foo/bar", "a'", "a#", "_", "_foo", "!", "<",
	":", ":k", "::k", "::a/k", "1", "-1", "+1", "+", "-", "1/2", "nil", "true", "false", "%", "%1", "%&", "é", "\u00a0", "世", "ns", "defn", "let", "comment", "#foo", "->", "/", ".", "&", "\x00", "\u2028", "\ufeff", "\u0085", "\v", "\f",
}

func genSoup(r *rand.Rand) string {
	n := 1 + r.Intn(12)
	if chance(r, 20) {
		n = 1 + r.Intn(4)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(soup[r.Intn(len(soup))])
	}
	return b.String()
}

// Gen writes source text that is mostly accepted.
type Gen struct {
	r     *rand.Rand
	depth int
	b     strings.Builder
	fn    bool
	// weird: allow odd spacing, comments and newlines everywhere
	weird bool
	ascii bool
}

func (g *Gen) w(s string) { g.b.WriteString(s) }

func (g *Gen) sep() {
	r := g.r
	switch x := r.Intn(20); {
	case x < 12 || !g.weird && x < 16:
		g.w(" ")
	case x < 16:
		g.w(strings.Repeat("\n", 1+r.Intn(3)) + strings.Repeat(" ", r.Intn(5)))
	case x < 18:
		g.w("\n" + strings.Repeat(" ", r.Intn(4)))
	case x == 18:
		g.w(pick(r, " ", "") + ";" + pick(r, "", ";", "; c ", " x") + pick(r, "", "\r") + "\n")
	default:
		if g.weird {
			g.w(pick(r, ",", ", ", "  ", "\t", "\r\n", " \n \n", " #!c\n"))
		} else {
			g.w("  ")
		}
	}
}

// optsep is a separator that may be empty.
func (g *Gen) optsep() {
	if g.weird && chance(g.r, 25) {
		g.sep()
	}
}

var symbols = []string{"a", "b", "x", "foo", "bar", "foo/bar", "f.g/h", "+", "-", "->x", "x'", "a#", "%", "%1", "&", "nil", "true", "false", "Foo.", ".m", "a.b.C", "x*", "_", "..", "-a", "+b", "<", "=", "/", "comment", "é", "default", "*x*"}

func (g *Gen) atom() {
	r := g.r
	switch r.Intn(14) {
	case 0, 1, 2, 3, 4:
		g.w(symbols[r.Intn(len(symbols))])
	case 5, 6:
		g.w(pick(r, ":k", ":foo", "::k", ":a/b", "::a/b", ":else", ":", ":a:b", ":'"))
	case 7, 8:
		g.w(pick(r, "0", "1", "42", "-7", "+3", "1.5", "1/2", "0xff", "2r101", "1e3", "10M", "3N"))
	case 9:
		g.w(pick(r, `\a`, `\newline`, `\space`, `\tab`, `\u0041`, `\o101`, `\(`, `\;`, `\"`, `\\`, `\,`, `\return`, `\backspace`, `\formfeed`, `\é`, `\'`, `\#`))
	case 10, 11:
		g.w(pick(r, `""`, `"s"`, `"a b"`, `"a\"b"`, `"\\"`, "\"l1\nl2\"", "\"l1\n    l2\n  \"", "\"x \n\n y\"", `"a;b"`, "\"t\t\""))
	case 12:
		g.w(pick(r, `#"re"`, `#"a\"b"`, `#"\d+"`, `#"("`))
	default:
		g.w(pick(r, "#'foo", "#'a/b", "#inst \"x\"", "#foo bar", "##", "#tag [1]"))
		if strings.HasSuffix(g.b.String(), "##") {
			g.w(" x")
		}
	}
}

func (g *Gen) items(n int) {
	g.optsep()
	for i := 0; i < n; i++ {
		if i > 0 {
			g.sep()
		}
		g.form()
	}
	g.optsep()
}

func (g *Gen) form() {
	r := g.r
	if g.depth <= 0 {
		g.atom()
		return
	}
	g.depth--
	defer func() { g.depth++ }()
	switch x := r.Intn(30); {
	case x < 9:
		g.atom()
	case x < 14:
		g.w("(")
		g.items(r.Intn(5))
		g.w(")")
	case x < 17:
		g.code()
	case x < 19:
		g.w("[")
		g.items(r.Intn(5))
		g.w("]")
	case x < 21:
		g.w(pick(r, "{", "{", "#:a{", "#::{", "#::b{"))
		g.items(2 * r.Intn(3))
		g.w("}")
	case x == 21:
		g.w("#{")
		g.items(r.Intn(4))
		g.w("}")
	case x == 22:
		if g.fn {
			g.atom()
			return
		}
		g.fn = true
		g.w("#(")
		g.items(r.Intn(4))
		g.w(")")
		g.fn = false
	case x == 23:
		g.w(pick(r, "#?(", "#?@("))
		g.items(r.Intn(4))
		g.w(")")
	case x < 27:
		g.w(pick(r, "'", "`", "~", "~@", "@", "~ @"))
		if chance(r, 10) {
			g.w(pick(r, " ", "\n", ";c\n"))
		}
		g.form()
	case x == 27:
		g.w(pick(r, "^", "#^"))
		g.form()
		g.sep()
		g.form()
	case x == 28:
		g.w("#_")
		if chance(r, 20) {
			g.w(pick(r, " ", "\n"))
		}
		g.form()
	default:
		g.w("#=")
		g.form()
	}
}

var heads = []string{"defn", "def", "defmacro", "defmulti", "defmethod", "let", "when-let", "letfn", "for", "doseq", "cond", "condp", "case", "cond->", "cond->>", "if", "if-let", "when", "->", "->>", "fn", "ns", "deftype", "defrecord", "defprotocol", "extend-type", "reify", "proxy", "try", "catch", "loop", "binding", "do", "comment", "as->", "doto", "with-open", "some->", "if-not", "def-foo", "with-x", "when-y", "letx", "assoc", "foo", "c/foo", "a.b/cond", "clojure.core/let", "are", "deftest", "testing", "go", "go-loop", "alt!", "match", "assoc!"}

func (g *Gen) code() {
	r := g.r
	g.w("(")
	h := pick(r, heads...)
	g.w(h)
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		g.sep()
		switch {
		case i == 0 && chance(r, 50) && strings.HasPrefix(h, "def"):
			g.w(pick(r, "foo", "bar", "^:private foo", "x"))
		case chance(r, 20):
			g.w("[")
			g.items(2 * r.Intn(4))
			g.w("]")
		case i == 1 && chance(r, 40) && strings.HasPrefix(h, "def"):
			g.w(pick(r, `"doc"`, "\"doc\n  string\n    here\"", "\"doc\n\n x \\\" \n\""))
		default:
			g.form()
		}
	}
	g.optsep()
	g.w(")")
}

func genForms(r *rand.Rand, weird bool) string {
	g := &Gen{r: r, depth: 1 + r.Intn(4), weird: weird}
	n := 1 + r.Intn(4)
	if chance(r, 10) {
		g.w(pick(r, "\n", " ", "\n\n\n", ";c\n", "#!/usr/bin\n"))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.sep()
			if chance(r, 60) {
				g.w("\n")
			}
		}
		if chance(r, 50) {
			g.code()
		} else {
			g.form()
		}
	}
	if chance(r, 60) {
		g.w(pick(r, "\n", "\n", "\n\n\n", " ", ";end", ";end\n", " ;e\r\n"))
	}
	return g.b.String()
}

// genAny mixes well-formed text, token soup and broken text.
func genAny(r *rand.Rand) string {
	switch x := r.Intn(10); {
	case x < 5:
		return genForms(r, true)
	case x < 7:
		return genSoup(r)
	case x < 9:
		return mutate(r, genForms(r, true))
	default:
		n := r.Intn(20)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune(r.Intn(128))
			if chance(r, 5) {
				b[i] = rune(128 + r.Intn(0x3000))
			}
		}
		return string(b)
	}
}

func mutate(r *rand.Rand, s string) string {
	rs := []rune(s)
	for k := 1 + r.Intn(3); k > 0 && len(rs) > 0; k-- {
		i := r.Intn(len(rs))
		switch r.Intn(4) {
		case 0:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 1:
			t := []rune(soup[r.Intn(len(soup))])
			rs = append(append(append([]rune{}, rs[:i]...), t...), rs[i:]...)
		case 2:
			rs = rs[:i]
		default:
			j := r.Intn(len(rs))
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	return string(rs)
}

func srcCase(s string) *Case { c := &Case{}; c.setSrc(s); return c }

var _ = fmt.Sprint
