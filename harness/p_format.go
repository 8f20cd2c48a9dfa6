package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

const nTransforms = 9

var styleOf = map[int]format.IndentStyle{
	stNormal: format.IndentNormal, stList: format.IndentList, stListBody: format.IndentListBody, stLet: format.IndentLet,
	stFor: format.IndentFor, stLetfn: format.IndentLetfn, stDeftype: format.IndentDeftype, stCond0: format.IndentCond0,
	stCond1: format.IndentCond1, stCond2: format.IndentCond2, stCond4: format.IndentCond4,
}

// transforms makes the map for the bit set (every transform is named).
func transforms(bits int) map[format.Transform]bool {
	m := map[format.Transform]bool{}
	for i := 0; i < nTransforms; i++ {
		m[format.Transform(i)] = bits>>uint(i)&1 == 1
	}
	return m
}

func bit(ts ...format.Transform) int {
	b := 0
	for _, t := range ts {
		b |= 1 << uint(t)
	}
	return b
}

func setup(p *format.Printer, c cfg, bits int) {
	if c.char != 0 {
		p.IndentChar = c.char
	}
	if len(c.indent) > 0 {
		p.IndentOverrides = map[string]format.IndentStyle{}
		for k, v := range c.indent {
			p.IndentOverrides[k] = styleOf[v]
		}
	}
	if len(c.thread) > 0 {
		p.ThreadFirstStyleOverrides = map[string]format.ThreadFirstStyle{}
		for k, v := range c.thread {
			p.ThreadFirstStyleOverrides[k] = format.ThreadFirstStyle(v)
		}
	}
	p.Transforms = transforms(bits)
}

func formatTree(t *parse.Tree, c cfg, bits int) (string, error) {
	var b bytes.Buffer
	p := format.NewPrinter(&b)
	setup(p, c, bits)
	err := p.PrintTree(t)
	return b.String(), err
}

// printed parses and prints src; ok is false when src is not accepted.
func printed(src string, c cfg, bits int) (in []*T, out string, ok bool, err error) {
	if !utf8.ValidString(src) {
		return nil, "", false, nil
	}
	tree, perr := read(src, optNS)
	if perr != nil {
		return nil, "", false, nil
	}
	in = convAll(tree.Roots)
	out, err = formatTree(tree, c, bits)
	if err != nil {
		err = fmt.Errorf("formatting %q fails: %v", src, err)
	}
	return in, out, true, err
}

func reread(src, out string) ([]*T, error) {
	tree, err := read(out, optNS)
	if err != nil {
		return nil, fmt.Errorf("output does not parse: %v\n--- source %q\n--- output %q", err, src, out)
	}
	return convAll(tree.Roots), nil
}

// getCfg and putCfg keep a configuration in a Case.
func getCfg(c *Case) cfg {
	r := cfg{indent: map[string]int{}, thread: map[string]int{}}
	for k, v := range c.Map {
		n := 0
		fmt.Sscanf(v, "%d", &n)
		switch {
		case strings.HasPrefix(k, "i:"):
			r.indent[k[2:]] = n
		case strings.HasPrefix(k, "t:"):
			r.thread[k[2:]] = n
		case k == "char":
			r.char = rune(n)
		}
	}
	return r
}

var styleList = []int{stNormal, stList, stListBody, stLet, stFor, stLetfn, stDeftype, stCond0, stCond1, stCond2, stCond4}

func genCfg(r *rand.Rand, c *Case, names []string) {
	c.Map = map[string]string{}
	if chance(r, 40) {
		return
	}
	for n := r.Intn(5); n > 0; n-- {
		c.Map["i:"+names[r.Intn(len(names))]] = fmt.Sprint(styleList[r.Intn(len(styleList))])
	}
	if chance(r, 20) {
		c.Map["t:"+names[r.Intn(len(names))]] = fmt.Sprint(r.Intn(2))
	}
	if chance(r, 15) {
		c.Map["char"] = "9"
	}
}

// docText is the part of a docstring that re-alignment keeps.
func docText(s string) string {
	ls := strings.Split(s[1:len(s)-1], "\n")
	for i := 1; i < len(ls); i++ {
		t := strings.TrimRightFunc(ls[i], unicode.IsSpace)
		n := 0
		for strings.HasSuffix(t[:len(t)-n], `\`) {
			n++
		}
		if n%2 == 1 && len(t) < len(ls[i]) {
			t += string([]rune(ls[i][len(t):])[0])
		}
		ls[i] = strings.TrimLeftFunc(t, unicode.IsSpace)
	}
	return strings.Join(ls, "\n")
}

// canon prepares a tree for comparison: docstrings lose their outer
// whitespace, and a comment without a line break gets one.
func canon(roots []*T) []*T {
	for _, t := range roots {
		if d := docstringOf(t); d != nil {
			d.Text = docText(d.Text)
			d.K = "docstr"
		}
	}
	return canonKids(roots, true)
}

func canonKids(ts []*T, top bool) []*T {
	var out []*T
	for i, t := range ts {
		if !isWrap(t.K) {
			t.Kids = canonKids(t.Kids, false)
		} else {
			for j := range t.Kids {
				t.Kids[j].Kids = canonKids(t.Kids[j].Kids, isWrap(t.Kids[j].K))
			}
		}
		out = append(out, t)
		if t.K == "comment" && (i+1 < len(ts) && ts[i+1].K != "newline" || i+1 == len(ts) && !top) {
			out = append(out, &T{K: "newline"})
		}
	}
	return out
}

func isWrap(k string) bool { return prefixed(k) }

func stripNewlines(ts []*T) []*T {
	var out []*T
	for _, t := range ts {
		if t.K == "newline" {
			continue
		}
		t.Kids = stripNewlines(t.Kids)
		out = append(out, t)
	}
	return out
}

func clone(ts []*T) []*T {
	var out []*T
	for _, t := range ts {
		n := *t
		n.Kids = clone(t.Kids)
		out = append(out, &n)
	}
	return out
}

var layout = bit(format.TransformRemoveTrailingNewlines, format.TransformRemoveExtraBlankLines, format.TransformFixDefnArglistNewline,
	format.TransformFixDefmethodDispatchValNewline, format.TransformFixIfNewlineConsistency)

// genLayout writes forms the layout transforms look at.
func genLayout(r *rand.Rand) string {
	if chance(r, 40) {
		return genForms(r, true)
	}
	g := &Gen{r: r, depth: 2, weird: true}
	for n := 1 + r.Intn(2); n > 0; n-- {
		if chance(r, 20) {
			g.w(pick(r, "(do ", "[", "'", "(let [x ", "^a "))
		}
		open := strings.Count(g.b.String(), "(") + strings.Count(g.b.String(), "[")
		g.w("(" + pick(r, "defn", "defmethod", "if", "if-not", "if-let", "if-some", "defn", "defmethod", "if", "defn-"))
		for k := r.Intn(7); k > 0; k-- {
			g.w(pick(r, " ", " ", "\n", "\n\n", "\n\n\n\n", " ;c\n", "\n;c\n\n", " #_x ", " ^m ", " #t ", "\r;c\r"))
			g.w(pick(r, "a", "[x]", ":k", "(f)", "\"d\"", "[]", "x", "{}", "#_d", "::k", "(g\n\n\n)", "; e\n", "\n", "(if a b\nc)", "(if a\nb c)", "[x\n]", "#(a\n)", "#{\n}", "(if-let [x\n\n y] ;c\n z)"))
		}
		g.w(pick(r, "", "\n", "\n\n\n", ";c\n", " ;c\n\n\n"))
		g.w(")")
		if open > 0 {
			s := g.b.String()
			_ = s
			g.w(pick(r, "", "\n", " x", "\n\n\n\ny"))
			g.b.Reset()
			g.w(closeAll(s + pick(r, "", "\n", " x", "\n\n\n\ny")))
		}
		g.w(pick(r, "\n", "\n\n\n\n", " ", ";c\n", ""))
	}
	return g.b.String()
}

// closeAll closes the brackets a text of plain tokens leaves open.
func closeAll(s string) string {
	var st []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case ';':
			for ; i < len(s) && s[i] != '\n' && s[i] != '\r'; i++ {
			}
		case '(':
			st = append(st, ')')
		case '[':
			st = append(st, ']')
		case '{':
			st = append(st, '}')
		case ')', ']', '}':
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		}
	}
	for i := len(st) - 1; i >= 0; i-- {
		s += string(st[i])
	}
	return s
}

type gap struct{ a, b int } // element numbers

func runC08(c *Case) error {
	bits := c.Opts & layout
	src := c.src()
	in, out, ok, err := printed(src, getCfg(c), bits)
	if !ok || err != nil {
		return err
	}
	got, err := reread(src, out)
	if err != nil {
		return err
	}
	in, got = canon(in), canon(got)
	a, b := dump(stripNewlines(clone(in)), false), dump(stripNewlines(clone(got)), false)
	if a != b {
		return at(fmt.Sprintf("forms or comments changed (transforms %#x), output %q", bits, out), src, a, b)
	}
	return gapsKept(src, out, in, got, nil, bits)
}

// gapsKept: a run of line breaks between two elements is never lost.
func gapsKept(src, out string, in, got []*T, parent *T, bits int) error {
	elems := func(ts []*T) (es []*T, breaks []int) {
		n := 0
		for _, t := range ts {
			if t.K == "newline" {
				n++
				continue
			}
			es = append(es, t)
			breaks = append(breaks, n)
			n = 0
		}
		return
	}
	ea, ba := elems(in)
	eb, bb := elems(got)
	for i := 1; i < len(ea); i++ {
		if ba[i] > 0 && bb[i] == 0 {
			on := func(t format.Transform) bool { return bits&bit(t) != 0 }
			moved := parent != nil && i == 2 && (i+1 == len(ea) || bb[i+1] > 0) &&
				(on(format.TransformFixDefnArglistNewline) && parent.headed("sym", "defn") && ea[i].K == "vector" ||
					on(format.TransformFixDefmethodDispatchValNewline) && parent.headed("sym", "defmethod") && ea[i].K == "kw")
			if !moved {
				return fmt.Errorf("line break between %s and %s is lost (transforms %#x)\n--- source %q\n--- output %q", ea[i-1], ea[i], bits, src, out)
			}
		}
	}
	for i := range ea {
		// only top-level forms are moved in
		p := ea[i]
		if parent != nil {
			p = &T{K: "list"}
		}
		if err := gapsKept(src, out, ea[i].Kids, eb[i].Kids, p, bits); err != nil {
			return err
		}
	}
	return nil
}

// limitWriter fails once n bytes were accepted.
type limitWriter struct {
	b    bytes.Buffer
	n    int
	mode int
	bad  bool
	late bool // a write came after the failure
}

var errDisk = errors.New("injected write failure")

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.bad {
		w.late = true
		return 0, errDisk
	}
	if w.b.Len()+len(p) > w.n {
		k := w.n - w.b.Len()
		w.bad = true
		if w.mode == 1 {
			k = 0
		}
		w.b.Write(p[:k])
		if w.mode == 2 {
			return k, nil // short write without an error
		}
		return k, errDisk
	}
	return w.b.Write(p)
}

func init() {
	props["C07"] = &Prop{
		Rule: "random accepted text printed with every transform off under random overrides; the output is re-read and compared",
		Gen: func(r *rand.Rand, i int) *Case {
			c := srcCase(strings.ToValidUTF8(genAny(r), "?"))
			genCfg(r, c, append(heads, "a", "b", "foo"))
			return c
		},
		Run: func(c *Case) error {
			src := c.src()
			in, out, ok, err := printed(src, getCfg(c), 0)
			if !ok || err != nil {
				return err
			}
			got, err := reread(src, out)
			if err != nil {
				return err
			}
			a, b := dump(canon(in), false), dump(canon(got), false)
			if a != b {
				return at(fmt.Sprintf("printing changed the tree, output %q", out), src, a, b)
			}
			return nil
		},
	}
	props["C08"] = &Prop{
		Rule: "random accepted text with a random subset of the layout transforms; forms, comments and line-break runs compared",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genLayout(r)
			if chance(r, 20) {
				s = mutate(r, s)
			}
			c := srcCase(strings.ToValidUTF8(s, "?"))
			c.Opts = layout
			if chance(r, 60) {
				c.Opts = 1 << uint(r.Intn(nTransforms)) & layout
			} else if chance(r, 50) {
				c.Opts = r.Intn(1<<nTransforms) & layout
			}
			return c
		},
		Run: runC08,
	}
	props["C12"] = &Prop{
		Rule: "random ns forms and code formatted eight times with random settings; the outputs must be the same bytes",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genNS(r) + genBody(r)
			if chance(r, 30) {
				s = genForms(r, true)
			}
			c := srcCase(s)
			c.Opts = r.Intn(1 << nTransforms)
			if chance(r, 50) {
				c.Opts |= bit(format.TransformUseToRequire)
			}
			genCfg(r, c, []string{"x", "y", "a", "a.b/x", "b/x", "x/y", "f"})
			return c
		},
		Run: func(c *Case) error {
			var first string
			for i := 0; i < 8; i++ {
				_, out, ok, err := printed(c.src(), getCfg(c), c.Opts)
				if !ok {
					return nil
				}
				if err != nil {
					out = "error " + err.Error()
				}
				if i == 0 {
					first = out
				} else if out != first {
					return fmt.Errorf("two runs differ (transforms %#x)\n--- source %q\n--- first\n%s\n--- later\n%s", c.Opts, c.src(), first, out)
				}
			}
			return nil
		},
	}
	props["C13"] = &Prop{
		Rule: "a form whose head is looked up through overrides, requires and refers, printed and compared with an independent lookup and layout",
		Gen:  genLookup,
		Run:  runAgainstRef,
	}
	props["C16"] = &Prop{
		Rule: "a tree printed to a writer that fails after a given number of bytes (error, nothing taken, or a short write)",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genForms(r, false)
			if chance(r, 50) { // longer than the buffer
				s = strings.Repeat(s+"\n(foo \""+strings.Repeat("x", r.Intn(3000))+"\" [1 2])\n", 1+r.Intn(20))
			}
			c := srcCase(s)
			c.Ints = []int{r.Intn(100), r.Intn(3)}
			c.Opts = r.Intn(1 << nTransforms)
			return c
		},
		Run: func(c *Case) error {
			full := 0
			src := c.src()
			tree, err := read(src, optNS)
			if err != nil {
				return nil
			}
			want, err := formatTree(tree, cfg{}, c.Opts)
			if err != nil {
				return nil
			}
			full = len(want)
			for _, n := range []int{full * c.Ints[0] / 100, full - 1, 0, full} {
				if n < 0 {
					continue
				}
				tree, _ := read(src, optNS)
				w := &limitWriter{n: n, mode: c.Ints[1]}
				p := format.NewPrinter(w)
				setup(p, cfg{}, c.Opts)
				err := p.PrintTree(tree)
				if w.bad && err == nil {
					return fmt.Errorf("the writer failed after %d of %d bytes and PrintTree returned nil (mode %d)", n, full, c.Ints[1])
				}
				if err == nil && w.b.String() != want {
					return fmt.Errorf("PrintTree returned nil but wrote %q, not %q", w.b.String(), want)
				}
				if !w.bad && err != nil {
					return fmt.Errorf("PrintTree returned %v though no write failed", err)
				}
				if !strings.HasPrefix(want, w.b.String()) {
					return fmt.Errorf("bytes written before the failure are not a prefix of the output")
				}
			}
			return nil
		},
	}
	props["C17"] = &Prop{
		Rule: "forms with strings in and next to docstring position; every literal of the output compared with the source",
		Gen: func(r *rand.Rand, i int) *Case {
			c := srcCase(strings.ToValidUTF8(genDoc(r), "?"))
			genCfg(r, c, []string{"defn", "def", "ns", "foo", "x"})
			if chance(r, 50) {
				c.Opts = layout
			}
			return c
		},
		Run: runC17,
	}
	props["C18"] = &Prop{
		Rule: "random accepted text printed with every transform off under random overrides, compared byte for byte with an independent layout",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genForms(r, chance(r, 70))
			if chance(r, 40) {
				s = genStyled(r)
			}
			c := srcCase(strings.ToValidUTF8(s, "?"))
			genCfg(r, c, append(heads, "a", "b", "foo"))
			return c
		},
		Run: runAgainstRef,
	}
}

func runAgainstRef(c *Case) error {
	src := c.src()
	k := getCfg(c)
	in, out, ok, err := printed(src, k, 0)
	if !ok || err != nil {
		return err
	}
	if want := refPrint(in, k); want != out {
		return fmt.Errorf("layout differs from the documented one\n--- source %q\n--- config %v\n--- expected\n%s\n--- got\n%s", src, c.Map, want, out)
	}
	return nil
}

// genStyled writes one form of each style with many line breaks.
func genStyled(r *rand.Rand) string {
	g := &Gen{r: r, depth: 1, weird: chance(r, 30)}
	g.w("(" + pick(r, heads...))
	for k := r.Intn(9); k > 0; k-- {
		g.w(pick(r, " ", " ", "\n", "\n", "\n\n", "\n\n\n", " ;c\n", "\n;c\n", "\n\n;c\n\n"))
		switch r.Intn(8) {
		case 0, 1:
			g.w(pick(r, ":>>", ":let", "a", "^m", "#t", "#_d", ":k", "longer-symbol-name"))
		case 2, 3:
			g.w(pick(r, "[", "{", "(f ", "[", "(a [x] "))
			for j := r.Intn(6); j > 0; j-- {
				g.w(pick(r, "x", "yy", ":let", "[a\nb\n\nc]", "(f [x]\ny)", "^m", "1", "#_q", "(g x y)"))
				g.w(pick(r, " ", "\n", "\n\n", " ;c\n"))
			}
			s := g.b.String()
			i := strings.LastIndexAny(s, "[{(")
			_ = i
			g.b.Reset()
			g.w(closeInner(s))
		default:
			g.form()
		}
	}
	s := g.b.String()
	g.b.Reset()
	g.w(closeAll(s + pick(r, "", "\n", " ;c\n")))
	return g.b.String()
}

// closeInner closes all but the outermost bracket.
func closeInner(s string) string {
	t := closeAll(s)
	if len(t) > len(s) {
		return t[:len(t)-1]
	}
	return t
}

func genDoc(r *rand.Rand) string {
	str := func() string {
		var b strings.Builder
		b.WriteByte('"')
		for n := r.Intn(5); n > 0; n-- {
			b.WriteString(pick(r, "doc", " ", "  ", "\n", "\n   x", "\n\n", "\t", `\"`, `\\`, `\ `, "\\\n", "\u00a0", " y ", "\r\n", "é", "\n\t z", "\u2003", "a b", "\\ \n"))
		}
		b.WriteByte('"')
		return b.String()
	}
	sep := func() string {
		return pick(r, " ", " ", "\n", "\n  ", " ;c\n", "\n\n", " #_d ", "\n;c\n")
	}
	var b strings.Builder
	for n := 1 + r.Intn(2); n > 0; n-- {
		pre := pick(r, "", "", "", "", "(do ", "[", "'", "^m ")
		b.WriteString(pre)
		b.WriteString("(" + pick(r, "defn", "def", "ns", "defmacro", "defmulti", "defn", "defmethod", "defn-", "foo", "let", "defonce", ":ns"))
		if chance(r, 10) {
			b.WriteString(" ^m")
		}
		b.WriteString(sep())
		b.WriteString(pick(r, "x", "foo", "x", ":k", str(), "[x]"))
		for k := r.Intn(4); k > 0; k-- {
			b.WriteString(sep())
			b.WriteString(pick(r, str(), str(), "x", "[x]", "(f "+str()+")", ";c\n", "#_"+str(), "{:a "+str()+"}", str()+str(), "#\"a\n  b\""))
		}
		b.WriteString(pick(r, "", "\n", " ;c\n"))
		b.WriteString(")")
		switch pre {
		case "(do ":
			b.WriteString(")")
		case "[":
			b.WriteString("]")
		}
		b.WriteString(pick(r, "\n", " ", "\n\n"))
	}
	return b.String()
}

func runC17(c *Case) error {
	src := c.src()
	in, out, ok, err := printed(src, getCfg(c), c.Opts&layout)
	if !ok || err != nil {
		return err
	}
	got, err := reread(src, out)
	if err != nil {
		return err
	}
	doc := map[*T]bool{}
	for _, t := range in {
		if d := docstringOf(t); d != nil {
			doc[d] = true
		}
	}
	var a, b []*T
	var collect func(ts []*T, out *[]*T)
	collect = func(ts []*T, out *[]*T) {
		for _, t := range ts {
			if t.K == "str" || t.K == "regex" {
				*out = append(*out, t)
			}
			collect(t.Kids, out)
		}
	}
	collect(in, &a)
	collect(got, &b)
	if len(a) != len(b) {
		return fmt.Errorf("%d strings in %q, %d in the output %q", len(a), src, len(b), out)
	}
	for i := range a {
		x, y := a[i].Text, b[i].Text
		if doc[a[i]] {
			if docText(x) != docText(y) {
				return fmt.Errorf("docstring %q is printed as %q\n--- source %q", x, y, src)
			}
			continue
		}
		if x != y {
			return fmt.Errorf("string %q, which is no docstring, is printed as %q\n--- source %q", x, y, src)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C13
func genLookup(r *rand.Rand, i int) *Case {
	nss := []string{"a", "b", "a.b", "c.d"}
	names := []string{"f", "g", "let", "cond", "with-x", "defx", "when-z", "letq", "case", "f/g"}
	var b strings.Builder
	b.WriteString("(ns n")
	for k := r.Intn(3); k > 0; k-- {
		b.WriteString(" (" + pick(r, ":require", ":require", ":require-macros", ":use", "require"))
		for j := r.Intn(4); j > 0; j-- {
			open, close := "[", "]"
			if chance(r, 20) {
				open, close = "(", ")"
			}
			b.WriteString(" " + open + pick(r, nss...))
			if chance(r, 60) {
				b.WriteString(" :as " + pick(r, "x", "y", "a", "b", "a.b"))
			}
			if chance(r, 40) {
				b.WriteString(" " + pick(r, ":refer", ":refer", ":refer-macros") + " [" + pick(r, names...) + " " + pick(r, names...) + "]")
			}
			if chance(r, 5) {
				b.WriteString(" " + pick(r, ":only [f]", ":rename {f g}", ":refer :all", ";c\n", "^m :as z"))
			}
			b.WriteString(close)
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
	quals := append([]string{"x", "y", "z", "clojure.core"}, nss...)
	sym := func() string {
		s := pick(r, names...)
		if chance(r, 50) {
			s = pick(r, quals...) + "/" + s
		}
		return s
	}
	var threaded func(probe string, d int) string
	threaded = func(probe string, d int) string {
		s := "(" + pick(r, "->", "cond->", "some->", "x->")
		for k := r.Intn(4); k > 0; k-- {
			s += pick(r, " q", " q", "\n;c\nq", " #_q")
		}
		if d > 0 {
			s += "\n" + threaded(probe, d-1)
		} else {
			s += "\n" + probe
		}
		if chance(r, 50) {
			s += " " + probe
		}
		return s + ")"
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		probe := "(" + sym() + " [a\nb :let [c\nd]] (m [x]\ny)\nz\nw\nv\nu t\ns)"
		switch r.Intn(7) {
		case 5:
			probe = threaded(probe, r.Intn(3))
		case 0:
			probe = "(-> q\n" + probe + "\n" + probe + ")"
		case 1:
			probe = "(cond-> q\n" + probe + "\n" + probe + "\n" + probe + ")"
		case 2:
			probe = "(x->\n" + probe + "\n" + probe + ")"
		case 3:
			probe = "#" + probe
		case 4:
			probe = "(" + sym() + "\n" + probe + "\n" + probe + ")"
		}
		b.WriteString(probe + "\n")
	}
	c := srcCase(b.String())
	c.Map = map[string]string{}
	for n := r.Intn(5); n > 0; n-- {
		k := sym()
		if chance(r, 50) {
			k = pick(r, nss...) + "/" + pick(r, names...)
		}
		c.Map["i:"+k] = fmt.Sprint(styleList[r.Intn(len(styleList))])
	}
	if chance(r, 30) {
		c.Map["t:"+pick(r, "x->", "->", "f", "cond->")] = fmt.Sprint(r.Intn(2))
	}
	return c
}

var _ = sort.Strings
