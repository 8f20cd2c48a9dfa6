package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/cespare/goclj/parse"
)

// T is a syntax tree, either made by the reference reader below or converted
// from the tree cespare/goclj returns.
type T struct {
	K              string // list vector map set fn cond condsplice deref quote syntaxquote unquote splice meta discard eval, or a leaf kind
	Text           string // exact source text (leaves); namespace (map)
	Off, Line, Col int
	Kids           []*T
}

var leafKinds = map[string]bool{"sym": true, "kw": true, "num": true, "char": true, "str": true, "regex": true, "tag": true, "var": true, "comment": true, "newline": true, "nil": true, "bool": true}

func (t *T) semantic() bool { return t.K != "comment" && t.K != "newline" }

func (t *T) str(b *strings.Builder, pos bool) {
	b.WriteString(t.K)
	if pos {
		fmt.Fprintf(b, "@%d:%d:%d", t.Off, t.Line, t.Col)
	}
	if t.Text != "" {
		fmt.Fprintf(b, "%q", t.Text)
	}
	if len(t.Kids) > 0 || !leafKinds[t.K] {
		b.WriteString("<")
		for i, k := range t.Kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.str(b, pos)
		}
		b.WriteString(">")
	}
}

func dump(ts []*T, pos bool) string {
	var b strings.Builder
	for _, t := range ts {
		t.str(&b, pos)
		b.WriteString("\n")
	}
	return b.String()
}

func (t *T) String() string { return strings.TrimSuffix(dump([]*T{t}, false), "\n") }

// ---------------------------------------------------------------- from goclj
func conv(n parse.Node) *T {
	t := conv1(n)
	for _, c := range n.Children() {
		t.Kids = append(t.Kids, conv(c))
	}
	return t
}

func conv1(n parse.Node) *T {
	p := n.Position()
	t := &T{Off: p.Offset, Line: p.Line, Col: p.Col}
	switch n := n.(type) {
	case *parse.SymbolNode:
		t.K, t.Text = "sym", n.Val
	case *parse.KeywordNode:
		t.K, t.Text = "kw", n.Val
	case *parse.NumberNode:
		t.K, t.Text = "num", n.Val
	case *parse.CharacterNode:
		t.K, t.Text = "char", n.Text
	case *parse.StringNode:
		t.K, t.Text = "str", `"`+n.Val+`"`
	case *parse.RegexNode:
		t.K, t.Text = "regex", `"`+n.Val+`"`
	case *parse.TagNode:
		t.K, t.Text = "tag", n.Val
	case *parse.VarQuoteNode:
		t.K, t.Text = "var", n.Val
	case *parse.CommentNode:
		t.K, t.Text = "comment", n.Text
	case *parse.NewlineNode:
		t.K = "newline"
	case *parse.NilNode:
		t.K, t.Text = "nil", "nil"
	case *parse.BoolNode:
		t.K, t.Text = "bool", fmt.Sprint(n.Val)
	case *parse.ListNode:
		t.K = "list"
	case *parse.VectorNode:
		t.K = "vector"
	case *parse.MapNode:
		t.K, t.Text = "map", n.Namespace
	case *parse.SetNode:
		t.K = "set"
	case *parse.FnLiteralNode:
		t.K = "fn"
	case *parse.ReaderCondNode:
		t.K = "cond"
	case *parse.ReaderCondSpliceNode:
		t.K = "condsplice"
	case *parse.DerefNode:
		t.K = "deref"
	case *parse.QuoteNode:
		t.K = "quote"
	case *parse.SyntaxQuoteNode:
		t.K = "syntaxquote"
	case *parse.UnquoteNode:
		t.K = "unquote"
	case *parse.UnquoteSpliceNode:
		t.K = "splice"
	case *parse.MetadataNode:
		t.K = "meta"
	case *parse.ReaderDiscardNode:
		t.K = "discard"
	case *parse.ReaderEvalNode:
		t.K = "eval"
	default:
		panic(fmt.Sprintf("unknown node %T", n))
	}
	return t
}

func convAll(ns []parse.Node) []*T {
	var r []*T
	for _, n := range ns {
		r = append(r, conv(n))
	}
	return r
}

const (
	optNS      = int(parse.IncludeNonSemantic)
	optComment = int(parse.IgnoreCommentForm)
	optDiscard = int(parse.IgnoreReaderDiscard)
)

func read(src string, opts int) (*parse.Tree, error) {
	return parse.Reader(strings.NewReader(src), "in.clj", parse.ParseOpts(opts))
}

// ---------------------------------------------------------------- reference reader
type tok struct {
	typ            string // ( ) [ ] { } ' ` ~ @ ^ # sym kw num char str comment newline #x eof err
	text           string
	off, line, col int
	end            int
}

type refErr struct {
	kind string
	off  int
}

func (e refErr) Error() string { return e.kind }

func refSpace(r rune) bool { return unicode.IsSpace(r) || r == ',' }

func refSym(r rune) bool {
	return !refSpace(r) && !strings.ContainsRune("\";@^~()[]{}\\", r)
}

// tokens splits src the way the documentation describes; the last token is eof
// or err.
func tokens(src string) []tok {
	var ts []tok
	i, line, bol := 0, 1, 0
	at := func(typ string, a, b int) {
		ts = append(ts, tok{typ, src[a:b], a, line, a - bol + 1, b})
	}
	symEnd := func(j int) int {
		for j < len(src) {
			r, w := utf8.DecodeRuneInString(src[j:])
			if !refSym(r) {
				break
			}
			j += w
		}
		return j
	}
	for i < len(src) {
		r, w := utf8.DecodeRuneInString(src[i:])
		a := i
		switch {
		case r == '\n':
			at("newline", i, i+1)
			i++
			line++
			bol = i
			continue
		case refSpace(r):
			i += w
			continue
		case strings.ContainsRune("()[]{}'`~@^", r):
			i++
			at(string(r), a, i)
			continue
		case r == ';':
			for i < len(src) && src[i] != '\n' && src[i] != '\r' {
				i++
			}
			at("comment", a, i)
			continue
		case r == '"':
			l0, b0 := line, bol
			i++
			closed := false
			for i < len(src) && !closed {
				switch src[i] {
				case '\\':
					i++
					if i < len(src) && src[i] == '\n' {
						line++
						bol = i + 1
					}
				case '\n':
					line++
					bol = i + 1
				case '"':
					closed = true
				}
				i++
			}
			if !closed {
				ts = append(ts, tok{"err", "unterminated string", a, l0, a - b0 + 1, len(src)})
				return ts
			}
			ts = append(ts, tok{"str", src[a:i], a, l0, a - b0 + 1, i})
			continue
		case r == '\\':
			i++
			if i == len(src) {
				ts = append(ts, tok{"err", "char at end", a, line, a - bol + 1, len(src)})
				return ts
			}
			l0, b0 := line, bol
			r2, w2 := utf8.DecodeRuneInString(src[i:])
			i += w2
			if r2 == '\n' {
				line++
				bol = i
			}
			i = symEnd(i)
			ts = append(ts, tok{"char", src[a:i], a, l0, a - b0 + 1, i})
			continue
		case r == ':':
			i = symEnd(i + 1)
			at("kw", a, i)
			continue
		case r >= '0' && r <= '9', (r == '+' || r == '-') && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			i = symEnd(i + w)
			at("num", a, i)
			continue
		case r == '#':
			if i+1 == len(src) {
				i++
				at("#", a, i)
				continue
			}
			switch c := src[i+1]; c {
			case '{', '(', '"':
				at("#"+string(c), a, i+2)
				i++
			case '?':
				i += 2
				if i < len(src) && src[i] == '@' {
					i++
				}
				at(src[a:i], a, i)
			case ':':
				at("#:", a, i+2)
				i++
			case '\'', '_', '^', '=':
				i += 2
				at(src[a:i], a, i)
			case '!':
				for i < len(src) && src[i] != '\n' && src[i] != '\r' {
					i++
				}
				at("comment", a, i)
			case '<':
				at("err", a, len(src))
				return ts
			default:
				i++
				at("#", a, i)
			}
			continue
		default:
			i = symEnd(i + w)
			at("sym", a, i)
		}
	}
	ts = append(ts, tok{"eof", "", len(src), line, len(src) - bol + 1, len(src)})
	return ts
}

type refReader struct {
	ts []tok
	i  int
	fn bool
}

func (p *refReader) peek() tok { return p.ts[p.i] }
func (p *refReader) next() tok {
	t := p.ts[p.i]
	if t.typ != "eof" && t.typ != "err" {
		p.i++
	}
	return t
}

func (p *refReader) fail(kind string, t tok) { panic(refErr{kind, t.off}) }

var closer = map[string]string{"(": ")", "[": "]", "{": "}"}
var prefixKind = map[string]string{"'": "quote", "`": "syntaxquote", "@": "deref", "^": "meta", "#^": "meta", "#_": "discard", "#=": "eval", "~": "unquote", "~@": "splice"}

func (p *refReader) form() *T {
	t := p.next()
	n := &T{Off: t.off, Line: t.line, Col: t.col}
	leaf := func(k string) *T { n.K, n.Text = k, t.text; return n }
	body := func(k, open string) *T {
		n.K = k
		for {
			x := p.peek()
			if x.typ == closer[open] {
				p.next()
				return n
			}
			if x.typ == "eof" {
				p.fail("unclosed "+open, x)
			}
			n.Kids = append(n.Kids, p.form())
		}
	}
	prefix := func(k string) *T {
		n.K = k
		for {
			x := p.peek()
			if x.typ == "eof" {
				p.fail("prefix without form", x)
			}
			f := p.form()
			if f.semantic() {
				n.Kids = []*T{f}
				return n
			}
		}
	}
	switch t.typ {
	case "err":
		p.fail("lexical: "+t.text, t)
	case "eof":
		p.fail("eof", t)
	case "sym":
		switch t.text {
		case "nil":
			return leaf("nil")
		case "true", "false":
			return leaf("bool")
		}
		return leaf("sym")
	case "kw", "num", "str", "comment":
		return leaf(t.typ)
	case "newline":
		n.K = "newline"
		return n
	case "char":
		if _, ok := charValue(t.text); !ok {
			p.fail("bad character literal", t)
		}
		return leaf("char")
	case "(":
		return body("list", "(")
	case "[":
		return body("vector", "[")
	case "{":
		return body("map", "{")
	case "#{":
		p.next()
		return body("set", "{")
	case "#(":
		if p.fn {
			p.fail("nested fn literal", t)
		}
		p.fn = true
		p.next()
		r := body("fn", "(")
		p.fn = false
		return r
	case "#?", "#?@":
		x := p.next()
		if x.typ != "(" {
			p.fail("reader conditional without list", x)
		}
		if t.typ == "#?" {
			return body("cond", "(")
		}
		return body("condsplice", "(")
	case "#:":
		ns := p.next()
		if ns.typ != "kw" {
			p.fail("namespaced map", ns)
		}
		x := p.next()
		if x.typ != "{" {
			p.fail("namespaced map without map", x)
		}
		r := body("map", "{")
		r.Text = ns.text
		return r
	case `#"`:
		s := p.next()
		if s.typ != "str" {
			p.fail("regex", s)
		}
		n.K, n.Text = "regex", s.text
		return n
	case "#'", "#":
		s := p.next()
		if s.typ != "sym" {
			p.fail("tag or var quote without symbol", s)
		}
		n.K, n.Text = map[string]string{"#'": "var", "#": "tag"}[t.typ], s.text
		return n
	case "~":
		if x := p.peek(); x.typ == "@" && x.off == t.off+1 {
			p.next()
			return prefix("splice")
		}
		return prefix("unquote")
	case "'", "`", "@", "^", "#^", "#_", "#=":
		return prefix(prefixKind[t.typ])
	}
	p.fail("unexpected "+t.typ, t)
	return nil
}

// reference reads all of src.
func reference(src string) (roots []*T, err error) {
	defer func() {
		if e := recover(); e != nil {
			re, ok := e.(refErr)
			if !ok {
				panic(e)
			}
			roots, err = nil, re
		}
	}()
	p := &refReader{ts: tokens(src)}
	for p.peek().typ != "eof" {
		roots = append(roots, p.form())
	}
	return roots, nil
}

// charValue is the value of a character literal's text as Clojure reads it.
func charValue(text string) (rune, bool) {
	rs := []rune(text)
	if len(rs) < 2 || rs[0] != '\\' {
		return 0, false
	}
	rs = rs[1:]
	if len(rs) == 1 {
		return rs[0], true
	}
	switch string(rs) {
	case "newline":
		return '\n', true
	case "space":
		return ' ', true
	case "tab":
		return '\t', true
	case "formfeed":
		return '\f', true
	case "backspace":
		return '\b', true
	case "return":
		return '\r', true
	}
	digits := func(base int) (rune, bool) {
		v := 0
		for _, r := range rs[1:] {
			d := strings.IndexRune("0123456789abcdef", unicode.ToLower(r))
			if r > 127 || d < 0 || d >= base {
				return 0, false
			}
			v = v*base + d
		}
		return rune(v), true
	}
	switch {
	case rs[0] == 'u' && len(rs) == 5:
		return digits(16)
	case rs[0] == 'o' && len(rs) >= 2 && len(rs) <= 4:
		v, ok := digits(8)
		return v, ok && v <= 0377
	}
	return 0, false
}
