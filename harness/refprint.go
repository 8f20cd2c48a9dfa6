package main

import (
	"sort"
	"strings"
	"unicode"
)

// A reference printer: what the documentation says the formatter writes for a
// tree when no transform is on.

type cfg struct {
	indent map[string]int // name -> style
	thread map[string]int // name -> 0 normal, 1 cond->
	char   rune
}

const (
	stNormal = iota
	stList
	stListBody
	stLet
	stFor
	stBindings
	stLetfn
	stDeftype
	stCond0
	stCond1
	stCond2
	stCond4
)

var defaultStyles = func() map[string]int {
	m := map[string]int{}
	add := func(st int, names string) {
		for _, n := range strings.Fields(names) {
			m[n] = st
		}
	}
	add(stListBody, "as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest- doto fn if if-not locking ns send-off set-test testing update update-in when when-not while with-bindings with-in-str with-precision with-redefs-fn with-test")
	add(stLet, "binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs")
	add(stFor, "doseq for")
	add(stLetfn, "letfn")
	add(stDeftype, "definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify")
	add(stCond0, "cond")
	add(stCond1, "assoc case cond-> cond->>")
	add(stCond2, "condp defproject")
	add(stListBody, "extend")
	return m
}()

var defaultThread = map[string]int{"->": 0, "cond->": 1, "some->": 0}

type refPrinter struct {
	c         cfg
	b         strings.Builder
	special   map[*T]int
	threaded  map[*T]bool
	doc       map[*T]bool
	aliases   map[string]string
	referred  map[string]string
	ambiguous bool
}

func (t *T) counts() bool { // elements that take a position of their own
	return t.K != "comment" && t.K != "newline" && t.K != "meta" && t.K != "tag"
}

func (t *T) headed(kind string, names ...string) bool {
	if t.K != "list" || len(t.Kids) == 0 || t.Kids[0].K != kind {
		return false
	}
	for _, n := range names {
		if t.Kids[0].Text == n {
			return true
		}
	}
	return len(names) == 0
}

func without(ts []*T, kinds ...string) []*T {
	var out []*T
	for _, t := range ts {
		drop := false
		for _, k := range kinds {
			drop = drop || t.K == k
		}
		if !drop {
			out = append(out, t)
		}
	}
	return out
}

// docstring of a top-level form, or nil.
func docstringOf(t *T) *T {
	if !t.headed("sym", "ns", "defmulti", "def", "defmacro", "defn") || len(t.Kids) < 3 || t.Kids[1].K != "sym" {
		return nil
	}
	rest := without(t.Kids[2:], "newline")
	if len(rest) == 0 || rest[0].K != "str" {
		return nil
	}
	if len(without(rest[1:], "comment", "discard")) == 0 {
		return nil
	}
	return rest[0]
}

// entry is what one :require entry names.
type entry struct {
	ns            string
	as            []string
	refers        []string
	macros        []string
	all           bool
	known, hasSeq bool
}

func requireEntry(t *T) *entry {
	switch t.K {
	case "sym":
		return &entry{ns: t.Text, known: true}
	case "list", "vector":
	default:
		return nil
	}
	ks := filter(t.Kids, (*T).counts)
	if len(ks) == 0 || ks[0].K != "sym" || len(ks)%2 == 0 {
		return nil
	}
	e := &entry{ns: ks[0].Text, known: true, hasSeq: true}
	for i := 1; i < len(ks); i += 2 {
		k, v := ks[i], ks[i+1]
		if k.K != "kw" {
			return nil
		}
		switch k.Text {
		case ":as":
			if v.K != "sym" {
				return nil
			}
			e.as = []string{v.Text}
		case ":refer", ":refer-macros":
			if v.K != "list" && v.K != "vector" {
				return nil
			}
			var names []string
			for _, x := range filter(v.Kids, (*T).counts) {
				if x.K != "sym" {
					return nil
				}
				names = append(names, x.Text)
			}
			if k.Text == ":refer" {
				e.refers = names
			} else {
				e.macros = names
			}
		default:
			return nil
		}
	}
	return e
}

func filter(ts []*T, f func(*T) bool) []*T {
	var out []*T
	for _, t := range ts {
		if f(t) {
			out = append(out, t)
		}
	}
	return out
}

func newRefPrinter(roots []*T, c cfg) *refPrinter {
	p := &refPrinter{c: c, special: map[*T]int{}, threaded: map[*T]bool{}, doc: map[*T]bool{}, aliases: map[string]string{}, referred: map[string]string{}}
	set := func(m map[string]string, k, v string) { m[k] = v }
	for _, t := range roots {
		if d := docstringOf(t); d != nil {
			p.doc[d] = true
		}
		p.markThreads(t)
		if t.headed("sym", "ns") {
			for _, cl := range t.Kids {
				if !cl.headed("kw", ":require", ":require-macros") {
					continue
				}
				for _, x := range cl.Kids[1:] {
					if e := requireEntry(x); e != nil {
						for _, a := range e.as {
							set(p.aliases, a, e.ns)
						}
						for _, a := range e.refers {
							set(p.referred, a, e.ns)
						}
						for _, a := range e.macros {
							set(p.referred, a, e.ns)
						}
					}
				}
			}
		}
	}
	return p
}

func (p *refPrinter) threadStyle(name string) (int, bool) {
	if s, ok := p.c.thread[name]; ok {
		return s, true
	}
	s, ok := defaultThread[name]
	return s, ok
}

func (p *refPrinter) markThreads(t *T) {
	if (t.K == "list" || t.K == "fn") && len(t.Kids) > 0 && t.Kids[0].K == "sym" {
		if st, ok := p.threadStyle(t.Kids[0].Text); ok {
			first := 2
			if p.threaded[t] {
				first = 1
			}
			for i, x := range without(t.Kids, "comment", "newline") {
				if x.K != "list" || i < first {
					continue
				}
				if st == 0 || (i-first)%2 == 1 {
					p.threaded[x] = true
				}
			}
		}
	}
	for _, k := range t.Kids {
		p.markThreads(k)
	}
}

func (p *refPrinter) rule(name string) (int, bool) {
	if s, ok := p.c.indent[name]; ok {
		return s, true
	}
	s, ok := defaultStyles[name]
	return s, ok
}

// lookup is the documented precedence.
func (p *refPrinter) lookup(name string) (int, bool) {
	var tries []string
	if i := strings.LastIndex(name, "/"); i >= 0 {
		if ns, ok := p.aliases[name[:i]]; ok {
			tries = append(tries, ns+"/"+name[i+1:])
		}
		tries = append(tries, name[i+1:])
	} else if ns, ok := p.referred[name]; ok {
		tries = append(tries, ns+"/"+name)
	}
	for _, n := range append(tries, name) {
		if s, ok := p.rule(n); ok {
			return s, true
		}
	}
	return 0, false
}

func (p *refPrinter) styleOf(kids []*T) int {
	if len(kids) == 0 {
		return stNormal
	}
	switch kids[0].K {
	case "kw":
		return stList
	case "sym":
		name := kids[0].Text
		if s, ok := p.lookup(name); ok {
			return s
		}
		name = name[strings.LastIndex(name, "/")+1:]
		for _, pre := range []string{"def", "let", "with-", "when-"} {
			if strings.HasPrefix(name, pre) {
				return stListBody
			}
		}
		return stList
	}
	return stNormal
}

func (p *refPrinter) markSpecial(t *T) {
	if len(t.Kids) == 0 || t.Kids[0].K != "sym" {
		return
	}
	st, _ := p.lookup(t.Kids[0].Text)
	args := filter(t.Kids[1:], (*T).counts)
	switch st {
	case stLet, stFor, stLetfn:
		if len(args) == 0 || args[0].K != "vector" {
			return
		}
		v := args[0]
		switch st {
		case stLetfn:
			for _, f := range v.Kids {
				if f.K == "list" {
					p.special[f] = stListBody
				}
			}
			return
		case stFor:
			es := filter(v.Kids, (*T).counts)
			for i := 0; i+1 < len(es); i += 2 {
				if es[i].K == "kw" && es[i].Text == ":let" && es[i+1].K == "vector" {
					p.special[es[i+1]] = stBindings
				}
			}
		}
		p.special[v] = stBindings
	case stDeftype:
		for _, f := range t.Kids[1:] {
			if f.K == "list" {
				p.special[f] = stListBody
			}
		}
	}
}

func (p *refPrinter) w(s string) int { p.b.WriteString(s); return len(s) }

func (p *refPrinter) node(t *T, col int) int {
	wrap := func(open string) int {
		col += p.w(open)
		for _, k := range t.Kids {
			col = p.node(k, col)
		}
		return col
	}
	body := func(open, close string, st int) int {
		col += p.w(open)
		col = p.seq(t.Kids, col, st)
		return col + p.w(close)
	}
	switch t.K {
	case "list":
		p.markSpecial(t)
		st, ok := p.special[t]
		if !ok {
			st = p.styleOf(t.Kids)
		}
		if p.threaded[t] {
			switch st {
			case stCond1:
				st = stCond0
			case stCond2:
				st = stCond1
			}
		}
		return body("(", ")", st)
	case "vector":
		st, ok := p.special[t]
		if !ok {
			st = stNormal
		}
		return body("[", "]", st)
	case "set":
		return body("#{", "}", stNormal)
	case "map":
		if t.Text != "" {
			col += p.w("#" + t.Text)
		}
		return body("{", "}", stBindings)
	case "fn":
		return body("#(", ")", p.styleOf(t.Kids))
	case "cond":
		return body("#?(", ")", stBindings)
	case "condsplice":
		return body("#?@(", ")", stBindings)
	case "quote":
		return wrap("'")
	case "syntaxquote":
		return wrap("`")
	case "unquote":
		if t.Kids[0].K == "deref" {
			return wrap("~ ")
		}
		return wrap("~")
	case "splice":
		return wrap("~@")
	case "deref":
		return wrap("@")
	case "meta":
		return wrap("^")
	case "discard":
		return wrap("#_")
	case "eval":
		return wrap("#=")
	case "str":
		s := t.Text
		if p.doc[t] {
			s = alignDoc(s, col, p.c.char)
		}
		return col + p.w(s)
	case "regex":
		return col + p.w("#"+t.Text)
	case "tag":
		if strings.ContainsAny(t.Text[:1], "_=?!<") {
			return col + p.w("# "+t.Text)
		}
		return col + p.w("#"+t.Text)
	case "var":
		return col + p.w("#'"+t.Text)
	}
	return col + p.w(t.Text)
}

// alignDoc re-aligns the lines of a docstring (with its quotes) behind col.
func alignDoc(s string, col int, ch rune) string {
	s = s[1 : len(s)-1]
	lines := strings.Split(s, "\n")
	for i, l := range lines[1:] {
		text := strings.TrimLeftFunc(l, unicode.IsSpace)
		core := strings.TrimRightFunc(text, unicode.IsSpace)
		n := 0
		for strings.HasSuffix(core[:len(core)-n], `\`) {
			n++
		}
		if n%2 == 1 && len(core) < len(text) {
			r := []rune(text[len(core):])[0]
			core += string(r)
		}
		if core != "" {
			lead := len(l) - len(strings.TrimLeft(l, " "))
			if strings.Trim(l, " ") == "" {
				lead = 0
			}
			pad := strings.Repeat(string(ch), col)
			if lead > col {
				pad += strings.Repeat(" ", lead-col)
			}
			core = pad + core
		}
		lines[i+1] = core
	}
	return `"` + strings.Join(lines, "\n") + `"`
}

// second says of each kid whether it is the second (or third, after :>>) of a
// pair; begun says the same of the place before it.
func pairs(kids []*T, start int) (inPair []bool) {
	pos, n := 0, 0
	for _, k := range kids {
		inPair = append(inPair, n >= start && pos > 0)
		if !k.counts() {
			continue
		}
		if n >= start {
			pos++
			if pos > 2 || pos == 2 && !(k.K == "kw" && k.Text == ":>>") {
				pos = 0
			}
		}
		n++
	}
	inPair = append(inPair, n >= start && pos > 0)
	return
}

// seq prints the elements of a form whose first element is at col and returns
// the column behind the last one.
func (p *refPrinter) seq(kids []*T, col int, st int) int {
	leading := map[int]int{stBindings: 0, stCond0: 1, stCond1: 2, stCond2: 3, stCond4: 5}
	start, paired := leading[st]
	inPair := pairs(kids, start)
	bodyStyle := st == stListBody || st == stLet || st == stLetfn || st == stFor || st == stDeftype
	base := col   // where a line begins
	cur := col    // column behind what was printed
	extra := 0    // for the second element of a pair, when it begins a line
	pend := false // a line has begun
	firstEnd, firstLen := 0, 0
	lineBreak := func(more int) {
		p.w("\n")
		extra, pend = more, true
		cur = base + more
	}
	indent := func() {
		cur = base + extra
		p.w(strings.Repeat(string(p.c.char), cur))
		pend = false
	}
	for i, k := range kids {
		if k.K == "newline" {
			more := 0
			if paired && inPair[i] {
				more = 2
			} else if i == 1 && (bodyStyle || st == stList || paired && kids[0].counts()) {
				base++
			}
			lineBreak(more)
			continue
		}
		if i > 0 && kids[i-1].K == "comment" {
			more := 0
			if paired && inPair[i] {
				more = 2
			}
			lineBreak(more)
		}
		if i == 1 && st != stNormal && st != stBindings {
			if (st == stList || st == stCond0) && (k.K != "comment" || firstLen <= 12) {
				base = firstEnd + 1
			} else {
				base++
			}
		}
		if pend {
			indent()
		} else if i > 0 {
			cur += p.w(" ")
		}
		extra = 0
		was := cur
		cur = p.node(k, cur)
		if i == 0 {
			firstEnd, firstLen = cur, cur-was
		}
	}
	if len(kids) > 0 && kids[len(kids)-1].K == "comment" && col > 0 {
		lineBreak(0)
	}
	if pend {
		indent()
	}
	return cur
}

func refPrint(roots []*T, c cfg) string {
	if c.char == 0 {
		c.char = ' '
	}
	p := newRefPrinter(roots, c)
	p.seq(roots, 0, stNormal)
	return p.b.String()
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
