package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"
)

var nsNames = []string{"a", "b", "a.b", "a-b", "c.d", "B", "z", "java.util.Date", "java.util", "f.g-h", "aa"}
var refNames = []string{"f", "g", "h", "F", "/", "x*"}

// entryText writes one entry of an ns clause.
func entryText(r *rand.Rand, odd int) string {
	n := pick(r, nsNames...)
	if chance(r, odd) {
		return pick(r, `"s"`, `"lib"`, "#_x", "#_[a :as b]", "#?(:clj [a :as b])", "#?@(:clj [a])", "{a b}", ":reload", "[]", "()", "[\"s\" :as x]", "[:k]", "a/b", "'q", "1", "#{a}", "[[a]]", "(a b c)", "[a b]", "[a [b :as c]]", "[a :only]", "^m x", "^:k [a :as b]", "#t b", "^m ^n a", "[a :rename {f g}]", "[a :as b :refer [f] :x y]", "[a :refer f]", "[a :refer :all]", "[a :as :b]", "[a :refer [:f]]", "[a :as x :as y]", "[a ;c\n :as x]", "[a :refer [f ;c\n g]]", "[a :only [f]]", "[a :exclude [f]]", "(a :only (f g))", "[;c\na]", "[^m a]", "^m")
	}
	if chance(r, 30) {
		return n
	}
	open, close := "[", "]"
	if chance(r, 25) {
		open, close = "(", ")"
	}
	s := n
	if chance(r, 50) {
		s += " :as " + pick(r, "x", "y", "w", "a")
	}
	for k := r.Intn(3); k > 0; k-- {
		kw := pick(r, ":refer", ":refer", ":refer-macros", ":only")
		if kw == ":only" && chance(r, 60) {
			continue
		}
		o, c := "[", "]"
		if chance(r, 30) {
			o, c = "(", ")"
		}
		var ns []string
		for j := r.Intn(4); j > 0; j-- {
			ns = append(ns, pick(r, refNames...))
		}
		s += " " + kw + " " + o + strings.Join(ns, " ") + c
	}
	return open + s + close
}

// genClause writes one clause with head kw.
func genClause(r *rand.Rand, kw string, odd int, comments bool) string {
	var b strings.Builder
	open, close := "(", ")"
	if chance(r, odd) {
		open, close = "[", "]"
	}
	b.WriteString(open + kw)
	sep := func() {
		if comments {
			b.WriteString(pick(r, " ", " ", "\n", "\n", "\n", " ;"+pick(r, "p", "q")+"\n", "\n;r\n", "\n;s\n;t\n", "\n\n"))
		} else {
			b.WriteString(pick(r, " ", "\n"))
		}
	}
	for k := r.Intn(6); k > 0; k-- {
		sep()
		b.WriteString(entryText(r, odd))
	}
	if chance(r, 30) {
		sep()
	}
	b.WriteString(close)
	return b.String()
}

func genNS(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("(ns " + pick(r, "n", "^m n", "my.ns"))
	if chance(r, 20) {
		b.WriteString("\n\"doc\"")
	}
	odd := pick(r, "0", "10", "30")
	o := 0
	fmt.Sscanf(odd, "%d", &o)
	for k := 1 + r.Intn(4); k > 0; k-- {
		b.WriteString(pick(r, " ", "\n", "\n", "\n", " ;c\n", "\n\n"))
		kw := pick(r, ":require", ":require", ":require", ":use", ":use", ":import", ":import", ":require-macros", ":refer-clojure", ":load", ":gen-class", ":use-macros")
		if chance(r, o) {
			kw = pick(r, "require", "import", "use", "refer-clojure", "load", "gen-class", ":x", "require-macros", ":", "\"s\"", ":requirex")
		}
		if chance(r, 5) {
			b.WriteString(pick(r, "x", "{:a 1}", "#_(:require a)", "^m", "()", "[]"))
			continue
		}
		b.WriteString(genClause(r, kw, o, chance(r, 50)))
	}
	b.WriteString(pick(r, ")\n", "\n)\n", " ;e\n)\n"))
	return b.String()
}

func genBody(r *rand.Rand) string {
	var b strings.Builder
	for k := r.Intn(5); k > 0; k-- {
		use := func() string {
			n := pick(r, append([]string{"x", "y", "w"}, nsNames...)...)
			return pick(r, n+"/v", "#'"+n+"/v", "::"+n+"/k", "#::"+n+"{:a 1}", pick(r, refNames...), "#'"+pick(r, refNames...), ":"+n+"/v", "#:"+n+"{:a 1}", "\""+n+"/v\"", "x/y/z", "::x", "#::{}", n+"//")
		}
		b.WriteString(strings.ReplaceAll(pick(r, "U", "(do U)", "[U U]", "{U U}", "'U", "#_U", "(fn [] (U U))", "^U z", "#(U)", "#{U}", "@U", "~U", "`U", "~@U", "#?(:clj U)", "#?@(:clj [U])", "(if ^{:t U} a b)", "#=U", "(def z\n;c\nU)"), "U", use()) + "\n")
	}
	return b.String()
}

// nsClauses are the elements of the ns form of a tree without anything else.
func nsForm(ts []*T) *T {
	for _, t := range ts {
		if t.headed("sym", "ns") {
			return t
		}
	}
	return nil
}

// group is an entry with what belongs to it.
type group struct {
	text   string   // metadata, tags and the entry
	above  []string // comments
	beside string
	key    string
	hasKey bool
	vague  bool
}

func flat(t *T) string { return dump(stripNewlines(clone([]*T{t})), false) }

// groups splits the elements behind a clause head.
func groups(kids []*T) (gs []*group, below []string) {
	var above, prefix []string
	afterEntry := false
	for _, k := range kids {
		switch k.K {
		case "newline":
			afterEntry = false
		case "comment":
			if afterEntry {
				gs[len(gs)-1].beside = k.Text
			} else {
				above = append(above, k.Text)
			}
			afterEntry = false
		case "meta", "tag":
			prefix = append(prefix, flat(k))
			afterEntry = false
		default:
			g := &group{text: strings.Join(append(prefix, flat(k)), ""), above: above}
			switch k.K {
			case "sym":
				g.key, g.hasKey = k.Text, true
			case "list", "vector":
				if len(k.Kids) > 0 && k.Kids[0].K == "sym" {
					g.key, g.hasKey = k.Kids[0].Text, true
				} else if f := without(k.Kids, "newline", "comment", "meta", "tag"); len(f) > 0 && f[0].K == "sym" {
					g.vague = true
				}
			}
			gs = append(gs, g)
			above, prefix = nil, nil
			afterEntry = true
		}
	}
	for _, x := range prefix {
		gs = append(gs, &group{text: x})
	}
	return gs, above
}

func (g *group) String() string {
	return fmt.Sprintf("above %q beside %q %s", g.above, g.beside, g.text)
}

func runC09(c *Case) error {
	src := c.src()
	if strings.Contains(src, "\r") || strings.Contains(src, "#!") {
		return nil
	}
	in, out, ok, err := printed(src, cfg{}, bit(format.TransformSortImportRequire))
	if !ok || err != nil {
		return err
	}
	got, err := reread(src, out)
	if err != nil {
		return err
	}
	if len(in) != len(got) {
		a, b := dump(stripNewlines(clone(in)), false), dump(stripNewlines(clone(got)), false)
		if a != b {
			return at("top-level forms changed", src, a, b)
		}
	}
	for i := range in {
		if i >= len(got) {
			break
		}
		x, y := in[i], got[i]
		if !x.headed("sym", "ns") {
			if a, b := dump(canon([]*T{x}), false), dump(canon([]*T{y}), false); a != b {
				return at("a form other than ns changed", src, a, b)
			}
			continue
		}
		if d, e := docstringOf(x), docstringOf(y); d != nil && e != nil {
			d.Text, e.Text = docText(d.Text), docText(e.Text)
		}
		xs, ys := without(x.Kids, "newline"), without(y.Kids, "newline")
		if len(xs) != len(ys) {
			return at("elements of ns changed", src, flat(x), flat(y))
		}
		for j := range xs {
			if !xs[j].headed("kw", ":require", ":require-macros", ":import") {
				if flat(xs[j]) != flat(ys[j]) {
					return at("an element of ns that is not sorted changed", src, flat(xs[j]), flat(ys[j]))
				}
				continue
			}
			if ys[j].K != "list" || len(ys[j].Kids) == 0 || flat(ys[j].Kids[0]) != flat(xs[j].Kids[0]) {
				return at("the head of a clause changed", src, flat(xs[j]), flat(ys[j]))
			}
			gs, below := groups(xs[j].Kids[1:])
			hs, below2 := groups(ys[j].Kids[1:])
			vague := false
			for _, g := range gs {
				vague = vague || g.vague
			}
			if vague {
				continue
			}
			sort.SliceStable(gs, func(a, b int) bool {
				if gs[a].hasKey != gs[b].hasKey {
					return gs[a].hasKey
				}
				return gs[a].hasKey && gs[a].key < gs[b].key
			})
			want, have := "", ""
			for _, g := range gs {
				want += g.String()
			}
			for _, g := range hs {
				have += g.String()
			}
			want += fmt.Sprintf("below %q\n", below)
			have += fmt.Sprintf("below %q\n", below2)
			if want != have {
				return at("sorted clause is wrong, output\n"+out, src, want, have)
			}
		}
	}
	return nil
}

func sym(s string) *T { return &T{K: "sym", Text: s} }

// styled is the documented effect of enforce-ns-style on an ns form, line
// breaks aside; heads lists the clauses that get a line break behind the head.
func styled(ns *T) *T {
	n := *ns
	n.Kids = append([]*T{}, ns.Kids...)
	for i, k := range n.Kids {
		if i == 0 || k.K != "list" && k.K != "vector" || len(k.Kids) == 0 {
			continue
		}
		h := k.Kids[0]
		name := ""
		switch h.K {
		case "kw":
			name = h.Text[1:]
		case "sym":
			name = h.Text
		}
		switch name {
		case "refer-clojure", "require", "require-macros", "use", "import", "load", "gen-class":
		default:
			continue
		}
		c := &T{K: "list", Kids: append([]*T{}, k.Kids...)}
		if h.K == "sym" {
			c.Kids[0] = &T{K: "kw", Text: ":" + name}
		}
		if len(c.Kids) > 1 && name != "refer-clojure" && c.Kids[1].counts() {
			c.Kids = append([]*T{c.Kids[0], {K: "newline"}}, c.Kids[1:]...)
		}
		for j, e := range c.Kids {
			if j == 0 {
				continue
			}
			switch name {
			case "require", "require-macros":
				switch e.K {
				case "sym":
					c.Kids[j] = &T{K: "vector", Kids: []*T{e}}
				case "list", "vector":
					v := &T{K: "vector"}
					for _, x := range e.Kids {
						if x.K == "list" {
							x = &T{K: "vector", Kids: x.Kids}
						}
						v.Kids = append(v.Kids, x)
					}
					c.Kids[j] = v
				}
			case "import":
				switch e.K {
				case "vector":
					c.Kids[j] = &T{K: "list", Kids: e.Kids}
				case "sym":
					if p := strings.LastIndex(e.Text, "."); p >= 0 {
						c.Kids[j] = &T{K: "list", Kids: []*T{sym(e.Text[:p]), sym(e.Text[p+1:])}}
					}
				}
			}
		}
		n.Kids[i] = c
	}
	return &n
}

func runC10(c *Case) error {
	src := c.src()
	in, out, ok, err := printed(src, cfg{}, bit(format.TransformEnforceNSStyle))
	if !ok || err != nil {
		return err
	}
	var want []*T
	for _, t := range in {
		if t.headed("sym", "ns") {
			w := styled(t)
			// (java.util. ) and (.x) cannot be written back as symbols
			if strings.Contains(flat(w), `sym""`) || strings.Contains(dump([]*T{w}, false), "sym ") || badSym(w) {
				return nil
			}
			t = w
		}
		want = append(want, t)
	}
	got, err := reread(src, out)
	if err != nil {
		return err
	}
	if a, b := dump(canon(want), false), dump(canon(got), false); a != b {
		return at("ns style enforcement is not as documented, output\n"+out, src, a, b)
	}
	return nil
}

func badSym(t *T) bool {
	if t.K == "sym" && t.Text == "" {
		return true
	}
	for _, k := range t.Kids {
		if badSym(k) {
			return true
		}
	}
	return false
}

// facts are the things an ns form names: "ns as alias" and so on; raw entries
// are those the rewriting does not understand.
type facts map[string]bool

func (f facts) add(ns, kind, v string) { f[ns+" "+kind+" "+v] = true }

func useEntry(t *T) *entry {
	switch t.K {
	case "sym":
		return &entry{ns: t.Text, all: true, known: true}
	case "list", "vector":
	default:
		return nil
	}
	ks := t.Kids
	if len(ks) == 0 || ks[0].K != "sym" {
		return nil
	}
	e := &entry{ns: ks[0].Text, known: true, hasSeq: true}
	switch {
	case len(ks) == 1:
		e.all = true
	case len(ks) == 3 && ks[1].K == "kw" && ks[1].Text == ":as" && ks[2].K == "sym":
		e.as = []string{ks[2].Text}
	case len(ks) == 3 && ks[1].K == "kw" && ks[1].Text == ":only" && (ks[2].K == "list" || ks[2].K == "vector"):
		for _, x := range ks[2].Kids {
			switch x.K {
			case "sym":
				e.refers = append(e.refers, x.Text)
			case "newline", "comment":
			default:
				return nil
			}
		}
	default:
		return nil
	}
	return e
}

// usage is what the forms outside ns use.
type usage struct{ nss, plain map[string]bool }

func usageOf(roots []*T) *usage {
	u := &usage{map[string]bool{}, map[string]bool{}}
	var walk func(t *T)
	walk = func(t *T) {
		switch t.K {
		case "sym", "var", "nil", "bool":
			if i := strings.Index(t.Text, "/"); i >= 0 && t.Text != "/" {
				u.nss[t.Text[:i]] = true
			} else {
				u.plain[t.Text] = true
			}
		case "kw":
			if strings.HasPrefix(t.Text, "::") {
				if i := strings.Index(t.Text, "/"); i >= 0 {
					u.nss[t.Text[2:i]] = true
				}
			}
		case "map":
			if strings.HasPrefix(t.Text, "::") && len(t.Text) > 2 {
				u.nss[t.Text[2:]] = true
			}
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	for _, t := range roots {
		if !t.headed("sym", "ns") {
			walk(t)
		}
	}
	return u
}

// needed are the facts that must survive; all of them without u.
func needed(ns *T, u *usage, imports map[string]bool, one bool) (facts, map[string]int) {
	f, raw := facts{}, map[string]int{}
	for _, cl := range ns.Kids[1:] {
		use := cl.headed("kw", ":use")
		if !use && !cl.headed("kw", ":require") && !(u != nil && cl.headed("kw", ":require-macros")) {
			continue
		}
		macros := ""
		if cl.headed("kw", ":require-macros") {
			macros = "m"
		}
		if use && u != nil && !one {
			// only removal: :use clauses are left alone
			continue
		}
		prefix := ""
		for _, x := range cl.Kids[1:] {
			switch x.K {
			case "newline", "comment":
				continue
			case "meta", "tag":
				prefix += flat(x)
				continue
			}
			e := requireEntry(x)
			if use {
				e = useEntry(x)
			}
			if e == nil || prefix != "" {
				raw[prefix+flat(x)]++
				prefix = ""
				continue
			}
			if u != nil && !one && x.K == "vector" && len(x.Kids) == 1 {
				f.add(e.ns, "named"+macros, "")
			}
			usedNS := u == nil || u.nss[e.ns] || imports[strings.ReplaceAll(e.ns, "-", "_")]
			keep := usedNS
			for _, a := range e.as {
				if u == nil || u.nss[a] {
					f.add(e.ns, "as"+macros, a)
					keep = true
				}
			}
			for _, a := range e.refers {
				if u == nil || u.plain[a] {
					f.add(e.ns, "refer"+macros, a)
					keep = true
				}
			}
			for _, a := range e.macros {
				if u == nil || u.plain[a] {
					f.add(e.ns, "macro"+macros, a)
					keep = true
				}
			}
			if e.all {
				f.add(e.ns, "all"+macros, "")
				keep = true
			}
			if keep {
				f.add(e.ns, "named"+macros, "")
			}
		}
		if prefix != "" {
			raw[prefix]++
		}
	}
	return f, raw
}

// named are the facts the ns form of the output states.
func named(ns *T) (facts, map[string]int) {
	f, raw := facts{}, map[string]int{}
	for _, cl := range ns.Kids[1:] {
		use := cl.headed("kw", ":use")
		if !use && !cl.headed("kw", ":require", ":require-macros") {
			continue
		}
		macros := ""
		if cl.headed("kw", ":require-macros") {
			macros = "m"
		}
		prefix := ""
		for _, x := range cl.Kids[1:] {
			switch x.K {
			case "newline", "comment":
				continue
			case "meta", "tag":
				prefix += flat(x)
				continue
			}
			raw[prefix+flat(x)]++
			e := requireEntry(x)
			if use {
				e = useEntry(x)
			}
			if e == nil && !use && x.K == "vector" {
				// :refer :all may stand beside an alias and macros
				var ks []*T
				for i := 0; i < len(x.Kids); i++ {
					if i+1 < len(x.Kids) && x.Kids[i].K == "kw" && x.Kids[i].Text == ":refer" && x.Kids[i+1].K == "kw" && x.Kids[i+1].Text == ":all" {
						i++
						continue
					}
					ks = append(ks, x.Kids[i])
				}
				if e = requireEntry(&T{K: "vector", Kids: ks}); e != nil {
					e.all = len(ks) < len(x.Kids)
				}
			}
			if e != nil && prefix == "" {
				f.add(e.ns, "named"+macros, "")
				for _, a := range e.as {
					f.add(e.ns, "as"+macros, a)
				}
				for _, a := range e.refers {
					f.add(e.ns, "refer"+macros, a)
				}
				for _, a := range e.macros {
					f.add(e.ns, "macro"+macros, a)
				}
				if e.all {
					f.add(e.ns, "all"+macros, "")
				}
			}
			prefix = ""
		}
		if prefix != "" {
			raw[prefix]++
		}
	}
	return f, raw
}

func runC11(c *Case) error {
	src := c.src()
	const u2r, rm = format.TransformUseToRequire, format.TransformRemoveUnusedRequires
	bits := c.Opts & bit(u2r, rm)
	in, out, ok, err := printed(src, cfg{}, bits)
	if !ok || err != nil || strings.Contains(src, "\r") {
		return err
	}
	got, err := reread(src, out)
	if err != nil {
		return err
	}
	x, y := nsForm(in), nsForm(got)
	if x == nil {
		return nil
	}
	if y == nil {
		return fmt.Errorf("the ns form is lost\n--- source %q\n--- output\n%s", src, out)
	}
	n := 0
	for _, t := range in {
		if t.headed("sym", "ns") {
			n++
		}
	}
	if n > 1 {
		return nil
	}
	for _, k := range x.Kids {
		if es := without(k.Kids, "newline", "comment"); k.K == "list" && len(es) > 0 {
			if l := es[len(es)-1]; l.K == "meta" || l.K == "tag" {
				return nil // applies to nothing: no Clojure reader accepts it
			}
		}
	}
	var u *usage
	imports := map[string]bool{}
	if bits&bit(rm) != 0 {
		u = usageOf(in)
		for _, cl := range x.Kids {
			if !cl.headed("kw", ":import") {
				continue
			}
			for _, e := range cl.Kids[1:] {
				switch {
				case e.K == "sym" && strings.Contains(e.Text, "."):
					imports[e.Text[:strings.LastIndex(e.Text, ".")]] = true
				case (e.K == "list" || e.K == "vector") && len(e.Kids) > 0 && e.Kids[0].K == "sym":
					imports[e.Kids[0].Text] = true
				}
			}
		}
	}
	want, raw := needed(x, u, imports, bits&bit(u2r) != 0)
	have, rawHave := named(y)
	var missing []string
	for k := range want {
		ok := have[k]
		if strings.Contains(k, " refer ") && have[strings.Split(k, " ")[0]+" all "] {
			ok = true // everything is referred
		}
		if !ok {
			missing = append(missing, k)
		}
	}
	for k, n := range raw {
		if rawHave[k] < n {
			missing = append(missing, "entry "+k)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		return fmt.Errorf("no longer named: %q (transforms %#x)\n--- source %q\n--- output\n%s", missing, bits, src, out)
	}
	// nothing else of the file changes
	rest := func(ts []*T) string {
		var keep []*T
		for _, t := range ts {
			if !t.headed("sym", "ns") {
				keep = append(keep, t)
			}
		}
		return dump(canon(clone(keep)), false)
	}
	if a, b := rest(in), rest(got); a != b {
		return at("forms outside ns changed", src, a, b)
	}
	others := func(t *T) string {
		var keep []*T
		for _, k := range t.Kids {
			if k.headed("kw", ":require", ":use") || k.headed("kw", ":require-macros") && bits&bit(rm) != 0 || k.K == "comment" || k.K == "newline" {
				continue
			}
			keep = append(keep, k)
		}
		return dump(stripNewlines(clone(keep)), false)
	}
	if docstringOf(x) == nil {
		if a, b := others(x), others(y); a != b {
			return at("other parts of ns changed", src, a, b)
		}
	}
	return nil
}

func init() {
	props["C09"] = &Prop{
		Rule: "random :require/:require-macros/:import clauses with comments, metadata, tags and odd entries, sorted and compared with an independent stable sort",
		Gen: func(r *rand.Rand, i int) *Case {
			s := "(ns n"
			for k := 1 + r.Intn(2); k > 0; k-- {
				s += "\n" + genClause(r, pick(r, ":require", ":import", ":require-macros", ":use"), r.Intn(3)*20, true)
			}
			s += pick(r, ")", "\n)", " ;e\n)") + pick(r, "", "\n(a b)\n")
			if chance(r, 20) {
				s = genNS(r) + genBody(r)
			}
			return srcCase(s)
		},
		Run: runC09,
	}
	props["C10"] = &Prop{
		Rule: "random ns forms with symbol and keyword heads, vector and list wrappers and odd entries, compared with the documented rewriting",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genNS(r)
			if chance(r, 30) {
				s += genBody(r)
			}
			return srcCase(s)
		},
		Run: runC10,
	}
	props["C11"] = &Prop{
		Rule: "random ns forms and bodies with use-to-require, remove-unused-requires or both; names that must survive are computed independently",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genNS(r)
			if chance(r, 80) {
				s += genBody(r)
			}
			c := srcCase(s)
			c.Opts = []int{bit(format.TransformUseToRequire), bit(format.TransformRemoveUnusedRequires), bit(format.TransformUseToRequire, format.TransformRemoveUnusedRequires)}[r.Intn(3)]
			return c
		},
		Run: runC11,
	}
}
