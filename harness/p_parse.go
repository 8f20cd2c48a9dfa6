package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/cespare/goclj/parse"
)

// faultReader hands out src in pieces and fails (or ends) at a given byte.
type faultReader struct {
	s     string
	piece int
	fail  int // -1: never
	kind  int // which error
	pos   int
}

// Errors a failing source may report; none of them is a plain io.EOF.
var faults = []error{
	errors.New("injected read failure"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.EIO, bufio.ErrBufferFull, bufio.ErrInvalidUnreadRune,
	&os.PathError{Op: "read", Path: "x", Err: io.EOF}, fmt.Errorf("reading: %w", io.EOF), errors.New("EOF"), io.ErrShortBuffer,
}

func (f *faultReader) Read(b []byte) (int, error) {
	if f.fail >= 0 && f.pos >= f.fail {
		return 0, faults[f.kind%len(faults)]
	}
	if f.pos >= len(f.s) {
		return 0, io.EOF
	}
	n := len(b)
	if f.piece > 0 && n > f.piece {
		n = f.piece
	}
	if n > len(f.s)-f.pos {
		n = len(f.s) - f.pos
	}
	if f.fail >= 0 && f.pos+n > f.fail {
		n = f.fail - f.pos
	}
	copy(b, f.s[f.pos:f.pos+n])
	f.pos += n
	if f.fail >= 0 && f.pos >= f.fail && f.kind >= len(faults) {
		return n, faults[f.kind%len(faults)] // data and error together
	}
	return n, nil
}

func at(msg string, src string, a, b string) error {
	return fmt.Errorf("%s\n--- source %q\n--- expected\n%s--- got\n%s", msg, src, a, b)
}

func init() {
	props["C01"] = &Prop{
		Rule: "random source text (well-formed, token soup, damaged) in random pieces, with a read failure at a random byte for some; every option set",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genAny(r)
			if chance(r, 5) {
				b := []byte(s)
				for k := range b {
					if chance(r, 10) {
						b[k] = byte(r.Intn(256))
					}
				}
				s = string(b)
			}
			c := srcCase(s)
			c.Opts = r.Intn(8)
			c.Ints = []int{-1, r.Intn(4), r.Intn(2 * len(faults))}
			if chance(r, 25) {
				c.Ints[0] = r.Intn(len(s) + 1)
			}
			return c
		},
		Run: func(c *Case) error {
			src := c.src()
			fail := c.Ints[0]
			if fail > len(src) {
				fail = len(src)
			}
			tree, err := parse.Reader(&faultReader{s: src, piece: c.Ints[1], fail: fail, kind: c.Ints[2]}, "in.clj", parse.ParseOpts(c.Opts))
			if (tree == nil) == (err == nil) {
				return fmt.Errorf("tree %v and error %v for %q", tree != nil, err, src)
			}
			if fail >= 0 {
				if err == nil {
					return fmt.Errorf("read failure after %d bytes of %q yields a tree (%v)", fail, src, faults[c.Ints[2]%len(faults)])
				}
				return nil
			}
			if utf8.ValidString(src) {
				if _, rerr := reference(src); rerr != nil && err == nil {
					return fmt.Errorf("no error for %q (%s)", src, rerr)
				}
			}
			return nil
		},
	}
	props["C20"] = &Prop{
		Rule: "random source text (well-formed, token soup, damaged) in random pieces, with a read failure at a random byte for some; every option set; goroutines counted after parsing",
		Gen:  props["C01"].Gen,
		Run: func(c *Case) error {
			src := c.src()
			fail := c.Ints[0]
			if fail > len(src) {
				fail = len(src)
			}
			before := runtime.NumGoroutine()
			tree, err := parse.Reader(&faultReader{s: src, piece: c.Ints[1], fail: fail, kind: c.Ints[2]}, "in.clj", parse.ParseOpts(c.Opts))
			for t := time.Now(); runtime.NumGoroutine() > before; {
				if time.Since(t) > 3*time.Second {
					buf := make([]byte, 1<<16)
					return fmt.Errorf("a goroutine is left after parsing %q (tree %v, error %v):\n%s", src, tree != nil, err, firstLines(string(buf[:runtime.Stack(buf, true)]), 60))
				}
				runtime.Gosched()
				if time.Since(t) > time.Millisecond {
					time.Sleep(100 * time.Microsecond)
				}
			}
			return nil
		},
	}
	props["C02"] = &Prop{
		Rule: "random accepted text; positions and token texts compared with an independent scanner",
		Gen: func(r *rand.Rand, i int) *Case {
			s := genAny(r)
			return srcCase(strings.ToValidUTF8(s, "?"))
		},
		Run: func(c *Case) error {
			src := c.src()
			if !utf8.ValidString(src) {
				return nil
			}
			tree, err := read(src, optNS)
			if err != nil {
				return nil
			}
			ref, rerr := reference(src)
			if rerr != nil {
				return nil // C01's business
			}
			var gt, rt []*T
			var flat func(t *T, out *[]*T)
			flat = func(t *T, out *[]*T) {
				*out = append(*out, &T{K: t.K, Text: t.Text, Off: t.Off, Line: t.Line, Col: t.Col})
				for _, k := range t.Kids {
					flat(k, out)
				}
			}
			for _, t := range convAll(tree.Roots) {
				flat(t, &gt)
			}
			for _, t := range ref {
				flat(t, &rt)
			}
			if a, b := dump(rt, true), dump(gt, true); a != b {
				return at("token texts or positions differ", src, a, b)
			}
			return nil
		},
	}
	props["C03"] = &Prop{
		Rule: "random accepted text; the tree compared with the one an independent reader builds",
		Gen:  func(r *rand.Rand, i int) *Case { return srcCase(strings.ToValidUTF8(genAny(r), "?")) },
		Run: func(c *Case) error {
			src := c.src()
			if !utf8.ValidString(src) {
				return nil
			}
			tree, err := read(src, optNS)
			if err != nil {
				return nil
			}
			ref, rerr := reference(src)
			if rerr != nil {
				return nil
			}
			if a, b := dump(ref, false), dump(convAll(tree.Roots), false); a != b {
				return at("tree differs", src, a, b)
			}
			return nil
		},
	}
	props["C04"] = &Prop{
		Rule: "random accepted text under every option set, compared with the filtered full tree",
		Gen: func(r *rand.Rand, i int) *Case {
			s := strings.ToValidUTF8(genAny(r), "?")
			if chance(r, 50) {
				s = strings.Replace(s, "(foo", "(comment", -1) + pick(r, "", "(comment a)", "#_b", "(a #_(comment x) (comment) #_ c)", "'(comment)", "#{(comment 1) #_2}", "#?(:clj (comment 1))", "#(comment %)")
			}
			c := srcCase(s)
			c.Opts = r.Intn(8)
			return c
		},
		Run: func(c *Case) error {
			src := c.src()
			full, err := read(src, optNS)
			got, err2 := read(src, c.Opts)
			if (err == nil) != (err2 == nil) {
				return fmt.Errorf("options %d change acceptance of %q: %v / %v", c.Opts, src, err, err2)
			}
			if err != nil {
				return nil
			}
			var filter func(ts []*T, prefix bool) []*T
			filter = func(ts []*T, prefix bool) []*T {
				var out []*T
				for _, t := range ts {
					k := *t
					k.Kids = filter(t.Kids, prefixed(t.K))
					if !prefix {
						if c.Opts&optNS == 0 && !t.semantic() || c.Opts&optDiscard != 0 && t.K == "discard" ||
							c.Opts&optComment != 0 && k.K == "list" && len(k.Kids) > 0 && k.Kids[0].K == "sym" && k.Kids[0].Text == "comment" {
							continue
						}
					}
					out = append(out, &k)
				}
				return out
			}
			if a, b := dump(filter(convAll(full.Roots), false), true), dump(convAll(got.Roots), true); a != b {
				return at(fmt.Sprintf("options %d", c.Opts), src, a, b)
			}
			return nil
		},
	}
	props["C05"] = &Prop{
		Rule: "random accepted text; links of the whole tree, then random SetChildren calls checked against a shadow of all links",
		Gen: func(r *rand.Rand, i int) *Case {
			c := srcCase(strings.ToValidUTF8(genAny(r), "?"))
			c.Opts = r.Intn(8)
			for k := r.Intn(6); k >= 0; k-- {
				c.Ints = append(c.Ints, r.Intn(1000), r.Intn(4), r.Intn(1000), r.Intn(1000), r.Intn(1000))
			}
			return c
		},
		Run: runC05,
	}
	props["C06"] = &Prop{
		Rule: "character literals: every name, octal and hex form and near misses, and random characters, compared with Clojure's reading",
		Gen: func(r *rand.Rand, i int) *Case {
			return srcCase(genChar(r, i))
		},
		NoShrink: true,
		Run: func(c *Case) error {
			src := c.src()
			ts := tokens(src)
			if len(ts) != 2 || ts[0].typ != "char" {
				return nil
			}
			want, ok := charValue(ts[0].text)
			tree, err := read("  "+src, 0)
			if !ok {
				if err == nil {
					return fmt.Errorf("%q is accepted as %v", src, tree.Roots)
				}
				if !strings.Contains(err.Error(), "in.clj:1:3:") {
					return fmt.Errorf("%q: error is not at the literal's position: %s", src, err)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%q is rejected: %s", src, err)
			}
			if len(tree.Roots) != 1 {
				return fmt.Errorf("%q: %d forms", src, len(tree.Roots))
			}
			n, isChar := tree.Roots[0].(*parse.CharacterNode)
			if !isChar || n.Val != want || n.Text != src || n.Pos.Offset != 2 {
				return fmt.Errorf("%q read as %v (text %q), want %q", src, tree.Roots[0], n.Text, want)
			}
			return nil
		},
	}
}

func prefixed(k string) bool {
	switch k {
	case "deref", "quote", "syntaxquote", "unquote", "splice", "meta", "discard", "eval":
		return true
	}
	return false
}

func genChar(r *rand.Rand, i int) string {
	names := []string{"newline", "space", "tab", "formfeed", "backspace", "return"}
	switch i % 8 {
	case 0:
		if i/8 < 0x3000 {
			if x := rune(i / 8); x < 0xd800 || x > 0xdfff {
				return `\` + string(x)
			}
		}
		return `\` + string(rune(r.Intn(0xd800)))
	case 1:
		return `\o` + fmt.Sprintf("%o", i/8%600)
	case 2:
		return `\` + mutateWord(r, names[r.Intn(len(names))])
	case 3:
		return `\` + names[i/8%len(names)]
	case 4:
		return fmt.Sprintf(`\u%04x`, r.Intn(0x10000))
	case 5:
		return fmt.Sprintf(pick(r, `\u%x`, `\U%04x`, `\u%05x`, `\o%x`, `\u%04X`, `\x%x`, `\u+%x`, `\o+%o`, `\u-%03x`, `\u_%x`, `\o0%o`, `\u0x%02x`, `\o%03o`, `\O%o`), r.Intn(0x1200)>>uint(r.Intn(8)))
	case 6:
		n := 1 + r.Intn(6)
		b := []byte{'\\'}
		for k := 0; k < n; k++ {
			b = append(b, "ou0123456789abcdefgABCDEFxnewlinspctb+-_"[r.Intn(40)])
		}
		return string(b)
	}
	return `\` + mutateWord(r, pick(r, "o17", "u0041", "o377", "o400", "uffff", "o8", "ab", "éa", "世", "linefeed", "backspac", "o", "u", "null", "delete", "escape", "alert"))
}

func mutateWord(r *rand.Rand, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return s
	}
	k := r.Intn(len(b))
	switch r.Intn(6) {
	case 0:
		return s[:k] + s[k+1:]
	case 1:
		return s[:k] + string("abcnou017"[r.Intn(9)]) + s[k:]
	case 2:
		return strings.ToUpper(s[:1]) + s[1:]
	case 3:
		return s + string("s07ae"[r.Intn(5)])
	case 4:
		b[k] = "abcenou01234567"[r.Intn(15)]
		return string(b)
	}
	return s
}

// ---------------------------------------------------------------- C05
func allNodes(ns []parse.Node, out *[]parse.Node) {
	for _, n := range ns {
		*out = append(*out, n)
		allNodes(n.Children(), out)
	}
}

func linksAgree(n parse.Node) error {
	for i, c := range n.Children() {
		if c.Parent() != n {
			return fmt.Errorf("child %d (%s) of %s has parent %v", i, c, n, c.Parent())
		}
		if err := linksAgree(c); err != nil {
			return err
		}
	}
	return nil
}

func runC05(c *Case) error {
	tree, err := read(c.src(), c.Opts)
	if err != nil {
		return nil
	}
	for _, n := range tree.Roots {
		if n.Parent() != nil {
			return fmt.Errorf("root %s of %q has a parent", n, c.src())
		}
		if err := linksAgree(n); err != nil {
			return fmt.Errorf("%s in %q", err, c.src())
		}
	}
	var all []parse.Node
	allNodes(tree.Roots, &all)
	if len(all) == 0 {
		return nil
	}
	for k := 0; k+5 <= len(c.Ints); k += 5 {
		n := all[c.Ints[k]%len(all)]
		var nw []parse.Node
		cs := n.Children()
		seen := map[parse.Node]bool{}
		add := func(x parse.Node) {
			if x != nil && !seen[x] && x != n {
				seen[x] = true
				nw = append(nw, x)
			}
		}
		for j := 0; j < c.Ints[k+1]; j++ {
			v := c.Ints[k+2+j]
			switch {
			case v%3 == 0 && len(cs) > 0:
				add(cs[v%len(cs)]) // one of its own
			case v%3 == 1:
				add(&parse.SymbolNode{Pos: &parse.Pos{}, Val: "new"})
			default:
				x := all[v%len(all)]
				if x.Parent() == nil && !contains(x, n) { // detached or a root
					add(x)
				}
			}
		}
		before := map[parse.Node]parse.Node{}
		for _, x := range all {
			before[x] = x.Parent()
		}
		for _, x := range nw {
			before[x] = x.Parent()
		}
		kidsBefore := map[parse.Node]string{}
		for _, x := range all {
			if x != n {
				kidsBefore[x] = fmt.Sprintf("%p", x.Children())
				if prefixed(convKind(x)) {
					kidsBefore[x] = fmt.Sprintf("%p", x.Children()[0])
				}
			}
		}
		old := append([]parse.Node{}, cs...)
		kind := convKind(n)
		limit := -1
		if prefixed(kind) {
			limit = 1
		} else if leafKinds[kind] {
			limit = 0
		}
		panicked := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					panicked = true
				}
			}()
			n.SetChildren(nw)
		}()
		refuse := leafKinds[kind] || limit == 1 && len(nw) != 1
		if refuse != panicked {
			return fmt.Errorf("SetChildren of %d nodes on a %s: refused=%v", len(nw), kind, panicked)
		}
		for _, x := range nw {
			if _, ok := before[x]; ok {
				known := false
				for _, y := range all {
					known = known || y == x
				}
				if !known {
					all = append(all, x)
				}
			}
		}
		if panicked {
			for x, p := range before {
				if x.Parent() != p {
					return fmt.Errorf("refused SetChildren on a %s changed the parent of %s", kind, x)
				}
			}
			continue
		}
		now := n.Children()
		if len(now) != len(nw) {
			return fmt.Errorf("%s has %d children after SetChildren of %d", kind, len(now), len(nw))
		}
		isNew, isOld := map[parse.Node]bool{}, map[parse.Node]bool{}
		for i, x := range nw {
			isNew[x] = true
			if now[i] != x {
				return fmt.Errorf("child %d of %s is not the one given", i, kind)
			}
			if x.Parent() != n {
				return fmt.Errorf("new child %s of %s has parent %v", x, kind, x.Parent())
			}
		}
		for _, x := range old {
			isOld[x] = true
			if !isNew[x] && x.Parent() != nil {
				return fmt.Errorf("removed child %s of %s still has parent %v", x, kind, x.Parent())
			}
		}
		for x, p := range before {
			if !isNew[x] && !isOld[x] && x.Parent() != p {
				return fmt.Errorf("SetChildren on a %s changed the parent of %s", kind, x)
			}
		}
		for x, s := range kidsBefore {
			t := fmt.Sprintf("%p", x.Children())
			if prefixed(convKind(x)) {
				t = fmt.Sprintf("%p", x.Children()[0])
			}
			if x != n && t != s {
				return fmt.Errorf("SetChildren on a %s changed the children of %s", kind, x)
			}
		}
	}
	return nil
}

// convKind is the kind of n alone.
func convKind(n parse.Node) string { return conv1(n).K }

func contains(x, n parse.Node) bool {
	if x == n {
		return true
	}
	for _, c := range x.Children() {
		if contains(c, n) {
			return true
		}
	}
	return false
}
