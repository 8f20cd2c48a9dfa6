package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cespare/goclj/format"
)

func cljfmtBin() string {
	if b := os.Getenv("CLJFMT_BIN"); b != "" {
		return b
	}
	panic("CLJFMT_BIN is not set")
}

type cliResult struct {
	out, err string
	code     int
}

// cljfmt runs the binary inside dir with a bare environment.
func cljfmt(dir string, env []string, stdin string, full bool, args ...string) (*cliResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cljfmtBin(), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	r := &cliResult{out: o.String(), err: e.String()}
	if ctx.Err() != nil {
		return nil, fmt.Errorf("cljfmt %q does not end", args)
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.code = ee.ExitCode()
	}
	if strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "panic:") {
		return nil, fmt.Errorf("cljfmt %q panics: %s", args, r.err)
	}
	return r, nil
}

// libFormat is what the packages make of src; ok is false on an error.
func libFormat(src string, c cfg, user map[format.Transform]bool) (string, bool) {
	tree, err := read(src, optNS)
	if err != nil {
		return "", false
	}
	bits := 0
	for t, v := range documentedDefaults {
		on := v
		if u, ok := user[t]; ok {
			on = u
		}
		if on {
			bits |= bit(t)
		}
	}
	out, err := formatTree(tree, c, bits)
	return out, err == nil
}

var documentedDefaults = map[format.Transform]bool{
	format.TransformSortImportRequire: true, format.TransformEnforceNSStyle: true, format.TransformRemoveTrailingNewlines: true,
	format.TransformFixDefnArglistNewline: true, format.TransformFixDefmethodDispatchValNewline: true,
	format.TransformRemoveExtraBlankLines: true, format.TransformFixIfNewlineConsistency: true,
	format.TransformUseToRequire: false, format.TransformRemoveUnusedRequires: false,
}

var transformNames = map[string]format.Transform{
	"sort-import-require": format.TransformSortImportRequire, "enforce-ns-style": format.TransformEnforceNSStyle,
	"remove-trailing-newlines": format.TransformRemoveTrailingNewlines, "fix-defn-arglist-newline": format.TransformFixDefnArglistNewline,
	"fix-defmethod-dispatch-val-newline": format.TransformFixDefmethodDispatchValNewline,
	"remove-extra-blank-lines":           format.TransformRemoveExtraBlankLines, "fix-if-newline-consistency": format.TransformFixIfNewlineConsistency,
	"use-to-require": format.TransformUseToRequire, "remove-unused-requires": format.TransformRemoveUnusedRequires,
}

func scratch() string {
	d, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	return d
}

// Case for C14: Strs are file specifications "path\x00mode\x00content"
// (mode "link" makes a dangling link), then "--", then arguments.
func genC14(r *rand.Rand, i int) *Case {
	c := &Case{}
	dirs := []string{"", "", "d/", "d/e/", ".h/", "x.clj/"}
	seen := map[string]bool{}
	text := func() string {
		switch r.Intn(6) {
		case 0:
			return genForms(r, true)
		case 1:
			s, _ := libFormat(genForms(r, false), cfg{}, nil)
			s2, _ := libFormat(s, cfg{}, nil)
			return s2
		case 2:
			return pick(r, "", "(a b)\n", "(foo [a])", "\n")
		case 3:
			if chance(r, 30) {
				return pick(r, "(a", ")", "\"x", "(a b]", "{:a 1}\n(", "\\zz")
			}
			return "(a)\n"
		case 4:
			return "(foo  bar\n   baz)\n"
		}
		return "(do a\n)\n" + strings.Repeat("(foo \"a long line of text\" [1 2 3])\n", r.Intn(400))
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		p := pick(r, dirs...) + pick(r, "a", "b", "c", ".hid", "m.n", "z") + pick(r, ".clj", ".clj", ".cljs", ".cljc", ".edn", ".txt", "", ".clj~", ".CLJ", ".bb")
		if p == "x.clj" || p == "d" || p == "x.clj/" || strings.HasSuffix(p, "/") || seen[p] {
			continue
		}
		seen[p] = true
		mode := pick(r, "644", "600", "755", "640", "664")
		if chance(r, 3) {
			mode = "link"
		}
		c.Strs = append(c.Strs, p+"\x00"+mode+"\x00"+text())
	}
	c.Strs = append(c.Strs, "--")
	if chance(r, 70) {
		c.Strs = append(c.Strs, pick(r, "-l", "-w", "-w", "-w"))
		if chance(r, 30) {
			c.Strs = append(c.Strs, pick(r, "-l", "-w"))
		}
	}
	switch r.Intn(4) {
	case 0:
		c.Strs = append(c.Strs, ".")
	case 1:
		c.Strs = append(c.Strs, pick(r, ".", "d", "missing.clj", "x.clj"))
	case 2:
		for p := range seen {
			_ = p
		}
		var ps []string
		for p := range seen {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		c.Strs = append(c.Strs, ps...)
	default:
		if chance(r, 50) {
			c.Kind = "stdin"
			c.setSrc(text())
		} else {
			c.Strs = append(c.Strs, ".")
		}
	}
	if chance(r, 10) {
		c.Ints = []int{1} // standard output is full
	} else {
		c.Ints = []int{0}
	}
	return c
}

type fileSpec struct {
	content string
	mode    string
}

func runC14(c *Case) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	files := map[string]fileSpec{}
	var args []string
	k := 0
	for ; k < len(c.Strs) && c.Strs[k] != "--"; k++ {
		f := strings.SplitN(c.Strs[k], "\x00", 3)
		if len(f) < 3 {
			return nil
		}
		p := filepath.Join(dir, f[0])
		os.MkdirAll(filepath.Dir(p), 0o755)
		if f[1] == "link" {
			if os.Symlink("nowhere", p) != nil {
				continue
			}
		} else {
			m := 0
			fmt.Sscanf(f[1], "%o", &m)
			if os.WriteFile(p, []byte(f[2]), 0o600) != nil {
				continue
			}
			os.Chmod(p, os.FileMode(m))
		}
		files[f[0]] = fileSpec{f[2], f[1]}
	}
	list, write := false, false
	var paths []string
	for _, a := range c.Strs[min(k+1, len(c.Strs)):] {
		args = append(args, a)
		switch a {
		case "-l":
			list = true
		case "-w":
			write = true
		default:
			paths = append(paths, a)
		}
	}
	full := len(c.Ints) > 0 && c.Ints[0] == 1
	// what should happen
	after := map[string]string{}
	for p, f := range files {
		after[p] = f.content
	}
	var want strings.Builder
	failed := false
	process := func(shown, p string) {
		f, ok := files[p]
		if !ok || f.mode == "link" {
			failed = true
			return
		}
		src := after[p]
		out, ok := libFormat(src, cfg{}, nil)
		if !ok {
			failed = true
			return
		}
		if out != src {
			if list {
				want.WriteString(shown + "\n")
			}
			if write {
				after[p] = out
			}
		}
		if !list && !write {
			want.WriteString(out)
			if full && out != "" {
				failed = true
			}
		}
	}
	stdin := ""
	if len(paths) == 0 {
		stdin = c.src()
		list = false
		out, ok := libFormat(stdin, cfg{}, nil)
		switch {
		case write || !ok:
			failed = true
		default:
			want.WriteString(out)
			failed = full && out != ""
		}
	}
	for _, a := range paths {
		if failed {
			break
		}
		st, err := os.Stat(filepath.Join(dir, a))
		if err != nil {
			failed = true
			break
		}
		if !st.IsDir() {
			process(a, a)
			continue
		}
		var inside []string
		filepath.Walk(filepath.Join(dir, a), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(dir, p)
				b := filepath.Base(rel)
				switch filepath.Ext(b) {
				case ".clj", ".cljs", ".cljc", ".edn":
					if !strings.HasPrefix(b, ".") {
						inside = append(inside, rel)
					}
				}
			}
			return nil
		})
		for _, p := range inside {
			if failed {
				break
			}
			shown := p
			if a != "." {
				shown = filepath.Join(a, strings.TrimPrefix(p, filepath.Clean(a)+"/"))
			}
			process(shown, p)
		}
	}
	res, err := cljfmt(dir, []string{"HOME=" + dir}, stdin, full, args...)
	if err != nil {
		return err
	}
	desc := fmt.Sprintf("cljfmt %q in a directory with %q (stdin %q)", args, c.Strs[:k], stdin)
	if failed != (res.code != 0) {
		return fmt.Errorf("%s: exit status %d, error expected: %v, stderr %q", desc, res.code, failed, res.err)
	}
	if failed && res.err == "" {
		return fmt.Errorf("%s: the error is not reported", desc)
	}
	if !full && res.out != want.String() {
		return fmt.Errorf("%s: printed %q, expected %q", desc, res.out, want.String())
	}
	for p, f := range files {
		if f.mode == "link" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, p))
		if err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		if string(b) != after[p] {
			return fmt.Errorf("%s: %s holds %q, expected %q (before: %q)", desc, p, b, after[p], f.content)
		}
		st, _ := os.Stat(filepath.Join(dir, p))
		if fmt.Sprintf("%o", st.Mode().Perm()) != f.mode {
			return fmt.Errorf("%s: the mode of %s changed from %s to %o", desc, p, f.mode, st.Mode().Perm())
		}
		// an unchanged file must not be written at all
	}
	n := 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			n++
		}
		return nil
	})
	if n != len(files) {
		return fmt.Errorf("%s: files appeared or vanished", desc)
	}
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- C15
type settings struct {
	c    cfg
	exts map[string]bool
}

var cfgStyles = map[string]int{":normal": stNormal, ":list": stList, ":list-body": stListBody, ":let": stLet, ":letfn": stLetfn, ":for": stFor, ":deftype": stDeftype, ":cond0": stCond0, ":cond1": stCond1, ":cond2": stCond2, ":cond4": stCond4}
var cfgThreads = map[string]int{":normal": 0, ":cond->": 1}

// configOf is the documented meaning of a configuration text; ok is false
// when it is malformed.
func configOf(src string) (s *settings, ok bool, sure bool) {
	s = &settings{c: cfg{indent: map[string]int{}, thread: map[string]int{}}, exts: map[string]bool{".clj": true, ".cljs": true, ".cljc": true, ".edn": true}}
	tree, err := read(src, 0)
	if err != nil {
		return nil, false, true
	}
	roots := convAll(tree.Roots)
	if len(roots) == 0 {
		return s, true, true
	}
	if len(roots) != 1 || roots[0].K != "map" || len(roots[0].Kids)%2 != 0 {
		return nil, false, true
	}
	if roots[0].Text != "" {
		return nil, false, false
	}
	str := func(t *T) (string, bool) {
		if t.K != "str" {
			return "", false
		}
		return t.Text[1 : len(t.Text)-1], true
	}
	ks := roots[0].Kids
	for i := 0; i < len(ks); i += 2 {
		k, v := ks[i], ks[i+1]
		if k.K != "kw" {
			continue
		}
		switch k.Text {
		case ":extensions":
			if v.K != "list" && v.K != "vector" {
				return nil, false, true
			}
			s.exts = map[string]bool{}
			for _, x := range v.Kids {
				e, ok := str(x)
				if !ok {
					return nil, false, true
				}
				s.exts[e] = true
			}
		case ":indent-overrides", ":thread-first-overrides":
			if v.K != "list" && v.K != "vector" || len(v.Kids)%2 != 0 {
				return nil, false, true
			}
			m, table := map[string]int{}, cfgStyles
			if k.Text[1] == 't' {
				table = cfgThreads
			}
			last := map[string]string{}
			for j := 0; j < len(v.Kids); j += 2 {
				var names []string
				switch v.Kids[j].K {
				case "list", "vector":
					for _, x := range v.Kids[j].Kids {
						n, ok := str(x)
						if !ok {
							return nil, false, true
						}
						names = append(names, n)
					}
				default:
					n, ok := str(v.Kids[j])
					if !ok {
						return nil, false, true
					}
					names = []string{n}
				}
				if v.Kids[j+1].K != "kw" {
					return nil, false, true
				}
				if _, ok := table[v.Kids[j+1].Text]; !ok && len(names) == 0 {
					sure = false
					return nil, false, false
				}
				for _, n := range names {
					last[n] = v.Kids[j+1].Text
				}
			}
			for n, kw := range last {
				st, ok := table[kw]
				if !ok {
					return nil, false, true
				}
				m[n] = st
			}
			for j := 1; j < len(v.Kids); j += 2 {
				if _, ok := table[v.Kids[j].Text]; !ok {
					return nil, false, false // overridden by a later pair
				}
			}
			if k.Text[1] == 't' {
				s.c.thread = m
			} else {
				s.c.indent = m
			}
		default:
			return nil, false, true
		}
	}
	return s, true, true
}

func genC15(r *rand.Rand, i int) *Case {
	c := &Case{Map: map[string]string{}}
	odd := pick(r, "0", "0", "5", "25")
	o := 0
	fmt.Sscanf(odd, "%d", &o)
	conf := func() string {
		var b strings.Builder
		b.WriteString(pick(r, "{", "{", "{\n ", "; c\n{"))
		name := func() string {
			if chance(r, o) {
				return pick(r, "foo", ":foo", "1", "[[\"foo\"]]", "nil", "{}", "#\"foo\"", "[]", "[\"foo\" x]", "()", "#_\"foo\"")
			}
			n := func() string {
				return `"` + pick(r, "foo", "bar", "q/foo", "a.b/foo", "let", "cond", "x->", "->", `a\"b`, "") + `"`
			}
			if chance(r, 30) {
				s := pick(r, "[", "(")
				for k := r.Intn(4); k > 0; k-- {
					s += n() + " "
				}
				return closeAll(s)
			}
			return n()
		}
		for k := r.Intn(4); k > 0; k-- {
			if chance(r, o) {
				b.WriteString(pick(r, ":unknown [] ", ":extensions ", "\"x\" 1 ", "sym [] ", "[] [] ", ":indent-overrides {} ", ":extensions \".clj\" ", ":indent-override [] ", "::extensions [] ", "#_x ", "^m ", "1 2 ", ":thread-first-overrides nil ", ":extensions #{\".x\"} ", ":indent-overrides #(\"foo\" :list) ", ": [] "))
				continue
			}
			switch r.Intn(3) {
			case 0:
				b.WriteString(":extensions " + pick(r, "[", "("))
				for j := r.Intn(4); j > 0; j-- {
					if chance(r, o) {
						b.WriteString(pick(r, "clj ", ":clj ", "nil ", "[\".clj\"] ", "#_\".clj\" "))
					}
					b.WriteString(`"` + pick(r, ".clj", ".txt", "", "clj", ".edn", ".x") + `" `)
				}
			case 1:
				b.WriteString(":indent-overrides " + pick(r, "[", "("))
				for j := r.Intn(4); j > 0; j-- {
					st := pick(r, ":normal", ":list", ":list-body", ":let", ":letfn", ":for", ":deftype", ":cond0", ":cond1", ":cond2", ":cond4")
					if chance(r, o) {
						st = pick(r, "list", ":cond3", "\":let\"", ":List", "::list", ":cond->", "", ":bindings", ":letfn :let")
					}
					b.WriteString(name() + " " + st + pick(r, " ", "\n", " ; c\n"))
				}
			default:
				b.WriteString(":thread-first-overrides " + pick(r, "[", "("))
				for j := r.Intn(3); j > 0; j-- {
					st := pick(r, ":normal", ":cond->")
					if chance(r, o) {
						st = pick(r, "normal", ":cond", ":->", "", ":list")
					}
					b.WriteString(name() + " " + st + " ")
				}
			}
			s := b.String()
			b.Reset()
			s = closeInner(s)
			b.WriteString(s + " ")
		}
		s := closeAll(b.String())
		if chance(r, o) {
			s += pick(r, " x", " {}", "#_x", "(", "]", " nil")
		}
		if chance(r, o) {
			s = mutate(r, s)
		}
		if chance(r, 5) {
			s = pick(r, "", "[]", "nil", ";c", "()", "{", "#{}", ":a")
		}
		return strings.ToValidUTF8(s, "?")
	}
	for _, k := range []string{"c", "env", "home"} {
		if chance(r, 50) {
			c.Map[k] = conf()
		}
	}
	if len(c.Map) == 0 {
		c.Map["c"] = conf()
	}
	if chance(r, 10) {
		delete(c.Map, "c")
		c.Map[pick(r, "noenv", "noc", "nohome")] = ""
	}
	var names []string
	for n := range transformNames {
		names = append(names, n)
	}
	sort.Strings(names)
	for k := r.Intn(4); k > 0; k-- {
		n := names[r.Intn(len(names))]
		if chance(r, 4) {
			n = pick(r, "sort", "", "Sort-import-require", "use-to-requires", "all", "fix-defn-arglist-newlines")
		}
		c.Strs = append(c.Strs, pick(r, "-enable-transform", "-disable-transform")+"="+n)
	}
	return c
}

const probe = `(ns n (:use [b :only [g]]) (:require [q.r :as q] [a.b :refer [foo]] unused))


(foo [a
b :let [c
d]] (m [x]
y)
z
w
v
u t
s)



(bar [a
b] (m [x]
y)
z
w
v
u t
s
)
(q/foo x (m [x]
y)
z
w
v
u t
s)
(x-> a (case
b
c
d) (cond->
e
f
g
))
(let [a
b] c)
(cond a
b)
(defn f
  [x] y)
(defmethod g
  :k [x])
(if a b
c)
`

func runC15(c *Case) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	home := filepath.Join(dir, "home")
	work := filepath.Join(dir, "work")
	os.Mkdir(home, 0o755)
	os.Mkdir(work, 0o755)
	env := []string{"HOME=" + home}
	var args []string
	text, have := "", false
	if s, ok := c.Map["home"]; ok {
		os.WriteFile(filepath.Join(home, ".cljfmt"), []byte(s), 0o644)
		text, have = s, true
	}
	if _, ok := c.Map["nohome"]; ok {
		env, have = nil, false
	}
	if s, ok := c.Map["env"]; ok {
		p := filepath.Join(dir, "env.conf")
		os.WriteFile(p, []byte(s), 0o644)
		env = append(env, "CLJFMT_CONFIG_PATH="+p)
		text, have = s, true
	} else if _, ok := c.Map["noenv"]; ok { // set to the empty string: no configuration
		env = append(env, "CLJFMT_CONFIG_PATH=")
		have = false
	}
	if s, ok := c.Map["c"]; ok {
		p := filepath.Join(dir, "c.conf")
		os.WriteFile(p, []byte(s), 0o644)
		args = append(args, "-c", p)
		text, have = s, true
	} else if _, ok := c.Map["noc"]; ok { // -c with no name: no configuration
		args = append(args, "-c", "")
		have = false
	}
	s, ok, sure := &settings{exts: map[string]bool{".clj": true, ".cljs": true, ".cljc": true, ".edn": true}}, true, true
	if have {
		s, ok, sure = configOf(text)
	}
	user := map[format.Transform]bool{}
	badFlag := false
	for _, a := range c.Strs {
		args = append(args, a)
		i := strings.Index(a, "=")
		t, known := transformNames[a[i+1:]]
		if !known {
			badFlag = true
			continue
		}
		user[t] = strings.HasPrefix(a, "-enable")
	}
	desc := fmt.Sprintf("cljfmt %q with configuration %q (files %v)", args, text, c.Map)
	res, err := cljfmt(work, env, probe, false, args...)
	if err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	if badFlag {
		if res.code == 0 {
			return fmt.Errorf("%s: an unknown transform name is accepted", desc)
		}
		return nil
	}
	if !sure {
		return nil
	}
	if ok != (res.code == 0) {
		return fmt.Errorf("%s: exit status %d, accepted by the documentation: %v, stderr %q", desc, res.code, ok, res.err)
	}
	if !ok {
		return nil
	}
	want, _ := libFormat(probe, s.c, user)
	if res.out != want {
		return fmt.Errorf("%s: printed\n%s\nexpected\n%s", desc, res.out, want)
	}
	// extensions
	var names []string
	for _, n := range []string{"a.clj", "a.cljs", "a.cljc", "a.edn", "a.txt", "a.x", "a", "aclj"} {
		os.WriteFile(filepath.Join(work, n), []byte("( a )"), 0o644)
		if s.exts[filepath.Ext(n)] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	res, err = cljfmt(work, env, "", false, append(args, "-l", ".")...)
	if err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	w := ""
	for _, n := range names {
		w += n + "\n"
	}
	if res.code != 0 || res.out != w {
		return fmt.Errorf("%s: -l in a directory prints %q, expected %q (status %d, %s)", desc, res.out, w, res.code, res.err)
	}
	return nil
}

func init() {
	props["C14"] = &Prop{NoShrink: true,
		Rule: "random directories, modes, contents and flags; cljfmt runs as a process and files, output and status are compared with what was asked for",
		Gen:  genC14, Run: runC14}
	props["C15"] = &Prop{NoShrink: true,
		Rule: "random configuration texts, locations and transform flags; status and output compared with an independent reading of the configuration",
		Gen:  genC15, Run: runC15}
}
