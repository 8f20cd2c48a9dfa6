// Command oracle looks for inputs on which cespare/goclj, as it is in the
// repository, breaks a property.  It replays counterexamples against the real
// code; every judgement is made from outside, on the public behaviour.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// A Case is one input; it holds all that is needed to run it again.
type Case struct {
	Prop string
	Kind string            `json:",omitempty"`
	Src  string            `json:",omitempty"`
	Opts int               `json:",omitempty"`
	Ints []int             `json:",omitempty"`
	Strs []string          `json:",omitempty"`
	Map  map[string]string `json:",omitempty"`
	Raw  []byte            `json:",omitempty"` // when Src is not valid UTF-8
}

func (c *Case) src() string {
	if c.Raw != nil {
		return string(c.Raw)
	}
	return c.Src
}

func (c *Case) setSrc(s string) {
	c.Src, c.Raw = s, nil
	if strings.ToValidUTF8(s, "\x00") != s {
		c.Src, c.Raw = "", []byte(s)
	}
}

type Prop struct {
	Gen func(r *rand.Rand, i int) *Case
	Run func(c *Case) error
	// NoShrink: the source must not be cut down.
	NoShrink bool
	Rule     string
}

var props = map[string]*Prop{}

type replay struct {
	Property string
	Message  string
	Case     *Case
}

var errHang = fmt.Errorf("does not terminate within 10 s")

// run executes one case, turning panics into errors.
func run(p *Prop, c *Case) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Errorf("panic: %v\n%s", e, firstLines(string(debug.Stack()), 30))
			}
		}()
		ch <- p.Run(c)
	}()
	t := time.NewTimer(10 * time.Second)
	defer t.Stop()
	select {
	case err := <-ch:
		return err
	case <-t.C:
		return errHang
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func shrink(p *Prop, c *Case, err error) (*Case, error) {
	if p.NoShrink || err == errHang {
		return c, err
	}
	end := time.Now().Add(4 * time.Second)
	cur := *c
	for chunk := len(cur.src()) / 2; chunk >= 1 && time.Now().Before(end); {
		s := cur.src()
		changed := false
		for i := 0; i+chunk <= len(s) && time.Now().Before(end); {
			d := cur
			d.setSrc(s[:i] + s[i+chunk:])
			if e := run(p, &d); e != nil && e != errHang && strings.HasPrefix(e.Error(), "panic:") == strings.HasPrefix(err.Error(), "panic:") {
				cur, err, s, changed = d, e, d.src(), true
			} else {
				i += chunk
			}
		}
		if !changed {
			chunk /= 2
		}
	}
	return &cur, err
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 5, "seconds")
	out := flag.String("out", "", "replay file to write on failure")
	cur := flag.String("cur", "", "file that holds the case being run")
	rep := flag.String("replay", "", "replay file to run")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		for k, p := range props {
			fmt.Println(k, p.Rule)
		}
		return
	}
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r replay
		if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
			var c Case
			if err := json.Unmarshal(b, &c); err != nil {
				fmt.Fprintln(os.Stderr, "bad replay file:", err)
				os.Exit(2)
			}
			r.Case = &c
		}
		p := props[r.Case.Prop]
		if err := run(p, r.Case); err != nil {
			fmt.Printf("FAIL %s\n", err)
			os.Exit(1)
		}
		fmt.Println("PASS")
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Println(`{"cases":0}`)
		return
	}
	r := rand.New(rand.NewSource(*seed))
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	n, distinct := 0, map[uint64]bool{}
	var sample *Case
	for i := 0; time.Now().Before(end); i++ {
		c := p.Gen(r, i)
		if c == nil {
			continue
		}
		c.Prop = *prop
		if *cur != "" {
			b, _ := json.Marshal(c)
			os.WriteFile(*cur, b, 0o644)
		}
		err := run(p, c)
		n++
		if len(distinct) < 1<<20 {
			distinct[hash(c)] = true
		}
		if len(c.src()) > 20 || sample == nil {
			sample = c
		}
		if err != nil {
			c, err = shrink(p, c, err)
			b, _ := json.MarshalIndent(&replay{*prop, err.Error(), c}, "", "  ")
			if *out != "" {
				os.WriteFile(*out, b, 0o644)
			}
			fmt.Printf("%s\n", b)
			os.Exit(1)
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"cases": n, "distinct": len(distinct), "sample": sample, "rule": p.Rule})
	fmt.Printf("%s\n", b)
}

func hash(c *Case) uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h *= 31
	}
	add(c.src())
	add(c.Kind)
	for _, s := range c.Strs {
		add(s)
	}
	for _, x := range c.Ints {
		h = (h ^ uint64(x)) * 1099511628211
	}
	h = (h ^ uint64(c.Opts)) * 1099511628211
	return h
}
