package main

// Conditions and values of the caller may use the library themselves while it calls their methods, and may end a build
// by a panic: neither may disturb the library.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// inner builds statements of its own from within a method the library called.
func inner() {
	sql, ps, err := query.Table("inner AS i").SelectMany(query.EqualTo("p", 1).Or(query.In("q", []int{2, 3}))).OrderBy(query.ASC("r")).Limit(4).BuildQueryAndParams()
	if err != nil || len(ps) != 4 || !innerText.MatchString(sql) || fmt.Sprint(ps[0], ps[1], ps[2]) != "1 2 3" {
		panic(fmt.Sprintf("a statement built within a method of a condition: %q %v %v", sql, ps, err))
	}
	g := query.And(query.EqualTo("x", 7), query.IsNull("y"))
	if s := g.Render(1); !strings.Contains(s, "$2") || len(g.Values()) != 1 {
		panic(fmt.Sprintf("a condition built within a method of a condition: %q %v", s, g.Values()))
	}
}

var innerText = regexp.MustCompile(`(?is)^\s*select\b[^$]*\binner\b[^$]*\bwhere\b[^$]*\bp\b[^$]*\$1\s+or\b[^$]*\bq\b[^$]*\$2[^$]*\$3[^$]*\border\s+by\b[^$]*\br\b[^$]*\blimit\s+\$4\s*$`)

// fuse, where set, ends one of the callbacks by a panic. It is used by a single goroutine.
var fuse *fuseState

type fuseState struct {
	left  int // callbacks until the panic, negative for none
	blown bool
	seen  int
}

type fusePanic struct{}

// callback is called by the methods of conditions and values given to the library.
func callback() {
	if f := fuse; f != nil {
		f.seen++
		if f.left == 0 {
			f.blown = true
			f.left--
			panic(fusePanic{})
		}
		f.left--
	}
}

// InterruptCase builds statements where a callback panics at every possible place.
type InterruptCase struct {
	Items []BatchItem `json:"items"`
}

func genInterrupt(t *rapid.T) *InterruptCase {
	c := &InterruptCase{}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "items"); i < n; i++ {
		if i > 0 && rapid.Bool().Draw(t, "similar") {
			c.Items = append(c.Items, perturb(t, c.Items[0]))
			continue
		}
		if rapid.IntRange(0, 3).Draw(t, "cond") == 0 {
			c.Items = append(c.Items, BatchItem{Cond: genCond(t, &ids{}, genSize(t, 6), condOpts{custom: true})})
		} else {
			c.Items = append(c.Items, BatchItem{Stmt: genStmtCase(t, condOpts{custom: true}, true, true)})
		}
	}
	return c
}

// builder gives a function that builds the object of an item once more.
func (it *BatchItem) builder() func() outcome {
	cb := &condBuilder{}
	switch {
	case it.Cond != nil:
		c := cb.build(it.Cond).C
		return func() outcome { return outcome{sql: c.Render(2) + "|" + c.RenderSQL(), params: c.Values()} }
	case it.Stmt.Mod != nil:
		m := runMod(it.Stmt.Mod, cb)
		return func() outcome { return outcomeOf(m.build()) }
	}
	s := runSel(it.Stmt.Sel, cb)
	if it.Stmt.Count {
		cnt := s.count()
		return func() outcome { return outcomeOf(cnt.BuildQueryAndParams()) }
	}
	return func() outcome { return outcomeOf(s.build()) }
}

func checkInterrupted(c *InterruptCase, o *Obs) error {
	drop := func(int, string, []any) {}
	first := runBatch(c.Items, false, drop)
	var builders []func() outcome
	var before []outcome
	for i := range c.Items {
		b, ok := tryBuilder(&c.Items[i])
		if !ok { // the program is of the kind that ends by a panic
			return nil
		}
		builders = append(builders, b)
		before = append(before, b())
	}
	blown := 0
	for i := range c.Items {
		for _, scratch := range []bool{false, true} {
			for k := 0; k < 12; k++ {
				// a build of the same object, or the whole program from scratch, ended by the k-th callback
				f := &fuseState{left: k}
				interrupted(f, func() {
					if scratch {
						if b, ok := tryBuilder(&c.Items[i]); ok {
							b()
						}
					} else {
						builders[i]()
					}
				})
				if !f.blown {
					break
				}
				blown++
				for j := range builders {
					if err := before[j].same(builders[j]()); err != nil {
						return fmt.Errorf("item #%d after a panic in callback #%d of item #%d: %w", j+1, k+1, i+1, err)
					}
				}
				if k < 3 {
					if err := sameResults("after a callback's panic", first, runBatch(c.Items, k%2 == 0, drop)); err != nil {
						return err
					}
				}
			}
		}
	}
	o.nontrivial = blown > 0
	o.label("panics %s", bucket(blown))
	return nil
}

func tryBuilder(it *BatchItem) (b func() outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	b = it.builder()
	b()
	return b, true
}

func interrupted(f *fuseState, run func()) {
	fuse = f
	defer func() {
		fuse = nil
		_ = recover()
	}()
	run()
}
