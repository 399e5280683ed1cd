package main

// Concurrent histories: objects made by one goroutine are shared by several, which render them and derive new
// objects from them at the same time.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type ConcCase struct {
	Vals    []Val     `json:"vals"`
	Suffix  int       `json:"suffix"` // makes names new in every case, so nothing is remembered from an earlier one
	Setup   []WStep   `json:"setup"`
	Threads [][]WStep `json:"threads"`       // slots below len(Setup) are shared, the others are those of the goroutine
	Own     bool      `json:"own,omitempty"` // every goroutine makes the objects of the setup itself
}

// steps of a goroutine.
func (c *ConcCase) steps(i int) []WStep {
	if c.Own {
		return append(append([]WStep{}, c.Setup...), c.Threads[i]...)
	}
	return c.Threads[i]
}

func genConc(t *rapid.T) *ConcCase {
	c := &ConcCase{Vals: genWorldVals(t), Suffix: rapid.IntRange(0, 1<<30).Draw(t, "suffix")}
	for i := range c.Vals {
		if strings.Contains(c.Vals[i].K, "flaky") { // counts its calls itself
			c.Vals[i] = genScalarOfKind(t, &ids{}, "int")
		}
	}
	focus := rapid.SampledFrom(focusTypes).Draw(t, "focus")
	setup := &wgen{t: t, nvals: len(c.Vals), focus: focus}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
		setup.step()
	}
	setup.ensure(focus, 0)
	var grown *wop
	grownAt := 0
	// a few calls on one object, so that its lists get spare capacity
	if ops := opsOfRecv[focus]; rapid.Bool().Draw(t, "grow") {
		var same []*wop
		for _, o := range ops {
			if o.out == focus {
				same = append(same, o)
			}
		}
		if at := setup.slotsFor(focus); len(at) > 0 && len(same) > 0 {
			cur := at[len(at)-1]
			if l := listOps(same); len(l) > 0 && rapid.Bool().Draw(t, "lists") {
				same = l
			}
			o := same[rapid.IntRange(0, len(same)-1).Draw(t, "growop")]
			for i, n := 0, rapid.IntRange(1, 7).Draw(t, "grown"); i < n; i++ {
				if setup.on(o, cur) {
					cur = len(setup.types) - 1
				}
			}
			grown, grownAt = o, cur
		}
	}
	c.Setup = setup.steps
	base := len(c.Setup)
	similar := rapid.Bool().Draw(t, "similar") // all goroutines do the same
	for k, n := 0, rapid.IntRange(2, 4).Draw(t, "threads"); k < n; k++ {
		if similar && k > 0 {
			c.Threads = append(c.Threads, c.Threads[0])
			continue
		}
		g := &wgen{t: t, nvals: len(c.Vals), focus: focus, base: base,
			types: append([]reflect.Type{}, setup.types...), mine: append([]bool{}, setup.mine...), steps: append([]WStep{}, setup.steps...)}
		if grown != nil && rapid.Bool().Draw(t, "growmore") { // every goroutine adds to the same object
			g.on(grown, grownAt)
		}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "tn"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(t, "observe") == 0 {
				if obs := g.objects(); len(obs) > 0 {
					g.push(WStep{Op: "observe", X: obs[rapid.IntRange(0, len(obs)-1).Draw(t, "obj")] + 1}, nil, false)
					continue
				}
			}
			g.step()
		}
		c.Threads = append(c.Threads, g.steps[base:])
	}
	return c
}

// objects are the slots of objects that can be rendered.
func (g *wgen) objects() (res []int) {
	for i, t := range g.types {
		if t != nil && isPooled(t) {
			res = append(res, i)
		}
	}
	return
}

// concRun is one world with its goroutines' worlds.
type concRun struct {
	shared  *World
	threads []*World
}

func newConcRun(c *ConcCase, vals []any) *concRun {
	r := &concRun{shared: &World{vals: vals, quiet: true, suffix: fmt.Sprint("_", c.Suffix)}}
	if c.Own {
		for range c.Threads {
			r.threads = append(r.threads, &World{vals: vals, suffix: r.shared.suffix})
		}
		return r
	}
	for _, st := range c.Setup {
		r.shared.run(st)
	}
	for range c.Threads {
		r.threads = append(r.threads, &World{vals: vals, suffix: r.shared.suffix, base: len(c.Setup),
			slots: append([]*wslot{}, r.shared.slots...),
			steps: append([]WStep{}, r.shared.steps...),
			deps:  append([][]WArg{}, r.shared.deps...)})
	}
	return r
}

func (w *World) runAll(steps []WStep) {
	for _, st := range steps {
		w.run(st)
	}
}

// results are what a goroutine saw.
func (w *World) results() (res []string) {
	for _, s := range w.slots[w.base:] {
		switch {
		case !s.ok:
			res = append(res, "-"+s.snap)
		case isPooled(s.typ):
			res = append(res, s.snap)
		default:
			res = append(res, fmt.Sprint(s.val.Len()))
		}
	}
	return res
}

func (r *concRun) finals() (res []string) {
	for _, w := range append([]*World{r.shared}, r.threads...) {
		for _, s := range w.slots[w.base:] {
			if s.ok && isPooled(s.typ) {
				res = append(res, w.snapshot(s))
			}
		}
	}
	return res
}

func checkConc(c *ConcCase, o *Obs) error {
	if !knownOps(c.Setup) {
		return errSkip
	}
	sharedUses := 0
	for _, th := range c.Threads {
		if !knownOps(th) {
			return errSkip
		}
		uses := map[int]bool{}
		for _, st := range th {
			for _, a := range append([]WArg{{S: st.X}}, st.A...) {
				if a.S > 0 && a.S <= len(c.Setup) {
					uses[a.S] = true
				}
			}
		}
		if len(uses) > 0 {
			sharedUses++
		}
	}
	vals := buildVals(c.Vals)
	before := raceErrors()
	con := newConcRun(c, vals)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Threads {
		wg.Add(1)
		go func(w *World, steps []WStep) {
			defer wg.Done()
			<-start
			w.runAll(steps)
		}(con.threads[i], c.steps(i))
	}
	close(start)
	wg.Wait()
	o.nontrivial = sharedUses >= 2 || c.Own
	o.label("goroutines: %d", len(c.Threads))
	o.label("goroutines using shared objects: %d", sharedUses)
	if n := raceErrors() - before; n > 0 {
		return fmt.Errorf("%d data races: %s", n, raceReport())
	}
	seq := newConcRun(c, vals)
	for i, w := range seq.threads {
		w.runAll(c.steps(i))
		x, y := con.threads[i].results(), w.results()
		for k := range y {
			if x[k] != y[k] {
				return fmt.Errorf("goroutine %d, step %d (%s): it gets something else than alone: %s", i, k, c.steps(i)[k].Op, firstDiff(y[k], x[k]))
			}
		}
	}
	x, y := con.finals(), seq.finals()
	for k := range y {
		if x[k] != y[k] {
			return fmt.Errorf("after all goroutines an object is not what it is without concurrency: %s", firstDiff(y[k], x[k]))
		}
	}
	return nil
}

// checkFresh executes the case in a fresh process, where nothing of the library was used before.
func checkFresh(c *ConcCase, o *Obs) error {
	o.nontrivial = true
	o.label("goroutines: %d", len(c.Threads))
	self, err := os.Executable()
	if err != nil || strings.HasSuffix(self, ".test") {
		return errSkip
	}
	cmd := exec.Command(self, "conc")
	cmd.Stdin = bytes.NewReader(encode(c))
	cmd.Env = append(os.Environ(), "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if at := strings.Index(stderr.String(), "fatal error:"); at >= 0 {
		return fmt.Errorf("the process dies: %s", firstLine(stderr.String()[at:]))
	}
	var msg string
	if err == nil {
		err = json.Unmarshal(out, &msg)
	}
	if err != nil {
		panic(fmt.Sprintf("harness: process of goroutines: %v %s", err, tail(stderr.String(), 300)))
	}
	if msg != "" {
		return errors.New(msg)
	}
	return nil
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

// concMain is the child.
func concMain() int {
	c := &ConcCase{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	msg := ""
	if err := checkConc(c, &Obs{}); err != nil && err != errSkip {
		msg = err.Error()
	}
	_, _ = os.Stdout.Write(encode(msg))
	return 0
}

func genFresh(t *rapid.T) *ConcCase {
	c := genConc(t)
	c.Own = rapid.IntRange(0, 3).Draw(t, "own") != 0
	return c
}

// raceReport is the last report of the race detector, if it writes to a file.
func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			logs, _ := filepath.Glob(fmt.Sprintf("%s.%d", p, os.Getpid()))
			for _, l := range logs {
				raw, err := os.ReadFile(l)
				if err != nil {
					continue
				}
				reps := strings.Split(string(raw), "==================")
				for i := len(reps) - 1; i >= 0; i-- {
					if strings.Contains(reps[i], "DATA RACE") {
						return strings.Join(repoFrames(reps[i]), " / ")
					}
				}
			}
		}
	}
	return "see the race detector's report"
}

// repoFrames are the lines of a report that are about the library.
func repoFrames(rep string) (res []string) {
	for _, l := range strings.Split(rep, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") || strings.Contains(l, "amarin/query.") {
			res = append(res, l)
		}
		if len(res) > 12 {
			break
		}
	}
	return
}

var errNoRace = errors.New("C19 needs a build with -race")

func init() {
	addFunc("Field(text)", func(f query.FieldName) query.FieldDefinition { return query.Field(string(f) + " AS zz") })
	addFunc("Table(text)", func(f query.TableName) query.TableIdent { return query.Table(string(f) + " tt") })
	sort.SliceStable(wops, func(i, j int) bool { return wops[i].name < wops[j].name })
	register(&Property{
		ID:   "C19",
		Rule: "histories of every exported method and constructor: some objects are made first and then used by 2 to 4 goroutines at once, which render them, derive objects from them and make objects of their own, under the race detector; what each goroutine saw is compared with the same steps run one goroutine after the other; in the fresh part every case has a process of its own, and the goroutines usually make all objects themselves, so that nothing of the library was used before; non-trivial: at least two goroutines use shared objects, or everything is made by the goroutines",
		Assume: []string{
			"the race detector reports a race whenever two goroutines touch the same memory without ordering in the explored execution, whatever the timing; executions not generated are not covered",
			"driver.Valuer and value provider implementations of the caller are themselves safe to call concurrently",
		},
		Parts: []Part{
			&part[ConcCase]{Name: "shared", Quick: 3000, Thorough: 30000, Gen: genConc, Check: checkConc},
			&part[ConcCase]{Name: "fresh", Quick: 300, Thorough: 4000, Gen: genFresh, Check: checkFresh},
		},
	})
}
