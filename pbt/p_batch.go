package main

// Whole batches of programs: nothing a process did before may influence what a program gives (C20), and nothing done later
// may change what was returned before (C05, C20).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// BatchItem is one program of a batch.
type BatchItem struct {
	Stmt  *StmtCase `json:"stmt,omitempty"`
	Cond  *Cond     `json:"cond,omitempty"`
	Spec  string    `json:"spec,omitempty"`
	Names []string  `json:"names,omitempty"`
	Lim   []int64   `json:"lim,omitempty"` // offset and limit of a limiter
	Map   *MapCase  `json:"map,omitempty"`
}

type BatchCase struct {
	Items  []BatchItem `json:"items"`
	Rounds int         `json:"rounds"`
}

// kept are slices returned to the caller, with what they held.
type kept struct {
	item      int
	what      string
	got, copy []any
}

func (k *kept) check() error {
	if err := sameParams(k.copy, k.got); err != nil {
		return fmt.Errorf("%s of item #%d changed after they were returned: %w", k.what, k.item+1, err)
	}
	return nil
}

// run executes an item; texts describe all it gives.
func (it *BatchItem) run(keep func(what string, got []any)) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	var b strings.Builder
	add := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	params := func(what string, ps []any) {
		keep(what, ps)
		for _, p := range ps {
			add("%T%s", p, encodeAny(p))
		}
	}
	cb := &condBuilder{}
	switch {
	case it.Stmt != nil && it.Stmt.Mod != nil:
		sql, ps, err := runMod(it.Stmt.Mod, cb).build()
		add("%q %s", sql, errText(err))
		params("parameters", ps)
	case it.Stmt != nil && it.Stmt.Count:
		sql, ps, err := runSel(it.Stmt.Sel, cb).count().BuildQueryAndParams()
		add("%q %s", sql, errText(err))
		params("parameters", ps)
	case it.Stmt != nil:
		s := runSel(it.Stmt.Sel, cb)
		sql, ps, err := s.build()
		add("%q %s", sql, errText(err))
		params("parameters", ps)
		add("%q %q %q", s.renderAt(3), s.renderSQL(), s.renderFrom())
		params("values", s.values())
	case it.Cond != nil:
		c := cb.build(it.Cond).C
		add("%q %q", c.Render(2), c.RenderSQL())
		params("values", c.Values())
	case it.Names != nil:
		var ns []query.FieldName
		for _, n := range it.Names {
			ns = append(ns, query.FieldName(n))
		}
		add("%q", query.UniqFieldNames(ns))
	case it.Lim != nil:
		l := query.Limiter{}.Offset(uint(it.Lim[0])).Limit(uint(it.Lim[1]))
		add("%q %q", l.Render(4), l.RenderSQL())
		params("values", l.Values())
	case it.Map != nil:
		m, _ := it.Map.make()
		fvs, err := m.FieldValues()
		add("%s", errText(err))
		for _, fv := range fvs {
			add("%q", fv.RenderSpec())
			params("values", fv.Values())
		}
	default:
		f, err := query.FieldOrError(it.Spec)
		add("%s", errText(err))
		if err == nil {
			add("%q %q %q", f.RenderSpec(), f.RenderField(), f.RenderTableSpec())
		}
		t, err := query.TableOrError(it.Spec)
		add("%s", errText(err))
		if err == nil {
			add("%q %q", t.RenderFrom(), t.Field("x").RenderSpec())
		}
		add("%s", errText(query.FieldName(it.Spec).Validate()))
	}
	return b.String()
}

// runBatch gives the results of all items; backwards they are executed in the opposite order.
func runBatch(items []BatchItem, backwards bool, keep func(item int, what string, got []any)) []string {
	res := make([]string, len(items))
	for k := range items {
		i := k
		if backwards {
			i = len(items) - 1 - k
		}
		res[i] = items[i].run(func(what string, got []any) { keep(i, what, got) })
	}
	return res
}

func sameResults(what string, a, b []string) error {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("item #%d gives a different result %s:\n%s\nand\n%s", i+1, what, tail(a[i], 600), tail(b[i], 600))
		}
	}
	return nil
}

// checkRetained repeats the batch and compares results and everything that was returned before.
func checkRetained(c *BatchCase, o *Obs) error {
	o.nontrivial = len(c.Items)*c.Rounds >= 4
	o.label("items %s", bucket(len(c.Items)))
	var ks []*kept
	keep := func(item int, what string, got []any) {
		ks = append(ks, &kept{item, what, got, append([]any{}, got...)})
	}
	first := runBatch(c.Items, false, keep)
	for r := 0; r < c.Rounds; r++ {
		again := runBatch(c.Items, r%2 == 0, func(int, string, []any) {})
		if err := sameResults("when repeated", first, again); err != nil {
			return err
		}
	}
	for _, k := range ks {
		if err := k.check(); err != nil {
			return err
		}
	}
	return nil
}

// checkBatch executes the batch in two fresh processes, forwards and backwards.
func checkBatch(c *BatchCase, o *Obs) error {
	o.nontrivial = len(c.Items) >= 2
	o.label("items %s", bucket(len(c.Items)))
	var res [2][]string
	for i, dir := range []string{"forwards", "backwards"} {
		out, err := batchChild(c, dir)
		if err != nil {
			return err
		}
		res[i] = out
	}
	return sameResults("when other programs run before it", res[0], res[1])
}

func batchChild(c *BatchCase, dir string) (res []string, err error) {
	self, err := os.Executable()
	if err != nil || strings.HasSuffix(self, ".test") {
		return nil, errSkip
	}
	cmd := exec.Command(self, "batch", dir)
	cmd.Stdin = bytes.NewReader(encode(c))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	raw, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(raw, &res)
	}
	if err != nil || len(res) != len(c.Items) {
		panic(fmt.Sprintf("harness: batch process: %v", err))
	}
	return res, nil
}

// batchMain is the child.
func batchMain(dir string) int {
	c := &BatchCase{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_, _ = os.Stdout.Write(encode(runBatch(c.Items, dir == "backwards", func(int, string, []any) {})))
	return 0
}

func genBatchItem(t *rapid.T) BatchItem {
	x := &ids{}
	switch rapid.IntRange(0, 9).Draw(t, "item") {
	case 0:
		return BatchItem{Cond: genCond(t, x, genSize(t, 5), condOpts{custom: true})}
	case 1:
		return BatchItem{Spec: printable(genSpecText(t))}
	case 2:
		ns := []string{genIdent(t, "n0")}
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nn"); i < n; i++ {
			ns = append(ns, genIdent(t, "n"))
		}
		return BatchItem{Names: ns}
	case 3:
		return BatchItem{Lim: []int64{rapid.Int64Range(0, 3).Draw(t, "off"), rapid.Int64Range(0, 3).Draw(t, "lim")}}
	case 4:
		return BatchItem{Map: genMapCase(t)}
	}
	return BatchItem{Stmt: genStmtCase(t, condOpts{custom: true}, true, true)}
}

// printable keeps a text the same when it is written as JSON.
func printable(s string) string { return strings.ToValidUTF8(s, "_") }

// perturb changes a few names, directions, operators or values of an item.
func perturb(t *rapid.T, it BatchItem) BatchItem {
	var v any
	d := json.NewDecoder(bytes.NewReader(encode(it)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	var at []func()
	var walk func(v any)
	walk = func(v any) {
		switch m := v.(type) {
		case []any:
			for i, e := range m {
				if i > 0 && fmt.Sprint(m[i-1]) != fmt.Sprint(e) {
					at = append(at, func() { m[i-1], m[i] = m[i], m[i-1] })
				}
				walk(e)
			}
		case map[string]any:
			for _, k := range sortedKeys(m) {
				s, isText := m[k].(string)
				switch {
				case isText && (k == "n" || k == "t" || k == "a") && s != "" && s != "*" && m["k"] == nil:
					at = append(at, func() { m[k] = genIdent(t, "newname") })
				case isText && k == "dir":
					at = append(at, func() { m[k] = map[string]string{"ASC": "DESC", "DESC": "ASC"}[s] })
				case isText && k == "j":
					at = append(at, func() { m[k] = map[string]string{"AND": "OR", "OR": "AND"}[s] })
				case isText && k == "s" && m["k"] != nil:
					at = append(at, func() { m[k] = genText(t, &ids{n: 900}) })
				case k == "n" && m["k"] == "int":
					at = append(at, func() { m[k] = rapid.IntRange(0, 1000).Draw(t, "newnum") })
				case isText && k == "op" && (s == "gt" || s == "lt" || s == "gte" || s == "lte"):
					at = append(at, func() { m[k] = rapid.SampledFrom([]string{"gt", "lt", "gte", "lte"}).Draw(t, "newop") })
				}
				walk(m[k])
			}
		}
	}
	walk(v)
	if len(at) == 0 {
		return it
	}
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nperturb"); i < n; i++ {
		at[rapid.IntRange(0, len(at)-1).Draw(t, "where")]()
	}
	res := BatchItem{}
	if err := json.Unmarshal(encode(v), &res); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return res
}

func sortedKeys(m map[string]any) []string { return topLabels(countKeys(m)) }

func countKeys(m map[string]any) map[string]int {
	res := map[string]int{}
	for k := range m {
		res[k]++
	}
	return res
}

func genBatch(max int) func(t *rapid.T) *BatchCase {
	return func(t *rapid.T) *BatchCase {
		c := &BatchCase{}
		n := rapid.IntRange(1, max).Draw(t, "items")
		for i := 0; i < n; i++ {
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "similar") != 0 {
				c.Items = append(c.Items, perturb(t, c.Items[rapid.IntRange(0, i-1).Draw(t, "base")]))
			} else {
				c.Items = append(c.Items, genBatchItem(t))
			}
		}
		c.Rounds = rapid.SampledFrom([]int{1, 2, 3, 3, 20}).Draw(t, "rounds")
		if rapid.IntRange(0, 20).Draw(t, "many") == 0 {
			c.Rounds = 300
		}
		return c
	}
}
