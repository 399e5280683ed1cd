package main

// Large programs: long lists, wide and deep conditions, long chains of calls.
// One size is drawn per case, so failures shrink to the smallest size that fails.

import (
	"fmt"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

var sizes = []int{10, 11, 12, 16, 17, 20, 25, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1599, 1600, 1601, 1664, 1665, 1999, 2000, 2001, 2047, 2048, 2049, 2100, 4095, 4096, 4097, 5000, 9999, 10000, 10001, 32766, 32767, 32768, 65534, 65535, 65536, 65537}

// genScale draws a size up to max: any small one, or one around a round number.
func genScale(t *rapid.T, max int) int {
	switch rapid.IntRange(0, 3).Draw(t, "scale?") {
	case 0:
		return rapid.IntRange(0, min(40, max)).Draw(t, "scale")
	case 1:
		return rapid.IntRange(0, max).Draw(t, "scale")
	}
	n := len(sizes)
	for n > 1 && sizes[n-1] > max {
		n--
	}
	return rapid.SampledFrom(sizes[:n]).Draw(t, "scale")
}

// genTail is genScale with a tail: rarely up to far, more rarely up to farthest.
func genTail(t *rapid.T, max, far, farthest int) int {
	switch k := rapid.IntRange(0, 399).Draw(t, "tail?"); {
	case k == 399 && farthest > 0:
		return genScale(t, farthest)
	case k >= 370:
		return genScale(t, far)
	}
	return genScale(t, max)
}

// plainLeaf is a simple condition made from the next id alone.
func plainLeaf(x *ids, o condOpts) *Cond {
	id := x.next()
	f := FieldRef{N: fmt.Sprintf("f%d", id)}
	if x.rep > 0 {
		f.N = fmt.Sprintf("f%d", id%int64(x.rep))
	}
	if id%7 == 3 {
		f.T = "t"
	}
	if o.custom && id%6 == 2 {
		return &Cond{Op: "custom", F: &f, V: &Val{K: "string", S: fmt.Sprintf("c%d", id), N: id}, N: int(id/6) % 4, Sty: int(id) % 300}
	}
	c := &Cond{Op: leafOps[id%int64(len(leafOps))], F: &f, B: id%2 == 0}
	switch c.Op {
	case "isnull":
	case "contains", "icontains":
		c.V = &Val{K: "string", S: fmt.Sprintf("s%d", id)}
	case "in":
		c.V = &Val{K: "n[]int", N: id % 4, S: fmt.Sprint(id)}
	default:
		c.V = &Val{K: "int", N: id}
	}
	return c
}

// joined gives a condition its own join type, as far as AND and OR are mixed.
func mixJoin(mix int, i int, c *Cond) *Cond {
	if mix == 0 || i%mix != mix-1 {
		return c
	}
	return &Cond{Op: "join", J: "OR", Kids: []*Cond{c}}
}

// growCond makes a condition with about n leaves or list elements.
func growCond(t *rapid.T, x *ids, o condOpts) *Cond {
	shape := rapid.SampledFrom([]string{"list", "list", "wide", "chain", "deep", "nested", "custom"}).Draw(t, "shape")
	if shape == "custom" && !o.custom {
		shape = "wide"
	}
	mix := rapid.IntRange(0, 4).Draw(t, "mix")
	x.rep = genRep(t)
	switch shape {
	case "list":
		max := 5000
		if rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
			max = 70000
		}
		n := genScale(t, max)
		f := genFieldRef(t, x)
		c := &Cond{Op: "in", F: &f, B: rapid.Bool().Draw(t, "via"), V: &Val{K: rapid.SampledFrom([]string{"n[]int", "n[]string", "n[]any"}).Draw(t, "lk"), N: int64(n), S: fmt.Sprint(x.next())}}
		switch rapid.IntRange(0, 4).Draw(t, "in") {
		case 0:
			return c
		case 1:
			return &Cond{Op: "not", Kids: []*Cond{c}}
		case 2:
			return &Cond{Op: "mand", Kids: []*Cond{plainLeaf(x, o), c}}
		case 3:
			return &Cond{Op: "mor", Kids: []*Cond{{Op: "not", Kids: []*Cond{c}}, plainLeaf(x, o)}}
		}
		return &Cond{Op: "group", J: genJoin(t), Kids: []*Cond{c, plainLeaf(x, o)}}
	case "wide": // one call with many conditions
		n := genTail(t, 1100, 5000, 0)
		c := &Cond{Op: rapid.SampledFrom([]string{"group", "mand", "mor", "fand", "for", "jtjoin"}).Draw(t, "wop"), J: genJoin(t)}
		for i := 0; i < n+1; i++ {
			c.Kids = append(c.Kids, mixJoin(mix, i, plainLeaf(x, o)))
		}
		if rapid.Bool().Draw(t, "wnot") {
			c = &Cond{Op: "not", Kids: []*Cond{c}}
		}
		return c
	case "chain": // many calls on a growing condition
		n := genScale(t, 260)
		c := plainLeaf(x, o)
		for i := 0; i < n; i++ {
			op := "mand"
			if mix > 0 && i%mix == mix-1 {
				op = "mor"
			}
			c = &Cond{Op: op, Kids: []*Cond{c, plainLeaf(x, o)}}
		}
		return c
	case "nested": // the growing condition is the argument
		n := genScale(t, 130)
		c := plainLeaf(x, o)
		for i := 0; i < n; i++ {
			op := "mand"
			if mix > 0 && i%mix == mix-1 {
				op = "mor"
			}
			c = &Cond{Op: op, Kids: []*Cond{plainLeaf(x, o), c}}
		}
		return c
	case "custom":
		f := genFieldRef(t, x)
		f.A = ""
		c := &Cond{Op: "custom", F: &f, V: &Val{K: "string", S: "big", N: x.next()}, N: genScale(t, 300), Sty: rapid.IntRange(0, 100).Draw(t, "sty")}
		return &Cond{Op: "mand", Kids: []*Cond{plainLeaf(x, o), c, plainLeaf(x, o)}}
	}
	// deep: groups, negations and brackets around groups
	n := genScale(t, 130)
	c := plainLeaf(x, o)
	for i := 0; i < n; i++ {
		switch (i + mix) % 5 {
		case 0, 3:
			c = &Cond{Op: "group", J: []string{"AND", "OR"}[(i+mix)%2], Kids: []*Cond{c, plainLeaf(x, o)}}
		case 1:
			c = &Cond{Op: "not", Kids: []*Cond{c}}
		case 2:
			c = &Cond{Op: "group", J: "OR", Kids: []*Cond{plainLeaf(x, o), c}}
		case 4:
			c = &Cond{Op: "brackets", Kids: []*Cond{c}}
		}
	}
	return c
}

// growRef makes a field from the next id; rep > 0 makes names repeat after as many.
func growRef(x *ids, rep int) FieldRef {
	id := x.next()
	if rep > 0 {
		id = 100 + id%int64(rep)
	}
	f := FieldRef{N: fmt.Sprintf("c%d", id)}
	if id%3 == 0 {
		f.T = "t"
	}
	if id%5 == 0 {
		f.A = fmt.Sprintf("a%d", id)
	}
	return f
}

func genRep(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 7, 19, 100}).Draw(t, "rep")
}

func growFVs(x *ids, n, rep int) (fvs []FV) {
	for i := 0; i < n; i++ {
		f := growRef(x, rep)
		f.A = ""
		fvs = append(fvs, FV{F: f, V: Val{K: []string{"int", "string", "nil", "valuer"}[i%4], N: x.n, S: fmt.Sprint("v", x.n)}, Via: i % 4})
	}
	return
}

// growSelProg makes one part of a select program large.
func growSelProg(t *rapid.T, x *ids, o condOpts) *SelProg {
	p := genSelProg(t, x, 3, 2, o)
	rep := genRep(t)
	return growPart(t, x, p, rep, o, rapid.SampledFrom([]string{"cond", "cond", "calls", "fields", "joins", "orders", "order-calls"}).Draw(t, "grow"))
}

// growPart adds many calls or arguments of a kind somewhere in the program.
func growPart(t *rapid.T, x *ids, p *SelProg, rep int, o condOpts, what string) *SelProg {
	var ops []SelOp
	switch what {
	case "cond":
		ops = []SelOp{{Op: "where", Cs: []*Cond{growCond(t, x, o)}}}
	case "calls":
		n := genTail(t, 260, 1100, 0)
		for i := 0; i < n; i++ {
			cs := []*Cond{plainLeaf(x, o)}
			if i%9 == 4 {
				cs = append(cs, mixJoin(2, 1, plainLeaf(x, o)))
			}
			ops = append(ops, SelOp{Op: "where", Cs: cs})
		}
	case "fields":
		n := genTail(t, 1100, 5000, 70000)
		op := SelOp{Op: "fields", Via: rapid.IntRange(0, 3).Draw(t, "fvia")}
		for i := 0; i < n; i++ {
			op.Fs = append(op.Fs, growRef(x, rep))
		}
		ops = []SelOp{op}
	case "joins":
		n := genTail(t, 130, 1100, 5000)
		for i := 0; i < n; i++ {
			tab := TabSpec{N: fmt.Sprintf("j%d", i), Via: i % 9}
			if i%3 == 1 {
				tab.A = fmt.Sprintf("ja%d", i)
			}
			l, r := growRef(x, rep), growRef(x, rep)
			l.T, r.T = "t", tab.N
			ops = append(ops, SelOp{Op: "join", JT: i % 4, Tab: &tab, L: &l, R: &r, Via: i % 80})
		}
	case "orders", "order-calls":
		n := genTail(t, 300, 1100, 5000)
		op := SelOp{Op: "order"}
		for i := 0; i < n; i++ {
			f := growRef(x, rep)
			f.A = ""
			op.Os = append(op.Os, OrderSpec{F: f, Dir: []string{"ASC", "DESC"}[i%2], Via: i % 4})
			if i%4 == 3 {
				ops = append(ops, op)
				op.Os = nil
			}
		}
		ops = append(ops, op)
	}
	at := rapid.IntRange(0, len(p.Ops)).Draw(t, "at")
	p.Ops = append(append(append([]SelOp{}, p.Ops[:at]...), ops...), p.Ops[at:]...)
	return p
}

func growModProg(t *rapid.T, x *ids, kind string, o condOpts) *ModProg {
	p := genModProg(t, x, kind, 2, 2, o, false)
	if rapid.IntRange(0, 3).Draw(t, "derived") == 0 {
		p.Sel = growSelProg(t, x, o)
	}
	var ops []ModOp
	rep := genRep(t)
	if kind == "INSERT" || (kind == "UPDATE" && rapid.Bool().Draw(t, "growset")) {
		if rapid.Bool().Draw(t, "calls") {
			n := genTail(t, 260, 1100, 0)
			for i := 0; i < n; i++ {
				ops = append(ops, ModOp{Op: "set", FVs: growFVs(x, 1+i%2, rep)})
			}
		} else {
			ops = []ModOp{{Op: "set", FVs: growFVs(x, genTail(t, 1100, 5000, 70000), rep)}}
		}
	} else {
		ops = []ModOp{{Op: "where", Cs: []*Cond{growCond(t, x, o)}}}
	}
	if kind != "INSERT" {
		ops = append(ops, ModOp{Op: "where", Cs: []*Cond{plainLeaf(x, o)}})
	}
	if kind == "UPDATE" {
		ops = append(ops, ModOp{Op: "set", FVs: growFVs(x, 1, 0)})
	}
	p.Ops = append(p.Ops, ops...)
	return p
}

func growStmtCase(o condOpts, kinds ...string) func(t *rapid.T) *StmtCase {
	return func(t *rapid.T) *StmtCase {
		x := &ids{n: 100}
		switch k := rapid.SampledFrom(kinds).Draw(t, "gkind"); k {
		case "SELECT":
			return &StmtCase{Sel: growSelProg(t, x, o)}
		case "COUNT":
			return &StmtCase{Sel: growSelProg(t, x, o), Count: true}
		default:
			return &StmtCase{Mod: growModProg(t, x, k, o)}
		}
	}
}

func growCondCase(o condOpts) func(t *rapid.T) *CondCase {
	return func(t *rapid.T) *CondCase { return &CondCase{C: growCond(t, &ids{n: 100}, o)} }
}

// LongList is a membership condition with many elements.
type LongList struct {
	C   *Cond `json:"c"`
	Neg bool  `json:"neg,omitempty"`
}

func genLongList(t *rapid.T) *LongList {
	max := 5000
	if rapid.IntRange(0, 10).Draw(t, "huge") == 0 {
		max = 70000
	}
	f := genFieldRef(t, nil)
	v := Val{K: rapid.SampledFrom([]string{"n[]int", "n[]string", "n[]any"}).Draw(t, "lk"), S: "7", N: int64(genScale(t, max))}
	return &LongList{C: &Cond{Op: "in", F: &f, V: &v, B: rapid.Bool().Draw(t, "via")}, Neg: rapid.Bool().Draw(t, "neg")}
}

// checkLongList evaluates the condition on rows holding elements from all over the list and others.
func checkLongList(c *LongList, o *Obs) error {
	cb := &condBuilder{}
	b := cb.build(c.C)
	if c.Neg {
		b.C, b.neg = query.Not(b.C), true
	}
	n := len(b.params)
	o.nontrivial = n > 20
	o.label("elements %s", bucketBig(n))
	if err := condCheck(b); err != nil {
		return shortErr(err)
	}
	if err := sameParams(b.params, b.C.Values()); err != nil {
		return shortErr(err)
	}
	e, _, err := ParseExpr(b.C.Render(0))
	if err != nil {
		return shortErr(err)
	}
	if e.Op == "pred" && n == 0 {
		return nil // decided by condCheck
	}
	cells := []any{nil, "other", -1}
	for _, i := range append([]int{0, 1, n / 3, n / 2, n - 2, n - 1}, sizes...) {
		for _, j := range []int{i - 1, i} {
			if j >= 0 && j < n && len(cells) < 40 {
				cells = append(cells, b.params[j])
			}
		}
	}
	ref := normalRef(*c.C.F).inCondition()
	for k, cell := range cells {
		want := int8(1)
		if k == 0 {
			want = -1
		} else if k < 3 {
			want = 0
		}
		if c.Neg {
			want = not3(want)
		}
		got, ok, err := evalRow(e, map[string]any{ref: cell}, b.params)
		if err != nil {
			return shortErr(err)
		}
		if ok && got != want {
			return fmt.Errorf("for %s = %s and %d elements expected %d, got %d", ref, valText(cell), n, want, got)
		}
	}
	return nil
}

func shortErr(err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s", tail(err.Error(), 3000))
}

func bucketBig(n int) string {
	switch {
	case n <= 20:
		return "0-20"
	case n <= 100:
		return "21-100"
	case n <= 1000:
		return "101-1000"
	case n <= 10000:
		return "1001-10000"
	}
	return "10001+"
}

const scaleRule = "; the scale part makes one dimension large (list elements up to 70000, conditions in one call up to 1100, calls and nesting up to 260, columns and fields up to 1100, joins, orderings; rarely conditions, columns and fields up to 5000, calls, joins and orderings up to 1100, hardly ever columns and fields up to 70000), sizes around powers of two and round numbers preferred"
