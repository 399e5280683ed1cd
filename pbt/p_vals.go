package main

// C02: values never influence the text. C17: what is bound for a value.

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// PairCase is the same program twice, with different values of equal shape.
type PairCase struct {
	A StmtCase `json:"a"`
	B StmtCase `json:"b"`
}

type CondPair struct {
	A *Cond `json:"a"`
	B *Cond `json:"b"`
	N int   `json:"n"` // initial count
}

// revaluer replaces values.
type revaluer struct {
	t       *rapid.T
	x       *ids
	last    *Val
	changed bool
}

func (r *revaluer) draw(kinds []string) Val {
	t := r.t
	var v Val
	switch rapid.IntRange(0, 4).Draw(t, "special") {
	case 0:
		k := rapid.SampledFrom(kinds).Draw(t, "k")
		v = Val{K: k} // zero content
	case 1:
		v = genScalarOfKind(t, r.x, rapid.SampledFrom(kinds).Draw(t, "k"))
		if v.S != "" {
			v.S = rapid.SampledFrom(hostile).Draw(t, "whole")
		}
	case 2:
		if r.last != nil && contains(kinds, r.last.K) {
			v = *r.last
			break
		}
		fallthrough
	default:
		v = genScalarOfKind(t, r.x, rapid.SampledFrom(kinds).Draw(t, "k"))
	}
	r.last = &v
	return v
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (r *revaluer) scalar(v *Val) {
	if rapid.IntRange(0, 5).Draw(r.t, "aslist") == 0 {
		*v = genList(r.t, r.x, 3)
	} else {
		*v = r.draw(scalarKinds)
	}
}

func (r *revaluer) list(v *Val) {
	n := len(v.L)
	switch v.K {
	case "nil[]string", "nil[]int":
		n = 0
	}
	if k, array := arrayKinds[v.K]; array {
		n = k
	}
	if !isListKind(v.K) {
		*v = r.draw(scalarKinds)
		return
	}
	if n == 0 && rapid.Bool().Draw(r.t, "nilslice") {
		*v = Val{K: rapid.SampledFrom([]string{"nil[]string", "nil[]int"}).Draw(r.t, "nk")}
		return
	}
	k := rapid.SampledFrom(listKinds).Draw(r.t, "lk")
	*v = Val{K: k}
	for i := 0; i < n; i++ {
		if k == "[][]string" {
			v.L = append(v.L, genElem(r.t, r.x, nil, "[]string"))
			continue
		}
		v.L = append(v.L, r.draw(elemKind[k]))
	}
}

func (r *revaluer) cond(c *Cond) {
	if c.V != nil {
		v := *c.V
		switch c.Op {
		case "custom":
			v.S = genText(r.t, r.x)
		case "contains", "icontains":
			v = r.draw([]string{"string"})
		case "in":
			r.list(&v)
		default:
			r.scalar(&v)
		}
		if !reflect.DeepEqual(*c.V, v) {
			r.changed = true
		}
		c.V = &v
	}
	for _, k := range c.Kids {
		r.cond(k)
	}
}

func (r *revaluer) sel(p *SelProg) {
	if p == nil {
		return
	}
	for _, c := range p.First {
		r.cond(c)
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		for _, c := range op.Cs {
			r.cond(c)
		}
		if (op.Op == "limit" || op.Op == "offset") && op.N > 0 {
			op.N = rapid.SampledFrom([]int64{1, 2, 10, 1 << 40, 99}).Draw(r.t, "page")
		}
	}
}

func (r *revaluer) stmt(c *StmtCase) {
	r.sel(c.Sel)
	if c.Mod == nil {
		return
	}
	r.sel(c.Mod.Sel)
	op := func(o *ModOp) {
		for i := range o.FVs {
			old := o.FVs[i].V
			r.scalar(&o.FVs[i].V)
			if !reflect.DeepEqual(old, o.FVs[i].V) {
				r.changed = true
			}
		}
		for _, c := range o.Cs {
			r.cond(c)
		}
	}
	op(&c.Mod.First)
	for i := range c.Mod.Ops {
		op(&c.Mod.Ops[i])
	}
}

func clone[T any](v *T) *T {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	res := new(T)
	if err := json.Unmarshal(raw, res); err != nil {
		panic(err)
	}
	return res
}

func genPair(t *rapid.T) *PairCase {
	a := genStmtCase(t, condOpts{custom: true}, true, true)
	b := clone(a)
	(&revaluer{t: t, x: &ids{n: 5000}}).stmt(b)
	return &PairCase{*a, *b}
}

func genCondPair(t *rapid.T) *CondPair {
	a := genCond(t, &ids{}, genSize(t, 6), condOpts{custom: true})
	b := clone(a)
	(&revaluer{t: t, x: &ids{n: 5000}}).cond(b)
	return &CondPair{a, b, rapid.IntRange(0, 100).Draw(t, "n")}
}

// texts are all texts a statement gives.
func (c *StmtCase) texts() (res []string, nparams int, err error) {
	cb := &condBuilder{}
	var sql string
	var params []any
	switch {
	case c.Mod != nil:
		m := runMod(c.Mod, cb)
		sql, params, err = m.build()
		return []string{sql, errText(err)}, len(params), nil
	case c.Count:
		var f []query.FieldName
		if c.CountOf != "" {
			f = append(f, query.FieldName(c.CountOf))
		}
		sql, params, err = runSel(c.Sel, cb).count(f...).BuildQueryAndParams()
		return []string{sql, errText(err)}, len(params), nil
	}
	s := runSel(c.Sel, cb)
	sql, params, err = s.build()
	return []string{sql, errText(err), s.renderAt(0), s.renderAt(8), s.renderSQL(), s.renderFrom()}, len(params), nil
}

func errText(err error) string {
	if err != nil {
		return err.Error()
	}
	return ""
}

func checkPair(c *PairCase, o *Obs) error {
	ra, rb := encode(c.A), encode(c.B)
	o.nontrivial = string(ra) != string(rb)
	c.B.stats(o)
	ta, na, err := c.A.texts()
	if err != nil {
		return err
	}
	tb, nb, err := c.B.texts()
	if err != nil {
		return err
	}
	for i := range ta {
		if ta[i] != tb[i] {
			return fmt.Errorf("values changed the text from %q to %q", ta[i], tb[i])
		}
	}
	if na != nb {
		return fmt.Errorf("values changed the number of parameters of %q from %d to %d", ta[0], na, nb)
	}
	return nil
}

func checkCondPair(c *CondPair, o *Obs) error {
	o.nontrivial = string(encode(c.A)) != string(encode(c.B))
	a, b := (&condBuilder{}).build(c.A).C, (&condBuilder{}).build(c.B).C
	for _, n := range []int{0, c.N} {
		if x, y := a.Render(n), b.Render(n); x != y {
			return fmt.Errorf("values changed the text from %q to %q", x, y)
		}
	}
	if x, y := a.RenderSQL(), b.RenderSQL(); x != y {
		return fmt.Errorf("values changed the text from %q to %q", x, y)
	}
	if x, y := len(a.Values()), len(b.Values()); x != y {
		return fmt.Errorf("values changed the number of values of %q from %d to %d", a.Render(0), x, y)
	}
	return nil
}

// C17.

type ValueCase struct {
	FVs    []FV `json:"fvs"`
	Place  int  `json:"place"`
	Op     int  `json:"op"`
	Rounds int  `json:"rounds"` // how many times everything is asked for
	Copy   int  `json:"copy,omitempty"`
}

var failKinds = []string{"fail", "failpartial", "flaky", "flakypartial"}

func failing(v Val) bool {
	if contains(failKinds, v.K) {
		return true
	}
	for _, e := range v.L {
		if failing(e) {
			return true
		}
	}
	return false
}

// bindable tells whether got may be bound for v, built as g, where one parameter is expected.
func bindable(v Val, g, got any) bool {
	switch v.K {
	case "fail", "failpartial":
		return sameVal(g, got)
	case "flaky", "flakypartial":
		return sameVal(g, got) || sameVal("flaky:"+v.S, got)
	case "map":
		return got != nil && reflect.TypeOf(g) == reflect.TypeOf(got) && reflect.ValueOf(g).Pointer() == reflect.ValueOf(got).Pointer()
	}
	if isListKind(v.K) && failing(v) {
		return sameListOfFailing(g, got)
	}
	return sameVal(v.scalarOf(g), got)
}

func sameListOfFailing(g, got any) bool {
	return got != nil && reflect.TypeOf(g) == reflect.TypeOf(got) && reflect.DeepEqual(g, got)
}

// bindableList is the same where a list is expanded.
func bindableList(v Val, g any, got []any) error {
	if v.K == "nil[]string" || v.K == "nil[]int" {
		if len(got) != 0 {
			return fmt.Errorf("an empty list is bound as %s", showParams(got))
		}
		return nil
	}
	if elemKind[v.K] == nil {
		if _, array := arrayKinds[v.K]; array {
			return sameParams(v.listOfParams(g), got)
		}
		if len(got) != 1 || !bindable(v, g, got[0]) {
			return fmt.Errorf("%s is bound as %s", valText(g), showParams(got))
		}
		return nil
	}
	if len(got) != len(v.L) {
		return fmt.Errorf("list of %d is bound as %d values: %s", len(v.L), len(got), showParams(got))
	}
	rv := reflect.ValueOf(g)
	for i := range got {
		if !bindable(v.L[i], rv.Index(i).Interface(), got[i]) {
			return fmt.Errorf("element #%d (%s) is bound as %s", i+1, valText(rv.Index(i).Interface()), valText(got[i]))
		}
	}
	return nil
}

// expandable lists are given element by element by FieldValue.Values.
var expandable = []string{"[]string", "nil[]string", "[]Valuer", "[]IfaceValuer", "[]valuer", "[]valuerptr", "[]enumvaluer", "[]strarray", "[]funcvaluer", "[]fail", "[]flaky", "[]Provider"}

// unclear kinds are not promised either way by FieldValue.Values.
var unclear = []string{"tags", "[]named", "[]fieldname", "[]provider"}

func genFailing(t *rapid.T, x *ids) Val {
	k := rapid.SampledFrom(failKinds).Draw(t, "fk")
	return Val{K: k, S: genText(t, x), N: int64(rapid.IntRange(1, 255).Draw(t, "mask"))}
}

// genLongValues makes one list long: its elements repeated.
func genLongValues(t *rapid.T) *ValueCase {
	c := genValueCase(t)
	v := &c.FVs[rapid.IntRange(0, len(c.FVs)-1).Draw(t, "which")].V
	if !isListKind(v.K) || len(v.L) == 0 {
		*v = genList(t, &ids{n: 50}, 4)
	}
	if e := v.L; len(e) > 0 {
		for n := genScale(t, 1100); len(v.L) < n; {
			v.L = append(v.L, e[len(v.L)%len(e)])
		}
	}
	return c
}

func genValueCase(t *rapid.T) *ValueCase {
	x := &ids{}
	c := &ValueCase{Place: rapid.IntRange(0, 4).Draw(t, "place"), Op: rapid.IntRange(0, 4).Draw(t, "op"), Rounds: rapid.IntRange(1, 3).Draw(t, "rounds"), Copy: rapid.IntRange(0, 3).Draw(t, "copy")}
	n := 1
	if c.Place >= 3 {
		n = rapid.IntRange(1, 5).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		var v Val
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0, 1:
			v = genScalarOfKind(t, x, rapid.SampledFrom(scalarKinds).Draw(t, "k"))
		case 2:
			v = genFailing(t, x)
		case 3:
			v = genInVal(t, x)
		case 4:
			v = genList(t, x, 4)
		default: // list with failing elements
			v = Val{K: rapid.SampledFrom([]string{"[]Valuer", "[]IfaceValuer", "[]any", "[]fail", "[]flaky"}).Draw(t, "flk")}
			for j, m := 0, rapid.IntRange(1, 4).Draw(t, "m"); j < m; j++ {
				var e Val
				switch {
				case v.K == "[]fail":
					e = Val{K: "fail", S: genText(t, x)}
				case v.K == "[]flaky":
					e = Val{K: "flaky", S: genText(t, x), N: int64(rapid.IntRange(0, 255).Draw(t, "mask"))}
				case rapid.Bool().Draw(t, "bad"):
					e = genFailing(t, x)
				default:
					e = genScalarOfKind(t, x, rapid.SampledFrom(elemKind[v.K]).Draw(t, "ek"))
				}
				v.L = append(v.L, e)
			}
		}
		c.FVs = append(c.FVs, FV{F: FieldRef{N: fmt.Sprintf("c%d", i)}, V: v, Via: rapid.IntRange(0, 15).Draw(t, "via")})
	}
	return c
}

func checkValue(c *ValueCase, o *Obs) error {
	bad := false
	var gs []any
	var fvs []query.FieldValue
	for _, fv := range c.FVs {
		bad = bad || failing(fv.V)
		g := fv.V.Go()
		gs = append(gs, g)
		var q query.FieldValue
		switch fv.Via % 3 {
		case 0:
			q = *query.NewFieldValue(query.FieldName(fv.F.N), g)
		case 1:
			q = query.FieldName(fv.F.N).Value(g)
		default:
			q = query.Field(fv.F.N).Value(g)
		}
		switch c.Copy {
		case 1:
			q = q.ApplyFieldTable("tab")
		case 2:
			q = q.ApplyFieldSpec(query.Field("tab." + fv.F.N))
		}
		fvs = append(fvs, q)
		o.label("value %s", fv.V.K)
		if fv.V.K != "int" && fv.V.K != "string" {
			o.nontrivial = true
		}
	}
	o.labelIf(bad, "failing valuer")
	v, g := c.FVs[0].V, gs[0]
	f := query.FieldName(c.FVs[0].F.N)
	for round := 0; round < c.Rounds; round++ {
		var got []any
		var sql string
		var err error
		var cond query.Condition
		panicked, val := didPanic(func() {
			switch c.Place {
			case 0:
				got = fvs[0].Values()
			case 1:
				cond = []func(query.FieldName, any) query.Condition{query.EqualTo, query.GreaterThan, query.GreaterOrEqual, query.Less, query.LessOrEqual}[c.Op](f, g)
				sql, got = cond.Render(0), cond.Values()
			case 2:
				cond = query.In(f, g)
				sql, got = cond.Render(0), cond.Values()
			case 3:
				sql, got, err = query.InsertInto("t").Values(fvs...).BuildQueryAndParams()
			case 4:
				sql, got, err = query.Update("t").Set(fvs...).Where(query.EqualTo("id", "last")).BuildQueryAndParams()
			}
		})
		if panicked {
			if !bad {
				return fmt.Errorf("panic: %v", val)
			}
			o.label("failure reported by panic")
			continue
		}
		if err != nil {
			if !bad {
				return fmt.Errorf("unexpected error: %w", err)
			}
			if !errors.Is(err, query.Error) || sql != "" {
				return fmt.Errorf("failed build gives %q and error %v", sql, err)
			}
			o.label("failure reported by error")
			continue
		}
		where := []string{"Values", "comparison", "In", "INSERT", "UPDATE"}[c.Place]
		o.label("in %s", where)
		switch c.Place {
		case 0:
			switch {
			case contains(unclear, v.K):
			case contains(expandable, v.K):
				if err := bindableList(v, g, got); err != nil {
					return fmt.Errorf("%s: %w", where, err)
				}
			default:
				if len(got) != 1 || !bindable(v, g, got[0]) {
					return fmt.Errorf("%s: %s is bound as %s", where, valText(g), showParams(got))
				}
			}
		case 1:
			if len(got) != 1 || !bindable(v, g, got[0]) {
				return fmt.Errorf("%s: %s is bound as %s in %q", where, valText(g), showParams(got), sql)
			}
		case 2:
			if err := bindableList(v, g, got); err != nil {
				return fmt.Errorf("%s: %w in %q", where, err, sql)
			}
		default:
			want := len(fvs)
			if c.Place == 4 {
				want++
			}
			if len(got) != want {
				return fmt.Errorf("%s: %d values are bound as %s in %q", where, want, showParams(got), sql)
			}
			for i := range fvs {
				if !bindable(c.FVs[i].V, gs[i], got[i]) {
					return fmt.Errorf("%s: %s is bound as %s in %q", where, valText(gs[i]), valText(got[i]), sql)
				}
			}
			if c.Place == 4 && !sameVal(got[len(got)-1], "last") {
				return fmt.Errorf("the condition's value is bound as %s in %q", valText(got[len(got)-1]), sql)
			}
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C02",
		Rule: "pairs of programs that differ in values only (kinds, contents, duplicates, zero values, hostile text; list lengths kept; positive offsets and limits); non-trivial: the pair differs",
		Parts: []Part{
			&part[PairCase]{Name: "statements", Quick: 160000, Thorough: 700000, Gen: genPair, Check: checkPair},
			&part[CondPair]{Name: "conditions", Quick: 160000, Thorough: 700000, Gen: genCondPair, Check: checkCondPair},
		},
	})
	register(&Property{
		ID:     "C17",
		Rule:   "values of 50 kinds (nil, typed nil, pointers, named types, lists, valuers, providers, valuers failing always or on chosen calls) in every clause taking a value, asked for repeatedly; non-trivial: something else than a plain int or string; the scale part makes a list up to 1100 elements long",
		Assume: []string{"for slices of named strings and of concrete provider types FieldValue.Values alone is not judged (the property does not say whether they are lists of strings or providers)"},
		Parts: []Part{
			&part[ValueCase]{Name: "values", Quick: 320000, Thorough: 1200000, Gen: genValueCase, Check: checkValue},
			&part[ValueCase]{Name: "scale", Quick: 1600, Thorough: 6000, Gen: genLongValues, Check: checkValue},
		},
	})
}
