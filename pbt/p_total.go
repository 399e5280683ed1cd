package main

// C27: nothing panics on valid input, and what fails returns an error of the library.

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// wildLiterals are valid arguments out of the ordinary.
var wildLiterals = map[reflect.Type][]any{
	tString:    {"", "x", "%", "'", "\x00", "\xff", "$1", "?", strings.Repeat("long ", 500), "é"},
	tInt:       {0, 1, -1, 2, 7, 1000, math.MaxInt32, math.MinInt32, math.MaxInt64 - 5000, math.MinInt64},
	tUint:      {uint(0), uint(1), uint(2), uint(math.MaxInt64), uint(math.MaxUint64), uint(1000)},
	tBool:      {true, false},
	tFieldName: {query.FieldName("a"), query.FieldName("t1.a"), query.FieldName("b"), query.FieldName("SELECT"), query.FieldName("*"), query.FieldName("t1.*"), query.FieldName("é"), query.FieldName("\xff"), query.FieldName("%s"), query.FieldName("$1"), query.FieldName("?"), query.FieldName("NULL"), query.FieldName("f(x)"), query.FieldName(strings.Repeat("n", 300)), query.FieldName("as")},
	tTableName: {query.TableName("t1"), query.TableName("t2"), query.TableName("public.t"), query.TableName("SELECT"), query.TableName("é"), query.TableName("\xff"), query.TableName("%d"), query.TableName(strings.Repeat("n", 300))},

	typeOf[query.JoinType]():      {query.LogicalAND, query.LogicalOR},
	typeOf[query.TableJoinType](): {query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin, query.TableJoinType(-1), query.TableJoinType(99)},
	typeOf[query.Operation]():     {query.DoSelect, query.DoInsert, query.DoUpdate, query.DoDelete, query.Operation(99)},
}

// zeroTypes are the types whose zero value means something: nothing set yet. A zero field, table, join or value has no
// name, which no call accepts.
var zeroTypes = []reflect.Type{
	typeOf[query.BaseSelectBuilder](), typeOf[query.SelectManyBuilder](), typeOf[query.SelectSingleBuilder](),
	typeOf[query.InsertBuilder](), typeOf[query.UpdateBuilder](), typeOf[query.DeleteBuilder](), typeOf[query.CountBuilder](),
	typeOf[query.Group](), typeOf[query.WhereClause](), typeOf[query.Fields](), typeOf[query.Limiter](),
	typeOf[query.BaseBuilder](), typeOf[query.BaseCondition](),
}

// mayFail tells whether a value of the case may fail or panic by itself.
func mayFail(v Val) bool {
	if strings.Contains(v.K, "fail") || strings.Contains(v.K, "flaky") {
		return true
	}
	for _, e := range v.L {
		if mayFail(e) {
			return true
		}
	}
	return false
}

func genTotal(t *rapid.T) *WorldCase {
	c := &WorldCase{}
	for _, v := range append(genWorldVals(t), genWorldVals(t)...) {
		if !mayFail(v) {
			c.Vals = append(c.Vals, v)
		}
	}
	if len(c.Vals) == 0 {
		c.Vals = []Val{{K: "int", N: 1}}
	}
	g := &wgen{t: t, nvals: len(c.Vals), focus: rapid.SampledFrom(pooled).Draw(t, "focus"), wild: rapid.Bool().Draw(t, "wild")}
	if len(opsOfRecv[g.focus]) == 0 {
		g.focus = tCondition
	}
	zeros := rapid.IntRange(0, 3).Draw(t, "zeros")
	n := rapid.IntRange(3, 28).Draw(t, "n")
	for i := 0; i < n; i++ {
		if zeros > 0 && rapid.IntRange(0, n/2).Draw(t, "zero") == 0 {
			ty := rapid.SampledFrom(zeroTypes).Draw(t, "type")
			if rapid.Bool().Draw(t, "focused") && containsType(zeroTypes, g.focus) {
				ty = g.focus
			}
			g.push(WStep{Op: "zero", T: ty.String()}, ty, false)
			zeros--
			continue
		}
		g.step()
	}
	c.Steps, c.Wild = g.steps, g.wild
	return c
}

func checkTotal(c *WorldCase, o *Obs) error {
	if !knownOps(c.Steps) {
		return errSkip
	}
	w := &World{vals: buildVals(c.Vals), wild: c.Wild, strict: true}
	made, zeros := 0, 0
	for i, st := range c.Steps {
		w.run(st)
		if w.fault != nil {
			return fmt.Errorf("step #%d (%s): %w", i, st.Op, w.fault)
		}
		if w.slots[i].ok {
			made++
			o.labelIf(st.Op == "zero", "zero value")
			if st.Op == "zero" {
				zeros++
			}
		}
	}
	o.nontrivial = made >= 4
	o.labelIf(c.Wild, "odd arguments")
	o.label("zero values %s", bucket(zeros))
	return nil
}

// mayPanic tells whether the arguments are invalid for the operation.
func mayPanic(o *wop, args []reflect.Value) bool {
	if o.name == "TableJoinType.By" {
		return args[2].Interface().(query.FieldDefinition).TableName() == ""
	}
	if jc, ok := args[0].Interface().(query.JoinCondition); ok {
		// joins the table of the right field, so it needs one
		_, right, _ := strings.Cut(jc.Render(), "=")
		return !strings.Contains(right, ".") || strings.HasPrefix(right, ".")
	}
	return false
}

// checkError judges an error a call returned.
func checkError(err error) error {
	if err != nil && !errors.Is(err, query.Error) {
		return fmt.Errorf("the error is not the library's: %v", err)
	}
	return nil
}

// checkProgram runs a program with odd names and looks at everything it gives.
func checkProgram(c *RenameCase, o *Obs) error {
	odd, n := c.renamed(c.oddName)
	o.nontrivial = n >= 1
	o.labelIf(c.S != nil, "statement")
	o.labelIf(c.C != nil, "condition")
	for i, out := range odd.say().outs {
		if strings.HasSuffix(out.err, "false") {
			return fmt.Errorf("result #%d is not an error of the library", i+1)
		}
	}
	counts := []int{-1, 9, 1 << 31, math.MaxInt64 - 1<<20}
	if odd.C != nil {
		b := (&condBuilder{}).build(odd.C)
		for _, n := range counts {
			b.C.Render(n)
		}
	}
	if odd.S != nil && odd.S.Sel != nil {
		st := runSel(odd.S.Sel, &condBuilder{})
		for _, n := range counts {
			st.renderAt(n)
		}
	}
	return nil
}

// leafFields collects the fields of a condition program.
func (c *Cond) leafFields() (fs []FieldRef) {
	if c.F != nil {
		fs = append(fs, *c.F)
	}
	for _, k := range c.Kids {
		fs = append(fs, k.leafFields()...)
	}
	return fs
}

// checkConditionCalls makes every sequence of two calls on a condition, puts each result into a WHERE clause and into
// statements, and looks at everything.
func checkConditionCalls(c *CondCase, o *Obs) error {
	leaves, ops := c.C.count()
	o.nontrivial = leaves >= 1 && ops >= 1
	o.label("leaves %s", bucket(leaves))
	o.label("root %s", c.C.Op)
	build := func() query.Condition { return (&condBuilder{}).build(c.C).C }
	fs := append(c.C.leafFields(), FieldRef{N: "other"})
	specs := []query.FieldDefinition{query.Field("other").Of("o").As("oo")}
	for i, f := range []FieldRef{fs[0], fs[len(fs)/2]} {
		d := query.Field(query.FieldName(f.N))
		if i == 0 {
			d = d.Of("o").As("oo")
		}
		specs = append(specs, d)
	}
	other := query.EqualTo("other", 1)
	calls := []func(query.Condition) query.Condition{
		func(x query.Condition) query.Condition { return x },
		func(x query.Condition) query.Condition { return query.Not(x) },
		func(x query.Condition) query.Condition { return x.Negate(false) },
		func(x query.Condition) query.Condition { return x.Join(query.LogicalOR) },
		func(x query.Condition) query.Condition { return query.LogicalAND.Join(x) },
		func(x query.Condition) query.Condition { return query.NewGroup(query.LogicalOR, x) },
		func(x query.Condition) query.Condition {
			return query.NewGroup(query.LogicalAND, x, other).WithBrackets()
		},
		func(x query.Condition) query.Condition { return query.And(x, other, query.Not(build())) },
		func(x query.Condition) query.Condition { return query.Or(other, x) },
		func(x query.Condition) query.Condition {
			for _, s := range specs {
				x = x.ApplyFieldSpec(s)
			}
			return x
		},
		func(x query.Condition) query.Condition { return x.ApplyFieldTable("tt") },
	}
	look := func(x query.Condition) {
		x.Render(0)
		x.Render(99)
		x.RenderSQL()
		x.Values()
		x.JoinType()
		x.IsNegate()
		x.RenderJoin(true)
		x.RenderJoin(false)
		x.RenderNegate()
	}
	clause := func(w query.WhereClause) error {
		for _, s := range specs {
			w = w.ApplyFieldSpec(s)
		}
		w.Render(1)
		w.RenderSQL()
		w.Values()
		again := query.NewWhere().GroupOR(w.Conditions()...).GroupAND(other)
		again.Render(0)
		for _, q := range []interface {
			BuildQueryAndParams() (string, []any, error)
		}{
			query.SelectFrom("t").Where(w.Conditions()...).Count(),
			query.SelectManyFrom("t").Where(w.Conditions()...).Where(other).Update(query.FieldName("v").Value(1)),
			query.SelectSingleFrom("t").Where(w.Conditions()...).Delete(),
		} {
			if _, _, err := q.BuildQueryAndParams(); checkError(err) != nil {
				return checkError(err)
			}
		}
		return nil
	}
	for _, first := range calls {
		for _, second := range calls {
			x := second(first(build()))
			look(x)
		}
		x := first(build())
		for _, w := range []query.WhereClause{
			query.NewWhere().GroupAND(x), query.NewWhere().GroupOR(x), query.NewWhere().GroupAND(other).GroupOR(x),
			query.NewWhere().GroupOR(x, other).GroupAND(x),
		} {
			if err := clause(w); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkLongPanic(c *LongList, o *Obs) error {
	b := (&condBuilder{}).build(c.C)
	n := len(b.C.Values())
	o.nontrivial = n >= 2
	o.label("elements %s", bucket(n))
	for _, q := range []interface {
		BuildQueryAndParams() (string, []any, error)
	}{query.SelectFrom("t").Where(b.C), query.Delete("t").Where(b.C), query.Count(query.SelectFrom("t").Where(b.C))} {
		if _, _, err := q.BuildQueryAndParams(); err != nil {
			return fmt.Errorf("a valid statement fails: %w", err)
		}
	}
	b.C.Render(1 << 40)
	b.C.RenderSQL()
	return nil
}

func init() {
	register(&Property{
		ID:   "C27",
		Rule: "histories of calls of every exported method and constructor on a pool of objects, zero values of the exported structure types included, with valid arguments, odd ones among them; everything made is rendered; programs with odd names; every two calls in a row on generated conditions; long lists; non-trivial: at least four objects made, or a name or two list elements" + scaleRule,
		Parts: []Part{
			&part[WorldCase]{Name: "histories", Quick: 120000, Thorough: 600000, Gen: genTotal, Check: checkTotal},
			&part[RenameCase]{Name: "programs", Quick: 60000, Thorough: 500000, Gen: genRename, Check: checkProgram},
			&part[CondCase]{Name: "conditions", Quick: 2000, Thorough: 20000, Gen: genCondCase(4, condOpts{custom: true, simple: true}), Check: checkConditionCalls},
			&part[RenameCase]{Name: "scale", Quick: 1000, Thorough: 6000, Gen: genBigRename, Check: checkProgram},
			&part[LongList]{Name: "long-lists", Quick: 400, Thorough: 2000, Gen: genLongList, Check: checkLongPanic},
		},
	})
}
