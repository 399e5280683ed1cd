package main

// Properties of built statements: C01, C07, C08, C09, C10, C11, C12, C20, C21, C23.

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// mapDollars replaces every placeholder $N; a dollar sign inside of a name is no placeholder.
func mapDollars(sql string, f func(n int) string) string {
	var b strings.Builder
	rs := []rune(sql)
	for i := 0; i < len(rs); i++ {
		j := i + 1
		if rs[i] == '\'' { // a literal of a custom condition
			for j < len(rs) && rs[j] != '\'' {
				j++
			}
			j = min(j, len(rs)-1)
			b.WriteString(string(rs[i : j+1]))
			i = j
			continue
		}
		for rs[i] == '$' && j < len(rs) && rs[j] >= '0' && rs[j] <= '9' {
			j++
		}
		if rs[i] == '$' && j > i+1 && !inName(rs[:i]) {
			n, err := strconv.Atoi(string(rs[i+1 : j]))
			if err != nil {
				n = -1
			}
			b.WriteString(f(n))
			i = j - 1
			continue
		}
		b.WriteRune(rs[i])
	}
	return b.String()
}

// withoutLiterals drops the text between quotes.
func withoutLiterals(sql string) string {
	var b strings.Builder
	for i, s := range strings.Split(sql, "'") {
		if i%2 == 0 {
			b.WriteString(s)
		}
	}
	return b.String()
}

// inName says whether text ends inside of a name, not of a placeholder.
func inName(rs []rune) bool {
	i := len(rs)
	for i > 0 && (isWordRune(rs[i-1]) || rs[i-1] == '$') {
		i--
	}
	return i < len(rs) && rs[i] != '$'
}

func dollars(sql string) (ns []int) {
	mapDollars(sql, func(n int) string { ns = append(ns, n); return "" })
	return ns
}

func atomList(f *Formula) []string {
	m := map[string]int{}
	atomsOf(f, m)
	var res []string
	for a, n := range m {
		for i := 0; i < n; i++ {
			res = append(res, a)
		}
	}
	sort.Strings(res)
	return res
}

// sameAtoms compares predicates (operator, field and bound values) regardless of how they are combined.
func sameAtoms(want, got *Formula) error {
	a, b := atomList(want), atomList(got)
	if len(a) != len(b) {
		return fmt.Errorf("predicates expected %v, got %v", a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("predicates with bound values expected %v, got %v", a, b)
		}
	}
	return nil
}

// checkPlaceholders is C01 for one built statement.
func checkPlaceholders(sql string, params []any, err error, e *Expect) error {
	if err != nil {
		return nil // the property is about statements built without error
	}
	ns := dollars(sql)
	if len(ns) != len(params) {
		return fmt.Errorf("%d placeholders, %d parameters: %q with %s", len(ns), len(params), sql, showParams(params))
	}
	for i, n := range ns {
		if n != i+1 {
			return fmt.Errorf("placeholder #%d is $%d in %q", i+1, n, sql)
		}
	}
	st, perr := ParseStmt(sql)
	if perr != nil { // another property's concern; parameters still have to be the supplied values
		want := append(append([]any{}, e.ColVals...), e.WhereVals...)
		if len(params) < len(want) {
			return wrapSQL(sameParams(want, params), sql, params)
		}
		return wrapSQL(sameParams(want, params[:len(want)]), sql, params)
	}
	if len(st.Vals) == len(e.ColVals) {
		for i := range st.Vals {
			if got := params[st.Vals[i].Pos]; !sameVal(got, e.ColVals[i]) {
				return wrapSQL(fmt.Errorf("column %s is bound to %s, expected %s", st.Columns[i], valText(got), valText(e.ColVals[i])), sql, params)
			}
		}
	} else {
		return wrapSQL(fmt.Errorf("%d values for columns, expected %d", len(st.Vals), len(e.ColVals)), sql, params)
	}
	if err := sameAtoms(e.Where, exprFormula(st.Where, params)); err != nil {
		return wrapSQL(err, sql, params)
	}
	if e.Kind == "SELECT" && e.Count == "" {
		return wrapSQL(checkPage(st, params, e), sql, params)
	}
	return nil
}

type StmtCase struct {
	Sel     *SelProg `json:"sel,omitempty"`
	Mod     *ModProg `json:"mod,omitempty"`
	Count   bool     `json:"count,omitempty"`
	CountOf string   `json:"count_of,omitempty"`
}

func (c *StmtCase) stats(o *Obs) (leaves, calls int) {
	var sel func(p *SelProg)
	sel = func(p *SelProg) {
		if p == nil {
			return
		}
		l, _ := countConds(p.First)
		leaves += l
		for _, op := range p.Ops {
			l, _ := countConds(op.Cs)
			leaves += l
			calls++
			o.label("call " + op.Op)
		}
		if p.Join != nil {
			calls++
			o.label("entry through join")
		}
	}
	sel(c.Sel)
	if c.Mod != nil {
		o.label("kind " + c.Mod.Kind)
		sel(c.Mod.Sel)
		o.labelIf(c.Mod.Sel != nil, "derived from select")
		l, _ := countConds(c.Mod.First.Cs)
		leaves += l + len(c.Mod.First.FVs)
		for _, op := range c.Mod.Ops {
			l, _ := countConds(op.Cs)
			leaves += l + len(op.FVs)
			calls++
		}
	}
	return
}

func genStmtCase(t *rapid.T, o condOpts, sel, mod bool) *StmtCase {
	x := &ids{}
	c := &StmtCase{}
	kind := rapid.IntRange(0, 9).Draw(t, "stmt")
	if sel && (!mod || kind < 5) {
		c.Sel = genSelProg(t, x, 6, 6, o)
		if kind == 0 {
			c.Count = true
			if rapid.Bool().Draw(t, "cf") {
				f := genFieldRef(t, nil)
				f.A = ""
				c.CountOf = f.qualified()
			}
		}
		return c
	}
	c.Mod = genModProg(t, x, rapid.SampledFrom([]string{"INSERT", "UPDATE", "UPDATE", "DELETE"}).Draw(t, "kind"), 4, 6, o, true)
	return c
}

// run builds the statement; mustFail is set when an error is required.
func (c *StmtCase) run() (sql string, params []any, err error, e *Expect, mustFail bool, herr error) {
	cb := &condBuilder{}
	if c.Mod != nil {
		m := runMod(c.Mod, cb)
		sql, params, err = m.build()
		return sql, params, err, m.expect(), m.mustFail(), cb.err
	}
	s := runSel(c.Sel, cb)
	e = s.expect()
	if c.Count {
		var f []query.FieldName
		e.Count = "*"
		if c.CountOf != "" {
			f = append(f, query.FieldName(c.CountOf))
			e.Count = c.CountOf
		}
		e.Items, e.Order, e.Offset, e.Limit, e.Single = nil, nil, 0, 0, false
		sql, params, err = s.count(f...).BuildQueryAndParams()
		return sql, params, err, e, false, cb.err
	}
	sql, params, err = s.build()
	return sql, params, err, e, false, cb.err
}

func init() {
	register(&Property{
		ID:     "C01",
		Rule:   "random builder programs (select of all kinds, count, insert, update, delete; derived ones too) with unique values of many Go types, lists and custom conditions; non-trivial: built without error with at least two bound values" + scaleRule,
		Assume: []string{"names are identifiers, not reserved SQL words"},
		Parts: []Part{&part[StmtCase]{Name: "statements", Quick: 240000, Thorough: 1500000,
			Gen:   func(t *rapid.T) *StmtCase { return genStmtCase(t, condOpts{custom: true}, true, true) },
			Check: checkC01},
			&part[StmtCase]{Name: "conditions", Quick: 60000, Thorough: 500000,
				Gen: func(t *rapid.T) *StmtCase {
					return &StmtCase{Sel: &SelProg{Table: TabSpec{N: "t"}, Ops: []SelOp{{Op: "where", Cs: genConds(t, &ids{}, genSize(t, 14), 1, condOpts{simple: true, custom: true})}, {Op: "limit", N: 7}}}}
				},
				Check: checkC01},
			&part[StmtCase]{Name: "scale", Quick: 1000, Thorough: 3000,
				Gen:   growStmtCase(condOpts{custom: true}, "SELECT", "SELECT", "COUNT", "INSERT", "UPDATE", "DELETE"),
				Check: checkC01},
		},
	})

	register(&Property{
		ID:   "C07",
		Rule: "random sequences of select builder calls and conversions from every entry point, with conditions; non-trivial: at least two calls" + scaleRule,
		Parts: []Part{&part[StmtCase]{Name: "select", Quick: 240000, Thorough: 1200000,
			Gen: func(t *rapid.T) *StmtCase {
				return &StmtCase{Sel: genSelProg(t, &ids{}, 8, 4, condOpts{simple: true})}
			},
			Check: checkC07},
			&part[StmtCase]{Name: "scale", Quick: 800, Thorough: 3000, Gen: growStmtCase(condOpts{simple: true}, "SELECT"), Check: checkC07}},
	})

	register(&Property{
		ID:   "C08",
		Rule: "random join-heavy select programs over every way of expressing a join, plus stand-alone joiners; non-trivial: at least one join; the scale part has up to 130 joins",
		Parts: []Part{
			&part[StmtCase]{Name: "select", Quick: 160000, Thorough: 800000,
				Gen: func(t *rapid.T) *StmtCase {
					p := &SelProg{Table: genTab(t), Entry: rapid.IntRange(0, nEntries-1).Draw(t, "entry")}
					if p.Entry >= 15 {
						j := genJoinOp(t)
						p.Join = &j
					}
					n := rapid.IntRange(1, 8).Draw(t, "nops")
					x := &ids{}
					for i := 0; i < n; i++ {
						p.Ops = append(p.Ops, genSelOp(t, x, 2, condOpts{simple: true}, []string{"join", "join", "join", "join", "fields", "where", "order", "offset", "single", "many", "tobase"}))
					}
					return &StmtCase{Sel: p}
				},
				Check: checkJoins},
			&part[StmtCase]{Name: "scale", Quick: 1000, Thorough: 3000,
				Gen: func(t *rapid.T) *StmtCase {
					x := &ids{n: 100}
					p := genSelProg(t, x, 3, 2, condOpts{simple: true})
					return &StmtCase{Sel: growPart(t, x, p, genRep(t), condOpts{simple: true}, "joins")}
				}, Check: checkJoins},
			&part[JoinerCase]{Name: "joiner", Quick: 80000, Thorough: 200000, Gen: genJoiner, Check: checkJoiner},
		},
	})

	register(&Property{
		ID:   "C09",
		Rule: "random insert programs (from every entry point and from selects) with values of many kinds; non-trivial: at least two fields" + scaleRule,
		Parts: []Part{&part[StmtCase]{Name: "insert", Quick: 240000, Thorough: 1200000,
			Gen: func(t *rapid.T) *StmtCase {
				p := genModProg(t, &ids{}, "INSERT", 4, 2, condOpts{simple: true}, true)
				blankTable(t, p)
				return &StmtCase{Mod: p}
			},
			Check: checkModCase},
			&part[StmtCase]{Name: "scale", Quick: 800, Thorough: 3000, Gen: growStmtCase(condOpts{simple: true}, "INSERT"), Check: checkModCase}},
	})

	register(&Property{
		ID:   "C10",
		Rule: "random update and delete programs with interleaved Set and Where calls, also derived from selects; non-trivial: a condition and, for update, two fields" + scaleRule,
		Parts: []Part{&part[StmtCase]{Name: "update-delete", Quick: 240000, Thorough: 1200000,
			Gen: func(t *rapid.T) *StmtCase {
				p := genModProg(t, &ids{}, rapid.SampledFrom([]string{"UPDATE", "UPDATE", "DELETE"}).Draw(t, "kind"), 5, 4, condOpts{}, true)
				blankTable(t, p)
				return &StmtCase{Mod: p}
			},
			Check: checkModCase},
			&part[StmtCase]{Name: "scale", Quick: 800, Thorough: 3000, Gen: growStmtCase(condOpts{simple: true}, "UPDATE", "DELETE"), Check: checkModCase}},
	})

	register(&Property{
		ID:   "C11",
		Rule: "random update and delete programs where most have no effective condition: no Where, Where() and nested empty groups, zero-value builders, derived from selects; non-trivial: an error is required although some clause call was made, or a condition is present",
		Parts: []Part{&part[EmptyCase]{Name: "unfiltered", Quick: 240000, Thorough: 1200000,
			Gen: genEmptyCase, Check: checkEmptyCase}},
	})

	register(&Property{
		ID:   "C12",
		Rule: "random select programs and the statements derived from them; non-trivial: the select has a condition" + scaleRule,
		Parts: []Part{&part[DeriveCase]{Name: "derived", Quick: 160000, Thorough: 800000,
			Gen: func(t *rapid.T) *DeriveCase {
				x := &ids{}
				c := &DeriveCase{P: genSelProg(t, x, 6, 5, condOpts{custom: true}), FVs: genFVs(t, x, 3)}
				if rapid.Bool().Draw(t, "cf") {
					f := genFieldRef(t, nil)
					f.A = ""
					c.CountOf = f.qualified()
				}
				return c
			},
			Check: checkDerived},
			&part[DeriveCase]{Name: "scale", Quick: 600, Thorough: 2000,
				Gen: func(t *rapid.T) *DeriveCase {
					x := &ids{n: 100}
					return &DeriveCase{P: growSelProg(t, x, condOpts{custom: true}), FVs: growFVs(x, 2, genRep(t))}
				},
				Check: checkDerived}},
	})

	register(&Property{
		ID:   "C20",
		Rule: "random builder programs and conditions, each built repeatedly, rebuilt from scratch, interleaved with other renderings, and with independent calls permuted; batches of up to 40 similar programs are executed in two fresh processes, forwards and backwards, and compared program by program; repeated in one process, everything returned earlier is compared at the end; statements are built again, and from scratch, after a method of a condition or value given to the library ended a build by a panic; non-trivial: at least two calls, a compound condition, or several programs",
		Parts: []Part{
			&part[StmtCase]{Name: "repeat", Quick: 70000, Thorough: 500000,
				Gen: func(t *rapid.T) *StmtCase { return genStmtCase(t, condOpts{custom: true}, true, true) }, Check: checkRepeat},
			&part[CondCase]{Name: "repeat-condition", Quick: 70000, Thorough: 400000,
				Gen: func(t *rapid.T) *CondCase {
					return &CondCase{C: genCond(t, &ids{}, genSize(t, 8), condOpts{custom: true})}
				}, Check: checkRepeatCond},
			&part[PermCase]{Name: "permute", Quick: 100000, Thorough: 500000, Gen: genPerm, Check: checkPerm},
			&part[MapCase]{Name: "values-map", Quick: 16000, Thorough: 50000, Gen: genMapCase, Check: checkMapRepeat},
			&part[StmtCase]{Name: "scale", Quick: 800, Thorough: 3000, Gen: growStmtCase(condOpts{}, "SELECT", "SELECT", "COUNT", "INSERT", "UPDATE", "UPDATE", "DELETE"), Check: checkRepeat},
			&part[CondCase]{Name: "scale-conditions", Quick: 600, Thorough: 2000, Gen: growCondCase(condOpts{}), Check: checkRepeatCond},
			&part[BatchCase]{Name: "batch", Quick: 250, Thorough: 6000, Gen: genBatch(40), Check: checkBatch},
			&part[BatchCase]{Name: "batch-repeated", Quick: 800, Thorough: 10000, Gen: genBatch(12), Check: checkRetained},
			&part[InterruptCase]{Name: "interrupted", Quick: 5000, Thorough: 60000, Gen: genInterrupt, Check: checkInterrupted},
		},
	})

	register(&Property{
		ID:   "C21",
		Rule: "random select programs with many offset, limit and conversion calls, and limiters; non-trivial: a positive offset or limit was set at some time",
		Parts: []Part{
			&part[StmtCase]{Name: "select", Quick: 200000, Thorough: 800000,
				Gen: func(t *rapid.T) *StmtCase {
					p := &SelProg{Table: genTab(t), Entry: rapid.IntRange(0, nEntries-1).Draw(t, "entry")}
					n := rapid.IntRange(1, 8).Draw(t, "nops")
					x := &ids{}
					opts := condOpts{simple: true}
					if rapid.IntRange(0, 2).Draw(t, "custom") == 0 {
						opts = condOpts{custom: true}
					}
					for i := 0; i < n; i++ {
						p.Ops = append(p.Ops, genSelOp(t, x, 2, opts, []string{"offset", "offset", "offset", "limit", "limit", "limit", "where", "order", "fields", "join", "single", "many", "tobase"}))
					}
					return &StmtCase{Sel: p}
				}, Check: checkPagination},
			&part[LimiterCase]{Name: "limiter", Quick: 120000, Thorough: 300000, Gen: genLimiter, Check: checkLimiter},
		},
	})

	register(&Property{
		ID:   "C23",
		Rule: "random builder programs and conditions of every kind, empty clauses and groups included, parsed by an independent SQL parser; non-trivial: something was built without error from at least two calls or conditions" + scaleRule,
		Parts: []Part{
			&part[StmtCase]{Name: "statements", Quick: 240000, Thorough: 1200000,
				Gen: func(t *rapid.T) *StmtCase {
					c := genStmtCase(t, condOpts{custom: true}, true, true)
					if c.Mod != nil {
						blankTable(t, c.Mod)
					}
					return c
				},
				Check: checkC23},
			&part[StmtCase]{Name: "scale", Quick: 1000, Thorough: 3000, Gen: growStmtCase(condOpts{custom: true}, "SELECT", "SELECT", "COUNT", "INSERT", "UPDATE", "DELETE"), Check: checkC23},
			&part[CondCase]{Name: "scale-conditions", Quick: 1000, Thorough: 3000, Gen: growCondCase(condOpts{custom: true}), Check: checkC23Cond},
			&part[CondCase]{Name: "conditions", Quick: 160000, Thorough: 800000,
				Gen: func(t *rapid.T) *CondCase {
					return &CondCase{C: genCond(t, &ids{}, genSize(t, 12), condOpts{custom: true})}
				},
				Check: checkC23Cond},
		},
	})
}

func checkC01(c *StmtCase, o *Obs) error {
	c.stats(o)
	sql, params, err, e, fail, _ := c.run()
	if fail {
		o.label("build must fail")
		return nil
	}
	o.nontrivial = err == nil && len(params) >= 2
	o.label("params %s", bucket(len(params)))
	return shortErr(checkPlaceholders(sql, params, err, e))
}

func checkC07(c *StmtCase, o *Obs) error {
	_, calls := c.stats(o)
	o.nontrivial = calls >= 2
	cb := &condBuilder{}
	s := runSel(c.Sel, cb)
	o.label("final " + s.kind)
	sql, params, err := s.build()
	if err := checkBuilt(sql, params, err, s.expect(), aspects{shape: true, where: true, page: true}); err != nil {
		return shortErr(err)
	}
	return checkSelAccessors(s)
}

func checkC23(c *StmtCase, o *Obs) error {
	leaves, calls := c.stats(o)
	sql, _, err, e, _, _ := c.run()
	if err != nil {
		o.label("error")
		return checkFailed(sql, err)
	}
	o.nontrivial = leaves+calls >= 2
	st, perr := ParseStmt(sql)
	if perr != nil {
		return shortErr(perr)
	}
	if st.Kind != e.Kind {
		return fmt.Errorf("%q is not a %s statement", sql, e.Kind)
	}
	for _, col := range st.Columns {
		if strings.Contains(col, ".") {
			return fmt.Errorf("column %q to be written is qualified, which no database accepts: %q", col, sql)
		}
	}
	return nil
}

func checkC23Cond(c *CondCase, o *Obs) error {
	leaves, ops := c.C.count()
	o.nontrivial = leaves >= 2 && ops >= 1
	b := (&condBuilder{}).build(c.C)
	for _, sql := range []string{b.C.Render(0), b.C.Render(7), b.C.RenderSQL()} {
		if sql == "" && b.base == nil {
			o.label("empty")
			continue
		}
		if _, _, err := ParseExpr(sql); err != nil {
			return shortErr(err)
		}
	}
	return nil
}

func bucket(n int) string {
	switch {
	case n < 4:
		return strconv.Itoa(n)
	case n < 10:
		return "4-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

func checkSelAccessors(s *selState) error {
	var tn query.TableName
	var op query.Operation
	var defs []query.FieldDefinition
	list := ""
	switch s.kind {
	case "base":
		tn, op, defs = s.base.TableName(), s.base.Operation(), s.base.FieldDefinitions()
	case "single":
		tn, op, defs, list = s.single.TableName(), s.single.Operation(), s.single.FieldDefinitions(), s.single.FieldList()
	case "many":
		tn, op, defs, list = s.many.TableName(), s.many.Operation(), s.many.FieldDefinitions(), s.many.FieldList()
	}
	if string(tn) != s.table.N {
		return fmt.Errorf("TableName() is %q, expected %q", tn, s.table.N)
	}
	if op != query.DoSelect {
		return fmt.Errorf("Operation() is %v", op)
	}
	if len(defs) != len(s.fields) {
		return fmt.Errorf("FieldDefinitions() has %d fields, expected %d", len(defs), len(s.fields))
	}
	var specs []string
	for i, f := range s.fields {
		if string(defs[i].FieldName()) != f.N || string(defs[i].TableName()) != f.T {
			return fmt.Errorf("FieldDefinitions()[%d] is %q of %q, expected %+v", i, defs[i].FieldName(), defs[i].TableName(), f)
		}
		specs = append(specs, defs[i].RenderSpec())
	}
	if s.kind != "base" {
		want := strings.Join(specs, ", ")
		if len(specs) == 0 {
			want = "*"
		}
		if list != want {
			return fmt.Errorf("FieldList() is %q, expected %q", list, want)
		}
	}
	return nil
}

// Joiners.

type JoinerCase struct {
	L   FieldRef `json:"l"`
	R   FieldRef `json:"r"`
	JT  int      `json:"jt"`
	Tab *TabSpec `json:"tab,omitempty"` // aliased right table, with NewTableJoiner only
	Via int      `json:"via"`
}

func genJoiner(t *rapid.T) *JoinerCase {
	c := &JoinerCase{L: genFieldRef(t, nil), R: genFieldRef(t, nil), JT: rapid.IntRange(0, 3).Draw(t, "jt"), Via: rapid.IntRange(0, 99).Draw(t, "via")}
	c.L.T, c.R.T = genQual(t, "jl"), genQual(t, "jr")
	if rapid.Bool().Draw(t, "newjoiner") {
		tab := genTab(t)
		c.Tab = &tab
	}
	return c
}

func checkJoiner(c *JoinerCase, o *Obs) error {
	o.nontrivial = true
	l, r := c.L.def(c.Via), c.R.def(c.Via/4)
	jt := joinTypes[c.JT%4]
	cond := query.JoinFields(l, r)
	var j query.TableJoiner
	want := JoinRef{Type: joinNames[c.JT%4], Table: TabRef{Name: c.R.T}, Left: c.L.T + "." + c.L.N, Right: c.R.T + "." + c.R.N}
	right := query.Table(query.TableName(c.R.T))
	if c.Tab != nil {
		right = c.Tab.ident()
		want.Table = c.Tab.ref()
		j = query.NewTableJoiner(right, jt, cond)
		if c.Via%2 == 1 { // replaced join condition
			j = query.NewTableJoiner(right, jt, query.JoinFields(r, l)).By(l, r)
		}
	} else {
		switch (c.Via / 16) % 4 {
		case 0:
			j = cond.Using(jt)
		case 1:
			j = jt.By(l, r)
		case 2:
			j = query.NewTableJoiner(right, jt, cond)
		default:
			switch jt {
			case query.InnerJoin:
				j = cond.InnerJoin()
			case query.LeftJoin:
				j = cond.LeftJoin()
			case query.RightJoin:
				j = cond.RightJoin()
			default:
				j = cond.FullJoin()
			}
		}
	}
	txt := j.RenderFrom()
	got, err := ParseJoin(txt)
	if err != nil {
		return err
	}
	if got != want {
		return fmt.Errorf("joiner renders %q = %+v, expected %+v", txt, got, want)
	}
	if j.JoinType() != jt {
		return fmt.Errorf("JoinType() is %v, expected %v", j.JoinType(), jt)
	}
	if s := j.JoinCondition().Render(); s != cond.Render() || s != want.Left+"="+want.Right {
		return fmt.Errorf("JoinCondition() renders %q, expected %q", s, want.Left+"="+want.Right)
	}
	sql, _, err := query.SelectFrom("base_table").Join(right, jt).On(l, r).BuildQueryAndParams()
	if err != nil || sql != "SELECT * FROM base_table "+txt {
		return fmt.Errorf("select uses another join clause: %q, joiner renders %q", sql, txt)
	}
	return nil
}

// INSERT, UPDATE, DELETE.

// blankTable sometimes removes the table name, which is documented to fail.
func blankTable(t *rapid.T, p *ModProg) {
	if p.Sel == nil && rapid.IntRange(0, 19).Draw(t, "blank") == 0 {
		p.Table = TabSpec{}
		p.Entry = rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "bentry")
	}
}

func checkModCase(c *StmtCase, o *Obs) error {
	c.stats(o)
	cb := &condBuilder{}
	m := runMod(c.Mod, cb)
	sql, params, err := m.build()
	if err := checkModAccessors(m); err != nil {
		return err
	}
	if m.mustFail() {
		o.label("build must fail")
		if m.table == "" {
			o.label("no table name")
		}
		return checkFailed(sql, err)
	}
	o.nontrivial = len(m.cols) >= 2 || (m.kind == "DELETE" && m.where.base != nil)
	o.label("columns %s", bucket(len(m.cols)))
	return checkBuilt(sql, params, err, m.expect(), aspects{shape: true, where: true, params: true})
}

func checkModAccessors(m *modState) error {
	var tn query.TableName
	var op, wantOp query.Operation
	var from string
	var sets []query.FieldValue
	switch m.kind {
	case "INSERT":
		tn, op, wantOp, from, sets = m.ins.TableName(), m.ins.Operation(), query.DoInsert, m.ins.RenderFrom(), m.ins.SetValues()
	case "UPDATE":
		tn, op, wantOp, from, sets = m.upd.TableName(), m.upd.Operation(), query.DoUpdate, m.upd.RenderFrom(), m.upd.SetValues()
	default:
		tn, op, wantOp, from = m.del.TableName(), m.del.Operation(), query.DoDelete, m.del.RenderFrom()
	}
	if string(tn) != m.table || from != m.table {
		return fmt.Errorf("TableName() is %q, RenderFrom() %q, expected %q", tn, from, m.table)
	}
	if op != wantOp {
		return fmt.Errorf("Operation() is %v, expected %v", op, wantOp)
	}
	if m.kind == "DELETE" {
		return nil
	}
	if len(sets) != len(m.fvs) {
		return fmt.Errorf("SetValues() has %d values, expected %d", len(sets), len(m.fvs))
	}
	for i := range sets {
		if sets[i].FieldName() != m.fvs[i].FieldName() || string(sets[i].FieldName()) != m.cols[i] {
			return fmt.Errorf("SetValues()[%d] is %q, expected %q", i, sets[i].FieldName(), m.cols[i])
		}
		if err := sameParams(m.fvs[i].Values(), sets[i].Values()); err != nil {
			return fmt.Errorf("SetValues()[%d]: %w", i, err)
		}
	}
	return nil
}

// C11.

type EmptyCase struct {
	Mod  *ModProg `json:"mod"`
	Zero bool     `json:"zero,omitempty"` // start with a zero value builder
}

// genEmptyCond draws a condition without content.
func genEmptyCond(t *rapid.T, depth int) *Cond {
	if depth <= 0 {
		return &Cond{Op: "group", J: genJoin(t)}
	}
	kids := func(min, max int) (ks []*Cond) {
		n := rapid.IntRange(min, max).Draw(t, "ek")
		for i := 0; i < n; i++ {
			ks = append(ks, genEmptyCond(t, depth-1))
		}
		return
	}
	switch op := rapid.SampledFrom([]string{"group", "group", "jtjoin", "mand", "mor", "fand", "for", "join", "brackets", "rawnot"}).Draw(t, "eop"); op {
	case "group":
		return &Cond{Op: op, J: genJoin(t), Kids: kids(0, 3)}
	case "jtjoin":
		return &Cond{Op: op, J: genJoin(t), Kids: kids(0, 3)}
	case "join":
		return &Cond{Op: op, J: genJoin(t), B: rapid.Bool().Draw(t, "jb"), Kids: kids(1, 1)}
	case "brackets", "rawnot":
		return &Cond{Op: op, Kids: kids(1, 1)}
	default:
		return &Cond{Op: op, B: rapid.Bool().Draw(t, "gb"), Kids: kids(1, 3)}
	}
}

func genEmptyCase(t *rapid.T) *EmptyCase {
	x := &ids{}
	c := &EmptyCase{Zero: rapid.IntRange(0, 9).Draw(t, "zero") == 0}
	full := rapid.IntRange(0, 3).Draw(t, "full") == 0
	conds := func() (cs []*Cond) {
		n := rapid.IntRange(0, 3).Draw(t, "nc")
		for i := 0; i < n; i++ {
			if full && rapid.Bool().Draw(t, "real") {
				cs = append(cs, genCond(t, x, genSize(t, 4), condOpts{custom: true}))
			} else {
				cs = append(cs, genEmptyCond(t, rapid.IntRange(0, 3).Draw(t, "ed")))
			}
		}
		return cs
	}
	p := genModProg(t, x, rapid.SampledFrom([]string{"UPDATE", "DELETE"}).Draw(t, "kind"), 0, 2, condOpts{simple: true}, false)
	p.First.Cs = nil
	if p.Kind == "DELETE" && p.Entry >= 3 {
		p.First.Cs = conds()
	}
	if rapid.IntRange(0, 2).Draw(t, "fromsel") == 0 {
		s := genSelProg(t, x, 4, 2, condOpts{simple: true})
		s.First = nil
		for i := range s.Ops {
			if s.Ops[i].Op == "where" {
				s.Ops[i].Cs = conds()
			}
		}
		switch s.Entry % nEntries {
		case 3, 4, 7, 8, 12, 13:
			s.First = conds()
		}
		p.Sel = s
	}
	n := rapid.IntRange(0, 4).Draw(t, "nops")
	for i := 0; i < n; i++ {
		if p.Kind == "UPDATE" && rapid.Bool().Draw(t, "set") {
			p.Ops = append(p.Ops, ModOp{Op: "set", FVs: genFVs(t, x, 3)})
		} else {
			p.Ops = append(p.Ops, ModOp{Op: "where", Cs: conds()})
		}
	}
	blankTable(t, p)
	c.Mod = p
	if c.Zero {
		p.Sel, p.First, p.Table, p.Entry = nil, ModOp{}, TabSpec{}, 0
	}
	return c
}

func checkEmptyCase(c *EmptyCase, o *Obs) error {
	cb := &condBuilder{}
	var m *modState
	if c.Zero {
		o.label("zero value builder")
		m = &modState{kind: c.Mod.Kind, cb: cb}
		for i := range c.Mod.Ops {
			op := &c.Mod.Ops[i]
			switch {
			case op.Op == "set":
				m.upd = m.upd.Set(m.set(op.FVs)...)
			case m.kind == "UPDATE":
				m.upd = m.upd.Where(m.addWhere(op.Cs)...)
			default:
				m.del = m.del.Where(m.addWhere(op.Cs)...)
			}
		}
	} else {
		m = runMod(c.Mod, cb)
	}
	sql, _, err := m.build()
	o.label("kind " + m.kind)
	o.labelIf(c.Mod.Sel != nil, "derived from select")
	o.labelIf(m.where.base == nil, "no condition")
	o.labelIf(m.table == "", "no table")
	o.nontrivial = len(c.Mod.Ops) > 0 || c.Mod.Sel != nil
	if m.mustFail() {
		return checkFailed(sql, err)
	}
	o.label("filtered")
	if err != nil {
		return nil // whether it may fail is another property's concern
	}
	st, perr := ParseStmt(sql)
	if perr != nil {
		return perr
	}
	if st.Where == nil {
		return fmt.Errorf("no WHERE clause in %q", sql)
	}
	return nil
}

// C12.

type DeriveCase struct {
	P       *SelProg `json:"p"`
	FVs     []FV     `json:"fvs,omitempty"`
	CountOf string   `json:"count_of,omitempty"`
}

func checkDerived(c *DeriveCase, o *Obs) error {
	cb := &condBuilder{}
	s := runSel(c.P, cb)
	sql, params, err := s.build()
	if err != nil {
		return fmt.Errorf("select: %w", err)
	}
	sel, perr := ParseStmt(sql)
	if perr != nil {
		o.label("select is malformed")
		return nil
	}
	o.nontrivial = sel.Where != nil
	o.label("from " + s.kind)
	filter := exprFormula(sel.Where, params)
	same := func(what, sql string, ps []any, err error) (*Stmt, error) {
		if err != nil {
			return nil, fmt.Errorf("%s: %w", what, err)
		}
		st, perr := ParseStmt(sql)
		if perr != nil {
			return nil, fmt.Errorf("%s: %w", what, perr)
		}
		if derr := checkDollars(st.Phs, 0, len(ps)); derr != nil {
			return nil, fmt.Errorf("%s: %w in %q", what, derr, sql)
		}
		if st.From.Name != sel.From.Name {
			return nil, fmt.Errorf("%s: table %q, select reads %q", what, st.From.Name, sel.From.Name)
		}
		if err := equivalent(filter, exprFormula(st.Where, ps)); err != nil {
			return nil, fmt.Errorf("%s: not the filter of the select: %w; %q with %s", what, err, sql, showParams(ps))
		}
		return st, nil
	}
	// COUNT
	for i, cnt := range []string{"*", c.CountOf} {
		var f []query.FieldName
		if i == 1 {
			if cnt == "" {
				continue
			}
			f = append(f, query.FieldName(cnt))
		}
		csql, cps, cerr := s.count(f...).BuildQueryAndParams()
		st, err := same("count", csql, cps, cerr)
		if err != nil {
			return err
		}
		if len(st.Items) != 1 || !st.Items[0].Count || st.Items[0].Ref != cnt {
			return fmt.Errorf("count: counts %+v, expected %s", st.Items, cnt)
		}
		if st.From != sel.From || fmt.Sprint(st.Joins) != fmt.Sprint(sel.Joins) {
			return fmt.Errorf("count: tables %+v %+v, select has %+v %+v", st.From, st.Joins, sel.From, sel.Joins)
		}
		if len(st.Order) > 0 || st.Offset != nil || st.Limit != nil {
			return fmt.Errorf("count has ordering or pagination: %q", csql)
		}
	}
	vs, cols, want := makeFVs(c.FVs)
	usql, ups, uerr := s.update(vs...).BuildQueryAndParams()
	dsql, dps, derr := s.delete().BuildQueryAndParams()
	isql, ips, ierr := s.insert(vs...).BuildQueryAndParams()
	if sel.Where == nil {
		if err := checkFailed(dsql, derr); err != nil {
			return fmt.Errorf("delete derived from unfiltered select: %w", err)
		}
		if err := checkFailed(usql, uerr); err != nil {
			return fmt.Errorf("update derived from unfiltered select: %w", err)
		}
	} else {
		if _, err := same("delete", dsql, dps, derr); err != nil {
			return err
		}
		if len(vs) > 0 {
			st, err := same("update", usql, ups, uerr)
			if err != nil {
				return err
			}
			if err := derivedColumns("update", st, cols, want, ups); err != nil {
				return err
			}
		}
	}
	if len(vs) > 0 {
		if ierr != nil {
			return fmt.Errorf("insert: %w", ierr)
		}
		st, perr := ParseStmt(isql)
		if perr != nil {
			return fmt.Errorf("insert: %w", perr)
		}
		if st.From.Name != sel.From.Name {
			return fmt.Errorf("insert: table %q, select reads %q", st.From.Name, sel.From.Name)
		}
		if err := derivedColumns("insert", st, cols, want, ips); err != nil {
			return err
		}
	}
	return nil
}

func derivedColumns(what string, st *Stmt, cols []string, want, ps []any) error {
	if fmt.Sprint(st.Columns) != fmt.Sprint(cols) {
		return fmt.Errorf("%s: columns %v, expected %v", what, st.Columns, cols)
	}
	for i := range cols {
		if pos := st.Vals[i].Pos; pos >= len(ps) || !sameVal(ps[pos], want[i]) {
			return fmt.Errorf("%s: column %s has a wrong value", what, cols[i])
		}
	}
	return nil
}

// C20.

type outcome struct {
	sql    string
	params []any
	err    string
}

func outcomeOf(sql string, params []any, err error) outcome {
	o := outcome{sql: sql, params: params}
	if err != nil {
		o.err = err.Error()
	}
	return o
}

func (a outcome) same(b outcome) error {
	if a.sql != b.sql {
		return fmt.Errorf("text differs: %q and %q", a.sql, b.sql)
	}
	if a.err != b.err {
		return fmt.Errorf("error differs: %q and %q", a.err, b.err)
	}
	if err := sameParams(a.params, b.params); err != nil {
		return fmt.Errorf("parameters differ: %w", err)
	}
	return nil
}

// sameShown compares parameters of two separate builds, where pointers differ.
func (a outcome) sameRebuilt(b outcome) error {
	if a.sql != b.sql {
		return fmt.Errorf("text differs: %q and %q", a.sql, b.sql)
	}
	if a.err != b.err {
		return fmt.Errorf("error differs: %q and %q", a.err, b.err)
	}
	if len(a.params) != len(b.params) {
		return fmt.Errorf("%d and %d parameters", len(a.params), len(b.params))
	}
	for i := range a.params {
		if x, y := fmt.Sprintf("%T%s", a.params[i], encodeAny(a.params[i])), fmt.Sprintf("%T%s", b.params[i], encodeAny(b.params[i])); x != y {
			return fmt.Errorf("parameter #%d differs: %s and %s", i+1, x, y)
		}
	}
	return nil
}

var ptrRe = regexp.MustCompile(`0x[0-9a-f]{6,}`)

func encodeAny(a any) string { return ptrRe.ReplaceAllString(fmt.Sprintf("%#v", a), "PTR") }

func checkRepeat(c *StmtCase, o *Obs) error {
	leaves, calls := c.stats(o)
	o.nontrivial = leaves+calls >= 2
	cb := &condBuilder{}
	var build func() outcome
	var other func() []string
	if c.Mod != nil {
		m := runMod(c.Mod, cb)
		build = func() outcome { return outcomeOf(m.build()) }
		other = func() []string {
			switch m.kind {
			case "INSERT":
				return []string{m.ins.RenderFrom(), fmt.Sprint(len(m.ins.SetValues()))}
			case "UPDATE":
				return []string{m.upd.RenderFrom(), fmt.Sprint(len(m.upd.SetValues()))}
			}
			return []string{m.del.RenderFrom()}
		}
	} else {
		s := runSel(c.Sel, cb)
		build = func() outcome {
			if c.Count {
				return outcomeOf(s.count().BuildQueryAndParams())
			}
			return outcomeOf(s.build())
		}
		other = func() []string {
			return []string{s.renderAt(3), s.renderSQL(), s.renderFrom(), showParams(s.values()), s.base.String(), s.renderAt(0)}
		}
	}
	first := build()
	o1 := other()
	for i := 0; i < 3; i++ {
		if err := first.same(build()); err != nil {
			return fmt.Errorf("build #%d: %w", i+2, err)
		}
		if o2 := other(); fmt.Sprint(o1) != fmt.Sprint(o2) {
			return fmt.Errorf("rendering #%d differs: %q and %q", i+2, o1, o2)
		}
	}
	// the same program from scratch, after a statement of another kind was built
	_, _, _ = query.Table("other AS o").SelectMany(query.EqualTo("a", 1).Or(query.In("b", []int{1, 2}))).OrderBy(query.DESC("c")).Limit(3).BuildQueryAndParams()
	sql, params, err, _, _, _ := c.run()
	if c.Count && c.CountOf != "" {
		return nil
	}
	if err := first.sameRebuilt(outcomeOf(sql, params, err)); err != nil {
		return fmt.Errorf("rebuilt program: %w", err)
	}
	return nil
}

func checkRepeatCond(c *CondCase, o *Obs) error {
	leaves, ops := c.C.count()
	o.nontrivial = leaves >= 2 && ops >= 1
	b := (&condBuilder{}).build(c.C)
	show := func(x query.Condition) outcome {
		return outcome{sql: x.Render(0) + "|" + x.RenderSQL() + "|" + x.Render(5) + "|" + x.RenderJoin(true) + "|" + x.RenderJoin(false) + "|" + x.RenderNegate() + "|" + string(x.FieldName()), params: x.Values()}
	}
	first := show(b.C)
	for i := 0; i < 2; i++ {
		if err := first.same(show(b.C)); err != nil {
			return fmt.Errorf("rendering #%d: %w", i+2, err)
		}
	}
	again := (&condBuilder{}).build(c.C)
	if err := first.sameRebuilt(show(again.C)); err != nil {
		return fmt.Errorf("rebuilt condition: %w", err)
	}
	return nil
}

type PermCase struct {
	Sel   *SelProg `json:"sel,omitempty"`
	Mod   *ModProg `json:"mod,omitempty"`
	Order []int    `json:"order"`
}

func genPerm(t *rapid.T) *PermCase {
	x := &ids{}
	c := &PermCase{}
	var kinds []string
	if rapid.IntRange(0, 2).Draw(t, "upd") == 0 {
		c.Mod = genModProg(t, x, "UPDATE", 6, 4, condOpts{simple: true}, false)
		for _, op := range c.Mod.Ops {
			kinds = append(kinds, op.Op)
		}
	} else {
		p := &SelProg{Table: genTab(t), Entry: rapid.SampledFrom([]int{10, 11, 12, 13, 14}).Draw(t, "entry")}
		n := rapid.IntRange(2, 9).Draw(t, "nops")
		for i := 0; i < n; i++ {
			op := genSelOp(t, x, 3, condOpts{simple: true}, []string{"fields", "where", "where", "order", "order", "offset", "limit", "join"})
			p.Ops = append(p.Ops, op)
			kinds = append(kinds, op.Op)
		}
		c.Sel = p
	}
	idx := make([]int, len(kinds))
	for i := range idx {
		idx[i] = i
	}
	if len(idx) > 0 {
		idx = rapid.Permutation(idx).Draw(t, "perm")
	}
	// keep the order within each kind
	next := map[string][]int{}
	for i, k := range kinds {
		next[k] = append(next[k], i)
	}
	for _, i := range idx {
		k := kinds[i]
		c.Order = append(c.Order, next[k][0])
		next[k] = next[k][1:]
	}
	return c
}

func checkPerm(c *PermCase, o *Obs) error {
	moved := false
	for i, j := range c.Order {
		moved = moved || i != j
	}
	o.nontrivial = moved
	var a, b outcome
	if c.Mod != nil {
		o.label("update")
		a = outcomeOf(runMod(c.Mod, &condBuilder{}).build())
		p := *c.Mod
		p.Ops = nil
		for _, i := range c.Order {
			p.Ops = append(p.Ops, c.Mod.Ops[i])
		}
		b = outcomeOf(runMod(&p, &condBuilder{}).build())
	} else {
		o.label("select")
		a = outcomeOf(runSel(c.Sel, &condBuilder{}).build())
		p := *c.Sel
		p.Ops = nil
		for _, i := range c.Order {
			p.Ops = append(p.Ops, c.Sel.Ops[i])
		}
		b = outcomeOf(runSel(&p, &condBuilder{}).build())
	}
	if err := a.sameRebuilt(b); err != nil {
		return fmt.Errorf("independent calls do not commute: %w", err)
	}
	return nil
}

type MapCase struct {
	Keys []string `json:"keys"`
	Vals []Val    `json:"vals"`
}

func (c *MapCase) make() (query.ValuesMap, map[string]any) {
	m, vals := query.ValuesMap{}, map[string]any{}
	for i, k := range c.Keys {
		g := c.Vals[i].Go()
		m[k] = g
		vals[k] = g
	}
	return m, vals
}

func genMapCase(t *rapid.T) *MapCase {
	x := &ids{}
	c := &MapCase{}
	n := rapid.IntRange(0, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Keys = append(c.Keys, fmt.Sprintf("%s_%d", genIdent(t, "key"), x.next()))
		c.Vals = append(c.Vals, genScalarOfKind(t, x, rapid.SampledFrom([]string{"int", "string", "nil", "float", "bool"}).Draw(t, "k")))
	}
	return c
}

func checkMapRepeat(c *MapCase, o *Obs) error {
	o.nontrivial = len(c.Keys) >= 2
	var first outcome
	for i := 0; i < 6; i++ {
		m, _ := c.make()
		fvs, err := m.FieldValues()
		if err != nil {
			return fmt.Errorf("valid keys rejected: %w", err)
		}
		got := outcomeOf(query.InsertInto("t").Values(fvs...).BuildQueryAndParams())
		if i == 0 {
			first = got
		} else if err := first.same(got); err != nil {
			return fmt.Errorf("insert of the same values map: %w", err)
		}
	}
	return nil
}

// C21.

func checkPagination(c *StmtCase, o *Obs) error {
	c.stats(o)
	for _, op := range c.Sel.Ops {
		if (op.Op == "offset" || op.Op == "limit") && op.N > 0 {
			o.nontrivial = true
		}
	}
	s := runSel(c.Sel, &condBuilder{})
	o.label("final " + s.kind)
	e := s.expect()
	sql, params, err := s.build()
	if err != nil {
		return fmt.Errorf("unexpected error: %w", err)
	}
	one := func(what, sql string, params []any) error {
		st, perr := ParseStmt(sql)
		if perr != nil {
			return fmt.Errorf("%s: %w", what, perr)
		}
		if len(st.Phs) != len(params) {
			return fmt.Errorf("%s: %d placeholders for %d parameters in %q", what, len(st.Phs), len(params), sql)
		}
		return wrapSQL(checkPage(st, params, e), sql, params)
	}
	if err := one("build", sql, params); err != nil {
		return err
	}
	for i, n := range dollars(sql) {
		if n != i+1 {
			return fmt.Errorf("placeholder #%d is $%d in %q", i+1, n, sql)
		}
	}
	if err := one("RenderSQL", s.renderSQL(), s.values()); err != nil {
		return err
	}
	return one("Render", s.renderAt(4), s.values())
}

type LimiterCase struct {
	Ops   []SelOp `json:"ops"`
	Count int     `json:"count"`
}

func genLimiter(t *rapid.T) *LimiterCase {
	c := &LimiterCase{Count: rapid.SampledFrom([]int{0, 1, 2, 8, 9, 10, 98, 99, 100, 12345}).Draw(t, "count")}
	n := rapid.IntRange(0, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, SelOp{Op: rapid.SampledFrom([]string{"offset", "limit"}).Draw(t, "op"), N: genUint(t, "v")})
	}
	return c
}

func checkLimiter(c *LimiterCase, o *Obs) error {
	l := query.Limiter{}
	e := &Expect{}
	for _, op := range c.Ops {
		if op.N > 0 {
			o.nontrivial = true
		}
		if op.Op == "offset" {
			l = l.Offset(uint(op.N))
			e.Offset = uint64(op.N)
		} else {
			l = l.Limit(uint(op.N))
			e.Limit = op.N
		}
	}
	for i, sql := range []string{l.Render(c.Count), l.RenderSQL()} {
		st, err := ParseLimiter(sql)
		if err != nil {
			return err
		}
		vals := l.Values()
		if i == 0 {
			err = checkDollars(st.Phs, c.Count, len(vals))
		} else {
			err = checkQuests(st.Phs, len(vals))
		}
		if err == nil {
			err = checkPage(st, vals, e)
		}
		if err == nil && st.LimitBefore && st.Offset != nil {
			err = errors.New("LIMIT precedes OFFSET")
		}
		if err != nil {
			return wrapSQL(err, sql, vals)
		}
	}
	return nil
}

// C08.

func checkJoins(c *StmtCase, o *Obs) error {
	c.stats(o)
	s := runSel(c.Sel, &condBuilder{})
	o.nontrivial = len(s.joins) > 0
	o.label("joins %s", bucket(len(s.joins)))
	sql, params, err := s.build()
	e := s.expect()
	if err := checkBuilt(sql, params, err, e, aspects{shape: true, where: true}); err != nil {
		return err
	}
	for _, from := range []string{s.renderFrom(), s.count().RenderFrom()} {
		tab, joins, err := ParseFrom(from)
		if err != nil {
			return fmt.Errorf("RenderFrom: %w", err)
		}
		if tab != e.From || fmt.Sprint(joins) != fmt.Sprint(e.Joins) {
			return fmt.Errorf("RenderFrom %q, expected %+v %+v", from, e.From, e.Joins)
		}
	}
	sql, params, err = s.count().BuildQueryAndParams()
	e.Items, e.Order, e.Count = nil, nil, "*"
	return checkBuilt(sql, params, err, e, aspects{shape: true, where: true})
}
