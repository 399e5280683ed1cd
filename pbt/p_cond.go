package main

// Properties of conditions: C03, C04, C06, C18.

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type CondCase struct {
	C *Cond `json:"c"`
}

func genCondCase(max int, o condOpts) func(t *rapid.T) *CondCase {
	return func(t *rapid.T) *CondCase { return &CondCase{C: genCond(t, &ids{}, genSize(t, max), o)} }
}

// checkMeaning builds a condition and compares it with the model.
func checkMeaning(c *CondCase, o *Obs) error {
	leaves, ops := c.C.count()
	o.nontrivial = leaves >= 2 && ops >= 1
	o.label("leaves %s", bucket(leaves))
	o.label("root %s", c.C.Op)
	cb := &condBuilder{}
	b := cb.build(c.C)
	if err := condCheck(b); err != nil {
		return err
	}
	return cb.err
}

// C03: sequences of additions.

type SeqCase struct {
	Kind string  `json:"kind"` // where, group, groupor, select, single, many, update, delete, count
	Ops  []SelOp `json:"ops"`  // and, or
}

func genSeq(t *rapid.T) *SeqCase {
	x := &ids{}
	c := &SeqCase{Kind: rapid.SampledFrom([]string{"where", "where", "group", "groupor", "select", "single", "many", "update", "delete", "count", "table-select", "table-count", "table-delete"}).Draw(t, "kind")}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := "and"
		if (c.Kind == "where" || strings.HasPrefix(c.Kind, "group")) && rapid.Bool().Draw(t, "or") {
			op = "or"
		}
		c.Ops = append(c.Ops, SelOp{Op: op, Cs: genConds(t, x, genSize(t, 5), 0, condOpts{simple: true})})
	}
	return c
}

func checkSeq(c *SeqCase, o *Obs) error {
	cb := &condBuilder{}
	var model built
	leaves := 0
	o.label("kind %s", c.Kind)
	w := query.NewWhere()
	g := query.NewGroup(query.LogicalAND)
	if c.Kind == "groupor" {
		g = query.NewGroup(query.LogicalOR)
	}
	sel, single, many := query.SelectFrom("t"), query.SelectSingleFrom("t"), query.SelectManyFrom("t")
	upd, del := query.Update("t").Set(query.FieldName("c").Value(0)), query.Delete("t")
	var cnt query.CountBuilder
	for i, op := range c.Ops {
		bs, cs := cb.list(op.Cs)
		l, _ := countConds(op.Cs)
		leaves += l
		neg := model.neg
		model = addModel(op.Op, model, bs)
		model.neg = neg && model.neg
		switch c.Kind {
		case "where":
			if op.Op == "or" {
				w = w.GroupOR(cs...)
			} else {
				w = w.GroupAND(cs...)
			}
		case "group", "groupor":
			if op.Op == "or" {
				g = g.GroupOR(cs...)
			} else {
				g = g.GroupAND(cs...)
			}
		case "select", "count":
			sel = sel.Where(cs...)
		case "single":
			single = single.Where(cs...)
		case "many":
			many = many.Where(cs...)
		case "update":
			upd = upd.Where(cs...)
		case "delete":
			del = del.Where(cs...)
		case "table-select":
			if i == 0 {
				sel = query.TableName("t").Select(cs...)
			} else {
				sel = sel.Where(cs...)
			}
		case "table-count":
			if i == 0 {
				cnt = query.Table("t").Count(cs...)
			}
		case "table-delete":
			if i == 0 {
				del = query.TableName("t").Delete(cs...)
			} else {
				del = del.Where(cs...)
			}
		}
		if c.Kind == "table-count" {
			break
		}
	}
	o.nontrivial = leaves >= 2 && len(c.Ops) >= 2
	if cb.err != nil {
		return cb.err
	}
	want := model.meaning()
	one := func(what, sql string, ps []any, stmt bool) error {
		var e *Expr
		if stmt {
			st, err := ParseStmt(sql)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			e = st.Where
			if len(st.Phs) != len(ps) {
				return fmt.Errorf("%s: %d placeholders for %d values in %q", what, len(st.Phs), len(ps), sql)
			}
		} else if sql != "" {
			var err error
			var phs []token
			if e, phs, err = ParseExpr(sql); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if len(phs) != len(ps) {
				return fmt.Errorf("%s: %d placeholders for %d values in %q", what, len(phs), len(ps), sql)
			}
		}
		if err := equivalent(want, exprFormula(e, ps)); err != nil {
			return fmt.Errorf("%s: %w; rendered %q with %s", what, err, sql, showParams(ps))
		}
		return nil
	}
	build := func(sql string, ps []any, err error) error {
		if want == nil && err != nil {
			return nil
		}
		if err != nil {
			return fmt.Errorf("unexpected error: %w", err)
		}
		return one("statement", sql, ps, true)
	}
	switch c.Kind {
	case "where":
		if err := one("Render", w.Render(0), w.Values(), false); err != nil {
			return err
		}
		if err := one("RenderSQL", w.RenderSQL(), w.Values(), false); err != nil {
			return err
		}
		if (len(w.Conditions()) == 0) != (want == nil) {
			return fmt.Errorf("Conditions() has %d elements for %s", len(w.Conditions()), canon(want))
		}
		// the list of conditions handed over to another clause means the same
		d := query.Delete("t").Where(w.Conditions()...)
		return build(d.BuildQueryAndParams())
	case "group", "groupor":
		if err := one("Render", g.Render(0), g.Values(), false); err != nil {
			return err
		}
		return one("RenderSQL", g.RenderSQL(), g.Values(), false)
	case "select", "table-select":
		return build(sel.BuildQueryAndParams())
	case "single":
		return build(single.BuildQueryAndParams())
	case "many":
		return build(many.BuildQueryAndParams())
	case "update":
		sql, ps, err := upd.BuildQueryAndParams()
		if err == nil {
			st, perr := ParseStmt(sql)
			if perr != nil {
				return perr
			}
			return wrapSQL(equivalent(want, exprFormula(st.Where, ps)), sql, ps)
		}
		return build(sql, ps, err)
	case "delete", "table-delete":
		return build(del.BuildQueryAndParams())
	case "count":
		return build(sel.Count().BuildQueryAndParams())
	case "table-count":
		return build(cnt.BuildQueryAndParams())
	}
	return nil
}

// Bounded exhaustive enumeration of small conditions.

// condForest enumerates condition shapes by weight: leaves and empty groups weigh 1, each combinator adds 1.
type condForest struct {
	trees [][]*Cond // by weight
}

func (f *condForest) lists(total, min int, yield func([]*Cond) bool) bool {
	if total == 0 {
		if min > 0 {
			return true
		}
		return yield(nil)
	}
	var rec func(left int, acc []*Cond) bool
	rec = func(left int, acc []*Cond) bool {
		if left == 0 {
			if len(acc) < min {
				return true
			}
			return yield(acc)
		}
		for w := 1; w <= left; w++ {
			for _, t := range f.trees[w] {
				if !rec(left-w, append(acc[:len(acc):len(acc)], t)) {
					return false
				}
			}
		}
		return true
	}
	return rec(total, nil)
}

func (f *condForest) ofWeight(w int, yield func(*Cond) bool) bool {
	if w == 1 {
		return yield(&Cond{Op: "leaf"}) && yield(&Cond{Op: "group", J: "AND"}) && yield(&Cond{Op: "group", J: "OR"})
	}
	for _, k := range f.trees[w-1] {
		kids := []*Cond{k}
		for _, c := range []Cond{{Op: "not"}, {Op: "negate"}, {Op: "join", J: "AND"}, {Op: "join", J: "OR"}, {Op: "brackets"}} {
			c.Kids = kids
			if c.Op == "brackets" && k.Op == "leaf" {
				continue
			}
			if !yield(&c) {
				return false
			}
		}
	}
	return f.lists(w-1, 1, func(kids []*Cond) bool {
		for _, c := range []Cond{{Op: "mand"}, {Op: "mor"}, {Op: "fand"}, {Op: "for"}, {Op: "group", J: "AND"}, {Op: "group", J: "OR"}, {Op: "jtjoin", J: "AND"}, {Op: "jtjoin", J: "OR"}} {
			c.Kids = kids
			if c.Op == "jtjoin" && len(kids) == 1 {
				continue
			}
			if !yield(&c) {
				return false
			}
		}
		return true
	})
}

// instantiate copies a shape giving every leaf its own field and value.
func instantiate(c *Cond, n *int) *Cond {
	d := *c
	if c.Op == "leaf" {
		*n++
		d.Op = leafOps[*n%len(leafOps)]
		d.F = &FieldRef{N: fmt.Sprintf("f%d", *n)}
		switch d.Op {
		case "isnull":
		case "contains", "icontains":
			d.V = &Val{K: "string", S: fmt.Sprintf("s%d", *n)}
		case "in":
			d.V = &Val{K: "[]int", L: []Val{{K: "int", N: int64(*n)}, {K: "int", N: int64(100 + *n)}}}
		default:
			d.V = &Val{K: "int", N: int64(*n)}
		}
		return &d
	}
	d.Kids = make([]*Cond, len(c.Kids))
	for i, k := range c.Kids {
		d.Kids[i] = instantiate(k, n)
	}
	return &d
}

func enumConds(max int, yield func(*CondCase) bool) {
	f := &condForest{trees: make([][]*Cond, max+1)}
	off := 0
	for w := 1; w <= max; w++ {
		ok := f.ofWeight(w, func(c *Cond) bool {
			if w < max {
				f.trees[w] = append(f.trees[w], c)
			}
			off++
			n := off * 3 % 9
			return yield(&CondCase{C: instantiate(c, &n)})
		})
		if !ok {
			return
		}
	}
}

// C04: rows.

type LeafCase struct {
	C   *Cond `json:"c"`
	Neg int   `json:"neg"` // 0 none, 1 Not, 2 Negate(true), 3 Not then Negate(false)
}

func genLeafCase(t *rapid.T) *LeafCase {
	x := &ids{}
	c := &LeafCase{C: genLeaf(t, x, condOpts{}), Neg: rapid.IntRange(0, 3).Draw(t, "neg")}
	if c.C.Op == "contains" || c.C.Op == "icontains" {
		c.C.V.S = rapid.SampledFrom([]string{"", "abc", "A", "Straße", "жЖ", "O'Hara", "x y", "MiXed", "ы", "..", "0", "%", "_", "a%b", "50%", "\\", "İ", "a\nb"}).Draw(t, "text")
		for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
			piece := genText(t, x)
			if rapid.Bool().Draw(t, "random") {
				piece = rapid.StringN(1, 6, -1).Draw(t, "piece")
			}
			if rapid.Bool().Draw(t, "before") {
				c.C.V.S = piece + c.C.V.S
			} else {
				c.C.V.S += piece
			}
		}
	}
	return c
}

// like matches a SQL LIKE pattern without escapes.
func like(p, s []rune, fold bool) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if like(p[1:], s[i:], fold) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	ok := p[0] == '_' || p[0] == s[0] || (fold && unicode.ToLower(p[0]) == unicode.ToLower(s[0]))
	return ok && like(p[1:], s[1:], fold)
}

// compare orders two values of a kind; known is false for values without an order here.
func compare(a, b any) (cmp int, known bool) {
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch {
	case ra.CanInt() && rb.CanInt():
		return cmpOf(ra.Int(), rb.Int()), true
	case ra.CanUint() && rb.CanUint():
		return cmpOf(ra.Uint(), rb.Uint()), true
	case ra.CanFloat() && rb.CanFloat():
		if math.IsNaN(ra.Float()) || math.IsNaN(rb.Float()) {
			return 0, false
		}
		return cmpOf(ra.Float(), rb.Float()), true
	case ra.Kind() == reflect.String && rb.Kind() == reflect.String:
		return strings.Compare(ra.String(), rb.String()), true
	}
	if ta, ok := a.(time.Time); ok {
		if tb, ok := b.(time.Time); ok {
			return ta.Compare(tb), true
		}
	}
	if x, ok := a.([]byte); ok {
		if y, ok := b.([]byte); ok {
			return bytes.Compare(x, y), true
		}
	}
	return 0, false
}

func cmpOf[T int64 | uint64 | float64](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// cmp3 evaluates "cell op value" in SQL three-valued logic; ok is false if not decidable here.
func cmp3(op string, cell, val any) (r int8, ok bool) {
	if cell == nil || val == nil {
		return -1, true
	}
	if op == "=" && sameVal(cell, val) {
		if f, isF := cell.(float64); !isF || !math.IsNaN(f) {
			return 1, true
		}
	}
	c, known := compare(cell, val)
	if !known {
		if op == "=" && reflect.TypeOf(cell) == reflect.TypeOf(val) {
			return 0, false
		}
		return 0, false
	}
	b := false
	switch op {
	case "=":
		b = c == 0
	case ">":
		b = c > 0
	case ">=":
		b = c >= 0
	case "<":
		b = c < 0
	case "<=":
		b = c <= 0
	}
	if b {
		return 1, true
	}
	return 0, true
}

// cells are candidate contents of the field for values of a predicate.
func cellsFor(ps []any) []any {
	cells := []any{nil, 0, "", "zzz-other"}
	for _, p := range ps {
		cells = append(cells, p)
		switch v := p.(type) {
		case int:
			cells = append(cells, v-1, v+1, -v)
		case int64:
			cells = append(cells, v-1, v+1)
		case string:
			cells = append(cells, v+"x", "x"+v, strings.ToUpper(v), strings.ToLower(v))
			if len(v) > 0 {
				cells = append(cells, v[:len(v)-1])
			}
		case float64:
			cells = append(cells, v-0.25, v+0.25)
		case time.Time:
			cells = append(cells, v.Add(time.Second), v.Add(-time.Second))
		}
	}
	return cells
}

// evalRow evaluates a parsed expression on a row.
func evalRow(e *Expr, row map[string]any, params []any) (r int8, ok bool, err error) {
	get := func(o Operand) (any, error) {
		switch o.Kind {
		case "ph":
			return params[o.Pos], nil
		case "num":
			return o.Num, nil
		case "ref":
			v, known := row[o.Ref]
			if !known {
				return nil, fmt.Errorf("unknown column %q", o.Ref)
			}
			return v, nil
		}
		return nil, fmt.Errorf("unexpected function %s", o.Ref)
	}
	if e.Op == "not" {
		r, ok, err = evalRow(e.Kids[0], row, params)
		return not3(r), ok, err
	}
	if e.Op != "pred" {
		return 0, false, fmt.Errorf("unexpected %s", e.Op)
	}
	vs := make([]any, len(e.Args))
	for i, a := range e.Args {
		if vs[i], err = get(a); err != nil {
			return 0, false, err
		}
	}
	ok = true
	switch e.Pred {
	case "isnull":
		r = 0
		if vs[0] == nil {
			r = 1
		}
	case "in":
		r = 0
		for _, v := range vs[1:] {
			c, known := cmp3("=", vs[0], v)
			ok = ok && known
			r = or3(r, c)
		}
		if r == 1 {
			ok = true
		}
	case "like", "ilike":
		s, isS := vs[0].(string)
		p, isP := vs[1].(string)
		switch {
		case vs[0] == nil || vs[1] == nil:
			r = -1
		case !isS || !isP:
			ok = false
		case like([]rune(p), []rune(s), e.Pred == "ilike"):
			r = 1
		}
	default:
		r, ok = cmp3(e.Pred, vs[0], vs[1])
	}
	if e.Neg {
		r = not3(r)
	}
	return r, ok, nil
}

func checkLeaf(c *LeafCase, o *Obs) error {
	cb := &condBuilder{}
	b := cb.build(c.C)
	neg := false
	switch c.Neg {
	case 1:
		b.C, neg = query.Not(b.C), true
	case 2:
		b.C, neg = b.C.Negate(true), true
	case 3:
		b.C = query.Not(b.C).Negate(false)
	}
	b.neg = neg
	o.label("%s neg=%v", c.C.Op, neg)
	if c.C.V != nil {
		o.label("value %s", c.C.V.K)
	}
	o.nontrivial = c.C.Op == "isnull" || len(b.params) > 0 || neg
	if cb.err != nil {
		return cb.err
	}
	if b.C.IsNegate() != neg {
		return fmt.Errorf("IsNegate() is %v, expected %v", b.C.IsNegate(), neg)
	}
	if err := condCheck(b); err != nil {
		return err
	}
	if err := sameParams(b.params, b.C.Values()); err != nil {
		return err
	}
	ref := normalRef(*c.C.F).inCondition()
	if string(b.C.FieldName()) != c.C.F.N {
		return fmt.Errorf("FieldName() is %q, expected %q", b.C.FieldName(), c.C.F.N)
	}
	e, _, err := ParseExpr(b.C.Render(0))
	if err != nil {
		return err
	}
	for _, cell := range cellsFor(b.params) {
		var want int8
		known := true
		switch c.C.Op {
		case "isnull":
			if cell == nil {
				want = 1
			}
		case "contains", "icontains":
			s, isS := cell.(string)
			switch {
			case cell == nil:
				want = -1
			case !isS || strings.ContainsAny(c.C.V.S, "%_\\") || !utf8.ValidString(c.C.V.S) || !utf8.ValidString(s):
				known = false
			case c.C.Op == "contains" && strings.Contains(s, c.C.V.S),
				c.C.Op == "icontains" && like([]rune("%"+c.C.V.S+"%"), []rune(s), true):
				want = 1
			}
		case "in":
			for _, p := range b.params {
				v, k := cmp3("=", cell, p)
				if !k {
					known = false
				}
				want = or3(want, v)
			}
			if want == 1 {
				known = true
			}
		default:
			want, known = cmp3(leafSQL[c.C.Op], cell, b.params[0])
		}
		if !known {
			continue
		}
		if neg {
			want = not3(want)
		}
		got, ok, err := evalRow(e, map[string]any{ref: cell}, b.params)
		if err != nil {
			return fmt.Errorf("%w in %q", err, b.C.Render(0))
		}
		if ok && got != want {
			return fmt.Errorf("for %s = %s expected %d, %q gives %d with %s", ref, valText(cell), want, b.C.Render(0), got, showParams(b.params))
		}
	}
	return nil
}

// C06.

type renderable interface {
	Render(int) string
	RenderSQL() string
	Values() []any
}

// shifted replaces every placeholder $k by $k+by.
func shifted(sql string, by int) string {
	return mapDollars(sql, func(n int) string { return fmt.Sprintf("$%d", n+by) })
}

func checkRenderings(r renderable, counts []int) error {
	zero, raw, vals := r.Render(0), r.RenderSQL(), r.Values()
	if q := mapDollars(zero, func(int) string { return "?" }); q != raw {
		return fmt.Errorf("numbered rendering %q, '?' rendering %q", zero, raw)
	}
	if n := strings.Count(withoutLiterals(raw), "?"); n != len(vals) {
		return fmt.Errorf("%d placeholders in %q, %d values", n, raw, len(vals))
	}
	for i, n := range dollars(zero) {
		if n != i+1 {
			return fmt.Errorf("placeholder #%d is $%d in %q", i+1, n, zero)
		}
	}
	for _, c := range counts {
		if got, want := r.Render(c), shifted(zero, c); got != want {
			return fmt.Errorf("rendering at count %d is %q, expected %q", c, got, want)
		}
	}
	return nil
}

type RenderCase struct {
	C      *Cond    `json:"c,omitempty"`
	Seq    *SeqCase `json:"seq,omitempty"`
	Sel    *SelProg `json:"sel,omitempty"`
	Lim    []int64  `json:"lim,omitempty"` // offset, limit
	Counts []int    `json:"counts"`
}

func genCounts(t *rapid.T) (cs []int) {
	for i := 0; i < 2; i++ {
		c := rapid.SampledFrom([]int{1, 2, 3, 7, 8, 9, 10, 11, 90, 97, 98, 99, 100, 999, 9999, 65534, 1000000, 999999999}).Draw(t, "count")
		if rapid.IntRange(0, 2).Draw(t, "count?") == 0 { // around the ranges of smaller types
			c = 1<<rapid.IntRange(4, 60).Draw(t, "bits") - rapid.IntRange(0, 12).Draw(t, "below")
		}
		cs = append(cs, c)
	}
	return
}

func genRender(t *rapid.T) *RenderCase {
	c := &RenderCase{Counts: genCounts(t)}
	x := &ids{}
	switch rapid.IntRange(0, 7).Draw(t, "what") {
	case 0, 1:
		c.C = genLeaf(t, x, condOpts{})
		if rapid.Bool().Draw(t, "not") {
			c.C = &Cond{Op: "not", Kids: []*Cond{c.C}}
		}
	case 2, 3:
		c.C = genCond(t, x, genSize(t, 10), condOpts{custom: true})
	case 4:
		c.Seq = genSeq(t)
		c.Seq.Kind = "where"
	case 5:
		c.Lim = []int64{genUint(t, "offset"), genUint(t, "limit")}
	default:
		c.Sel = genSelProg(t, x, 6, 5, condOpts{custom: true})
	}
	return c
}

func checkRender(c *RenderCase, o *Obs) error {
	cb := &condBuilder{}
	switch {
	case c.C != nil:
		o.label("condition %s", c.C.Op)
		b := cb.build(c.C)
		o.nontrivial = len(b.params) > 0
		return checkRenderings(b.C, c.Counts)
	case c.Seq != nil:
		o.label("where clause")
		w := query.NewWhere()
		for _, op := range c.Seq.Ops {
			_, cs := cb.list(op.Cs)
			if op.Op == "or" {
				w = w.GroupOR(cs...)
			} else {
				w = w.GroupAND(cs...)
			}
		}
		o.nontrivial = len(w.Values()) > 0
		return checkRenderings(w, c.Counts)
	case c.Lim != nil:
		o.label("limiter")
		l := query.Limiter{}.Offset(uint(c.Lim[0])).Limit(uint(c.Lim[1]))
		o.nontrivial = len(l.Values()) > 0
		return checkRenderings(l, c.Counts)
	}
	s := runSel(c.Sel, cb)
	o.label("select %s", s.kind)
	sql, params, err := s.build()
	if err != nil {
		return fmt.Errorf("unexpected error: %w", err)
	}
	o.nontrivial = len(params) > 0
	if err := checkRenderings(selRender{s}, c.Counts); err != nil {
		return err
	}
	if got := s.renderAt(0); got != sql {
		return fmt.Errorf("Render(0) is %q, the built statement %q", got, sql)
	}
	if err := sameParams(params, s.values()); err != nil {
		return fmt.Errorf("Values() are not the parameters of the statement %q: %w", sql, err)
	}
	return nil
}

type selRender struct{ s *selState }

func (r selRender) Render(n int) string { return r.s.renderAt(n) }
func (r selRender) RenderSQL() string   { return r.s.renderSQL() }
func (r selRender) Values() []any       { return r.s.values() }

// C18.

type CustomCase struct {
	C    *Cond    `json:"c,omitempty"`
	Stmt StmtCase `json:"stmt"`
}

// makeCustom turns some leaf of the conditions into a custom one, adding one if there are none.
func makeCustom(t *rapid.T, x *ids, cs []*Cond) []*Cond {
	var leaves []*Cond
	var walk func(c *Cond)
	found := false
	walk = func(c *Cond) {
		if c.Op == "custom" {
			found = true
		}
		if _, ok := leafSQL[c.Op]; ok {
			leaves = append(leaves, c)
		}
		for _, k := range c.Kids {
			walk(k)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	if found {
		return cs
	}
	cu := genCustomLeaf(t, x, []int{0, 1, 2, 2, 3, 5, 12})
	if len(leaves) == 0 {
		return append(cs, cu)
	}
	*leaves[rapid.IntRange(0, len(leaves)-1).Draw(t, "which")] = *cu
	return cs
}

func genCustom(t *rapid.T) *CustomCase {
	x := &ids{}
	o := condOpts{custom: true, simple: true}
	if rapid.IntRange(0, 2).Draw(t, "tree") != 0 {
		return &CustomCase{C: makeCustom(t, x, []*Cond{genCond(t, x, genSize(t, 8), o)})[0]}
	}
	c := &CustomCase{Stmt: *genStmtCase(t, o, true, true)}
	n := int64(1000)
	x.n = n
	switch {
	case c.Stmt.Sel != nil:
		c.Stmt.Sel.Ops = append(c.Stmt.Sel.Ops, SelOp{Op: "where", Cs: makeCustom(t, x, genConds(t, x, genSize(t, 5), 1, o))})
	case c.Stmt.Mod.Kind != "INSERT":
		c.Stmt.Mod.Ops = append(c.Stmt.Mod.Ops, ModOp{Op: "where", Cs: makeCustom(t, x, genConds(t, x, genSize(t, 5), 1, o))})
	default:
		c.Stmt.Mod.Kind = "UPDATE"
		c.Stmt.Mod.Ops = append(c.Stmt.Mod.Ops, ModOp{Op: "where", Cs: makeCustom(t, x, genConds(t, x, genSize(t, 5), 1, o))})
	}
	return c
}

func checkCustom(c *CustomCase, o *Obs) error {
	if c.C != nil {
		leaves, ops := c.C.count()
		o.nontrivial = leaves >= 2 && ops >= 1
		o.label("tree")
		cb := &condBuilder{}
		b := cb.build(c.C)
		if err := condCheck(b); err != nil {
			return err
		}
		if cb.err != nil {
			return cb.err
		}
		e, _, err := ParseExpr(b.C.Render(0))
		if err != nil {
			return nil
		}
		if err := sameAtoms(b.meaning(), exprFormula(e, b.C.Values())); err != nil {
			return fmt.Errorf("%w in %q", err, b.C.Render(0))
		}
		return sameParams(b.params, b.C.Values())
	}
	c.Stmt.stats(o)
	o.nontrivial = true
	sql, params, err, e, fail, herr := c.Stmt.run()
	if fail {
		o.label("build must fail")
		return checkFailed(sql, err)
	}
	if err := checkBuilt(sql, params, err, e, aspects{where: true, params: true}); err != nil {
		return err
	}
	st, _ := ParseStmt(sql)
	if err := sameAtoms(e.Where, exprFormula(st.Where, params)); err != nil {
		return wrapSQL(err, sql, params)
	}
	return herr
}

func init() {
	register(&Property{
		ID:   "C03",
		Rule: "random nestings of And, Or, Not, Negate, Join, NewGroup, brackets and JoinType.Join over every leaf kind (custom conditions and empty groups included), sequences of GroupAND/GroupOR/Where calls, and every nesting up to a small weight; compared as boolean formulas with the composition; non-trivial: at least two leaves and one operation" + scaleRule,
		Parts: []Part{
			&part[CondCase]{Name: "nested", Quick: 240000, Thorough: 600000, Gen: genCondCase(12, condOpts{custom: true, simple: true}), Check: checkMeaning},
			&part[CondCase]{Name: "scale", Quick: 1000, Thorough: 3000, Gen: growCondCase(condOpts{custom: true, simple: true}), Check: checkMeaning},
			&part[SeqCase]{Name: "sequences", Quick: 120000, Thorough: 400000, Gen: genSeq, Check: checkSeq},
			&part[CondCase]{Name: "small-exhaustive", Check: checkMeaning, Enum: func(tier string, yield func(*CondCase) bool) {
				max := 5
				if tier == "thorough" {
					max = 6
				}
				enumConds(max, yield)
			}},
		},
	})
	register(&Property{
		ID:   "C04",
		Rule: "random single conditions over every constructor, field form, value and list type, negated or not, evaluated in three-valued logic on rows around the values; non-trivial: has a parameter, is negated or is IsNull" + scaleRule,
		Parts: []Part{
			&part[LeafCase]{Name: "rows", Quick: 320000, Thorough: 1000000, Gen: genLeafCase, Check: checkLeaf},
			&part[LongList]{Name: "long-lists", Quick: 1000, Thorough: 3000, Gen: genLongList, Check: checkLongList},
		},
		Assume: []string{"pattern characters % and _ inside the text of Contains are not escaped by the library; rows are evaluated only for texts without them, the bound parameter is checked for all"},
	})
	register(&Property{
		ID:   "C06",
		Rule: "random conditions, where clauses, limiters and select builders of all kinds rendered both ways and at several initial counts; non-trivial: at least one parameter" + scaleRule,
		Parts: []Part{
			&part[RenderCase]{Name: "renderings", Quick: 280000, Thorough: 800000, Gen: genRender, Check: checkRender},
			&part[RenderCase]{Name: "scale", Quick: 1000, Thorough: 3000, Gen: func(t *rapid.T) *RenderCase {
				c := &RenderCase{Counts: genCounts(t)}
				if rapid.Bool().Draw(t, "cond") {
					c.C = growCond(t, &ids{n: 100}, condOpts{custom: true})
				} else {
					c.Sel = growSelProg(t, &ids{n: 100}, condOpts{custom: true})
				}
				return c
			}, Check: checkRender},
		},
	})
	register(&Property{
		ID:   "C18",
		Rule: "random condition trees and statements containing at least one condition type defined outside of the library, by pointer or by an uncomparable value, with 0 to 12 placeholders; non-trivial: combined with another condition or used in a statement" + scaleRule,
		Parts: []Part{
			&part[CustomCase]{Name: "custom", Quick: 240000, Thorough: 800000, Gen: genCustom, Check: checkCustom},
			&part[CustomCase]{Name: "scale", Quick: 1000, Thorough: 3000, Gen: func(t *rapid.T) *CustomCase {
				o := condOpts{custom: true, simple: true}
				if rapid.Bool().Draw(t, "cond") {
					return &CustomCase{C: growCond(t, &ids{n: 100}, o)}
				}
				return &CustomCase{Stmt: *growStmtCase(o, "SELECT", "UPDATE", "DELETE", "COUNT")(t)}
			}, Check: checkCustom},
			&part[ApplyCase]{Name: "custom-fields", Quick: 80000, Thorough: 200000, Gen: func(t *rapid.T) *ApplyCase { return genApply(t, true) }, Check: checkApply},
		},
	})
}
