package main

// C25: what builders and conditions report about themselves agrees with what they build.

import (
	"errors"
	"fmt"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// prefixed tells whether sql is head followed by nothing or by a space and more, and returns the rest.
func prefixed(sql, head string) (rest string, ok bool) {
	if sql == head {
		return "", true
	}
	if strings.HasPrefix(sql, head+" ") {
		return sql[len(head)+1:], true
	}
	return "", false
}

func (s *selState) fieldList() string {
	switch s.kind {
	case "single":
		return s.single.FieldList()
	case "many":
		return s.many.FieldList()
	}
	return query.NewFields().Fields(s.base.FieldDefinitions()...).FieldList()
}

// refield gives the same builder with its own field definitions set again.
func (s *selState) refield() *selState {
	c := *s
	switch s.kind {
	case "base":
		c.base = s.base.Fields(s.base.FieldDefinitions()...)
	case "single":
		c.single = s.single.Fields(s.single.FieldDefinitions()...)
	case "many":
		c.many = s.many.Fields(s.many.FieldDefinitions()...)
	}
	return &c
}

func restStart(rest string, words ...string) bool {
	if rest == "" {
		return true
	}
	for _, w := range words {
		if strings.HasPrefix(rest, w) {
			return true
		}
	}
	return false
}

func checkSelAccess(c *StmtCase, o *Obs) error {
	c.stats(o)
	cb := &condBuilder{}
	s := runSel(c.Sel, cb)
	o.nontrivial = len(s.fields) > 0 || len(s.joins) > 0
	o.label("kind %s joins %s fields %s", s.kind, bucket(len(s.joins)), bucket(len(s.fields)))
	if err := checkSelAccessors(s); err != nil {
		return err
	}
	sql, params, err := s.build()
	if err != nil {
		return err
	}
	from, list := s.renderFrom(), s.fieldList()
	rest, ok := prefixed(sql, "SELECT "+list+" FROM "+from)
	if !ok || !restStart(rest, "WHERE ", "ORDER BY ", "LIMIT ", "OFFSET ") {
		return fmt.Errorf("FieldList() %q and RenderFrom() %q are not those of %q", list, from, sql)
	}
	if err := sameParams(params, s.values()); err != nil {
		return fmt.Errorf("Values() differ from the parameters of the build: %w", err)
	}
	if err := outcomeOf(sql, params, nil).same(outcomeOf(s.refield().build())); err != nil {
		return fmt.Errorf("setting FieldDefinitions() again: %w", err)
	}
	cnt := s.count()
	if got := cnt.RenderFrom(); got != from {
		return fmt.Errorf("Count().RenderFrom() is %q, that of the select %q", got, from)
	}
	csql, _, err := cnt.BuildQueryAndParams()
	if rest, ok := prefixed(csql, "SELECT COUNT(*) FROM "+from); err != nil || !ok || !restStart(rest, "WHERE ") {
		return fmt.Errorf("RenderFrom() of the count is %q, built %q, %v", from, csql, err)
	}
	u, d, i := s.update(), s.delete(), s.insert()
	for _, x := range []struct {
		what string
		tn   query.TableName
		from string
		op   query.Operation
		want query.Operation
		word string
	}{
		{"Update()", u.TableName(), u.RenderFrom(), u.Operation(), query.DoUpdate, "UPDATE"},
		{"Delete()", d.TableName(), d.RenderFrom(), d.Operation(), query.DoDelete, "DELETE"},
		{"InsertInto()", i.TableName(), i.RenderFrom(), i.Operation(), query.DoInsert, "INSERT"},
	} {
		if string(x.tn) != s.table.N || x.from != s.table.N {
			return fmt.Errorf("%s: TableName() %q, RenderFrom() %q, expected %q", x.what, x.tn, x.from, s.table.N)
		}
		if x.op != x.want || x.op.String() != x.word || x.op.New().Operation() != x.want {
			return fmt.Errorf("%s: Operation() is %v", x.what, x.op)
		}
	}
	if n := len(u.SetValues()) + len(i.SetValues()); n != 0 {
		return fmt.Errorf("derived statements with nothing set report %d values", n)
	}
	return cb.err
}

func checkModAccess(c *StmtCase, o *Obs) error {
	c.stats(o)
	cb := &condBuilder{}
	m := runMod(c.Mod, cb)
	o.nontrivial = len(m.cols) >= 1 || m.kind == "DELETE"
	o.label("kind %s", m.kind)
	if err := checkModAccessors(m); err != nil {
		return err
	}
	sql, params, err := m.build()
	if err := checkModAccessors(m); err != nil {
		return fmt.Errorf("after a build: %w", err)
	}
	one := outcomeOf(sql, params, err)
	again := modState{kind: m.kind}
	var words []string
	switch m.kind {
	case "INSERT":
		again.ins = query.InsertInto(m.ins.TableName()).Values(m.ins.SetValues()...)
		if err := one.same(outcomeOf(again.build())); err != nil {
			return fmt.Errorf("inserting SetValues() into TableName(): %w", err)
		}
		if err := again.sameSets(m); err != nil {
			return err
		}
		words = []string{"INSERT INTO " + m.ins.RenderFrom() + "("}
	case "UPDATE":
		again.upd = query.Update(m.upd.TableName()).Set(m.upd.SetValues()...).Where(query.EqualTo("added", 7))
		asql, aparams, aerr := again.build()
		if err == nil {
			i, j := strings.Index(sql, " WHERE "), strings.Index(asql, " WHERE ")
			if aerr != nil || i < 0 || j < 0 || sql[:i] != asql[:j] {
				return fmt.Errorf("updating TableName() with SetValues() builds %q (%v), the original is %q", asql, aerr, sql)
			}
			n := len(m.upd.SetValues())
			if len(aparams) < n || len(params) < n {
				return errors.New("fewer parameters than set values")
			}
			if err := sameParams(params[:n], aparams[:n]); err != nil {
				return fmt.Errorf("updating with SetValues(): %w", err)
			}
		} else if (m.table == "" || len(m.cols) == 0) != (aerr != nil) {
			return fmt.Errorf("updating TableName() with SetValues() gives error %v, the original %v", aerr, err)
		}
		if err := again.sameSets(m); err != nil {
			return err
		}
		words = []string{"UPDATE " + m.upd.RenderFrom() + " SET "}
	default:
		words = []string{"DELETE FROM " + m.del.RenderFrom() + " WHERE "}
	}
	if err == nil {
		for _, w := range words {
			if !strings.HasPrefix(sql, w) {
				return fmt.Errorf("%q does not start with %q", sql, w)
			}
		}
	}
	return cb.err
}

func (m *modState) setValues() []query.FieldValue {
	if m.kind == "INSERT" {
		return m.ins.SetValues()
	}
	return m.upd.SetValues()
}

// sameSets compares the reported values of two builders in full.
func (m *modState) sameSets(n *modState) error {
	a, b := m.setValues(), n.setValues()
	if len(a) != len(b) {
		return fmt.Errorf("%d and %d set values", len(a), len(b))
	}
	for i := range a {
		if a[i].FieldName() != b[i].FieldName() || a[i].TableName() != b[i].TableName() || a[i].Alias() != b[i].Alias() || a[i].RenderSpec() != b[i].RenderSpec() {
			return fmt.Errorf("set value #%d is %q in one and %q in other", i+1, a[i].RenderSpec(), b[i].RenderSpec())
		}
		if err := sameParams(a[i].Values(), b[i].Values()); err != nil {
			return err
		}
	}
	return nil
}

// Where clauses.

func genWhereAccess(t *rapid.T) *SeqCase {
	c := genSeq(t)
	c.Kind = "where"
	for i := range c.Ops {
		if rapid.Bool().Draw(t, "or") {
			c.Ops[i].Op = "or"
		}
	}
	return c
}

func checkWhereAccess(c *SeqCase, o *Obs) error {
	cb := &condBuilder{}
	var model built
	w := query.NewWhere()
	for _, op := range c.Ops {
		bs, cs := cb.list(op.Cs)
		model = addModel(op.Op, model, bs)
		model.neg = false
		if op.Op == "or" {
			w = w.GroupOR(cs...)
		} else {
			w = w.GroupAND(cs...)
		}
	}
	list := w.Conditions()
	o.nontrivial = len(list) >= 2
	o.label("conditions %s", bucket(len(list)))
	if (len(list) == 0) != (model.base == nil) || (len(list) == 0) != (w.RenderSQL() == "") {
		return fmt.Errorf("%d conditions listed, clause renders %q", len(list), w.RenderSQL())
	}
	var vals []any
	for _, x := range list {
		vals = append(vals, x.Values()...)
	}
	if err := sameParams(w.Values(), vals); err != nil {
		return fmt.Errorf("values of the listed conditions: %w", err)
	}
	if len(list) > 0 {
		again := query.NewWhere().GroupAND(list...)
		sql, raw := again.Render(0), again.RenderSQL()
		e, _, err := ParseExpr(sql)
		if err != nil {
			return fmt.Errorf("where clause of Conditions(): %w", err)
		}
		if err := equivalent(model.meaning(), exprFormula(e, again.Values())); err != nil {
			return fmt.Errorf("where clause of Conditions() renders %q / %q: %w", sql, raw, err)
		}
	}
	// the list is the caller's
	before := w.RenderSQL()
	for i := range list {
		list[i] = query.IsNull("overwritten")
	}
	if w.RenderSQL() != before || len(w.Conditions()) != len(list) {
		return fmt.Errorf("writing to the returned list changed the clause from %q to %q", before, w.RenderSQL())
	}
	return cb.err
}

// Conditions.

type FlagCase struct {
	C   *Cond      `json:"c"`
	J   string     `json:"j"`
	Neg bool       `json:"neg"`
	App []FieldApp `json:"app,omitempty"`
}

func genFlag(t *rapid.T) *FlagCase {
	x := &ids{}
	c := &FlagCase{J: genJoin(t), Neg: rapid.Bool().Draw(t, "neg")}
	o := condOpts{simple: true, custom: true}
	if rapid.Bool().Draw(t, "leaf") {
		c.C = genLeaf(t, x, o)
	} else {
		c.C = genCond(t, x, genSize(t, 8), o)
	}
	if rapid.Bool().Draw(t, "app") {
		f := genFieldRef(t, nil)
		if c.C.F != nil && rapid.Bool().Draw(t, "appsame") {
			f.N = c.C.F.N
		}
		f = normalRef(f)
		c.App = []FieldApp{{F: &f, Via: rapid.IntRange(0, 3).Draw(t, "appvia")}}
		if rapid.Bool().Draw(t, "apptab") {
			c.App = []FieldApp{{T: genIdent(t, "apptable")}}
		}
	}
	return c
}

// flags checks what a condition says about its join type and negation.
func flags(c query.Condition, j query.JoinType, neg bool) error {
	if c.JoinType() != j || c.JoinType().String() != string(j) {
		return fmt.Errorf("JoinType() is %q, expected %q", c.JoinType(), j)
	}
	if c.RenderJoin(true) != "" || c.RenderJoin(false) != string(j) {
		return fmt.Errorf("RenderJoin() is %q when first and %q otherwise, expected nothing and %q", c.RenderJoin(true), c.RenderJoin(false), j)
	}
	word := ""
	if neg {
		word = "NOT"
	}
	if c.IsNegate() != neg || c.RenderNegate() != word {
		return fmt.Errorf("IsNegate() is %v, RenderNegate() %q, expected %v", c.IsNegate(), c.RenderNegate(), neg)
	}
	return nil
}

type rendered struct {
	sql, num string
	name     query.FieldName
	vals     []any
}

func renderedOf(c query.Condition) rendered {
	return rendered{c.RenderSQL(), c.Render(11), c.FieldName(), c.Values()}
}

func (a rendered) same(b rendered) error {
	if a.sql != b.sql || a.num != b.num {
		return fmt.Errorf("renders %q, rendered %q before", b.sql, a.sql)
	}
	if a.name != b.name {
		return fmt.Errorf("field name is %q, was %q", b.name, a.name)
	}
	return sameParams(a.vals, b.vals)
}

func checkFlags(c *FlagCase, o *Obs) error {
	leaves, _ := c.C.count()
	o.label("root %s", c.C.Op)
	cb := &condBuilder{}
	b := cb.build(c.C)
	if cb.err != nil {
		return cb.err
	}
	x, j := b.C, b.C.JoinType()
	if j != query.LogicalAND && j != query.LogicalOR {
		return fmt.Errorf("join type %q", j)
	}
	o.nontrivial = b.base != nil
	o.labelIf(leaves >= 2, "several leaves")
	neg := x.IsNegate()
	if err := flags(x, j, neg); err != nil {
		return err
	}
	was := renderedOf(x)
	_, isLeaf := leafSQL[c.C.Op]
	if isLeaf && string(was.name) != c.C.F.N {
		return fmt.Errorf("FieldName() is %q, the condition is on %q", was.name, c.C.F.N)
	}
	g, group := x.(query.Group)
	if group && was.name != "" {
		return fmt.Errorf("a group has field name %q", was.name)
	}
	to := query.JoinType(c.J)
	joined := x.Join(to)
	for _, y := range []query.Condition{joined, to.Join(x), to.SetToAll(x)[0], x.Negate(neg).Join(to), x.Join(j).Join(to)} {
		if err := flags(y, to, neg); err != nil {
			return fmt.Errorf("after Join(%s): %w", to, err)
		}
		if err := was.same(renderedOf(y)); err != nil {
			return fmt.Errorf("after Join(%s): %w", to, err)
		}
	}
	for i, y := range to.SetToAll(x, joined, x.Negate(neg)) {
		if err := flags(y, to, neg); err != nil {
			return fmt.Errorf("SetToAll #%d: %w", i, err)
		}
	}
	if err := flags(x, j, neg); err != nil {
		return fmt.Errorf("the receiver after Join: %w", err)
	}
	turned := x.Negate(c.Neg)
	if err := flags(turned, j, c.Neg); err != nil {
		return fmt.Errorf("after Negate(%v): %w", c.Neg, err)
	}
	if err := sameParams(was.vals, turned.Values()); err != nil {
		return fmt.Errorf("after Negate(%v): %w", c.Neg, err)
	}
	if turned.FieldName() != was.name {
		return fmt.Errorf("after Negate(%v) the field name is %q, was %q", c.Neg, turned.FieldName(), was.name)
	}
	if err := was.same(renderedOf(turned.Negate(neg))); err != nil {
		return fmt.Errorf("negated and back: %w", err)
	}
	if err := renderedOf(x.Negate(true)).same(renderedOf(query.Not(x))); err != nil {
		return fmt.Errorf("Not and Negate(true): %w", err)
	}
	if err := flags(query.Not(x), j, true); err != nil {
		return fmt.Errorf("after Not: %w", err)
	}
	if b.base != nil {
		if err := condCheck(built{C: turned, base: b.base, neg: c.Neg}); err != nil {
			return fmt.Errorf("after Negate(%v): %w", c.Neg, err)
		}
	}
	if group {
		w := g.WithBrackets()
		if err := flags(w, j, neg); err != nil {
			return fmt.Errorf("after WithBrackets: %w", err)
		}
		if err := sameParams(was.vals, w.Values()); err != nil {
			return fmt.Errorf("after WithBrackets: %w", err)
		}
		if b.base != nil {
			if err := condCheck(built{C: w, base: b.base, neg: neg}); err != nil {
				return fmt.Errorf("after WithBrackets: %w", err)
			}
		}
	}
	for _, a := range c.App {
		var y query.Condition
		want := was.name
		if a.F == nil {
			y = x.ApplyFieldTable(query.TableName(a.T))
		} else {
			y = x.ApplyFieldSpec(a.F.def(a.Via))
		}
		o.label("field application")
		if err := flags(y, j, neg); err != nil {
			return fmt.Errorf("after a field application: %w", err)
		}
		if y.FieldName() != want {
			return fmt.Errorf("after a field application the field name is %q, was %q", y.FieldName(), want)
		}
		if err := sameParams(was.vals, y.Values()); err != nil {
			return fmt.Errorf("after a field application: %w", err)
		}
	}
	if err := was.same(renderedOf(x)); err != nil {
		return fmt.Errorf("the condition itself: %w", err)
	}
	return flags(x, j, neg)
}

// Small values: operations, join types, directions, names, base conditions, table identifiers.

type TokenCase struct {
	N   int      `json:"n"`
	Tab TabSpec  `json:"tab"`
	F   FieldRef `json:"f"`
	As  string   `json:"as"`
	J   string   `json:"j"`
	Neg bool     `json:"neg"`
	Dir string   `json:"dir"`
}

func genToken(t *rapid.T) *TokenCase {
	c := &TokenCase{N: rapid.IntRange(-3, 9).Draw(t, "n"), Tab: genTab(t), F: genFieldRef(t, nil), As: genIdent(t, "as"), J: genJoin(t), Neg: rapid.Bool().Draw(t, "neg"), Dir: rapid.SampledFrom([]string{"ASC", "DESC"}).Draw(t, "dir")}
	if rapid.IntRange(0, 4).Draw(t, "wide") == 0 {
		c.N = rapid.Int().Draw(t, "wide")
	}
	return c
}

func checkToken(c *TokenCase, o *Obs) error {
	o.nontrivial = true
	ops := map[query.Operation]string{query.DoSelect: "SELECT", query.DoInsert: "INSERT", query.DoUpdate: "UPDATE", query.DoDelete: "DELETE"}
	op := query.Operation(c.N)
	want, known := ops[op]
	if !known {
		want = fmt.Sprintf("unknown(%d)", c.N)
	}
	o.label("operation known=%v", known)
	if op.String() != want || op.New().Operation() != op {
		return fmt.Errorf("operation %d is %q, its builder has %v, expected %q", c.N, op.String(), op.New().Operation(), want)
	}
	if (query.BaseBuilder{}).Operation() != query.DoSelect {
		return errors.New("a builder without operation is not a select")
	}
	jt := query.TableJoinType(c.N)
	if c.N >= 0 && c.N < len(joinNames) {
		jt = joinTypes[c.N]
		if got := jt.String(); got != joinNames[c.N]+" JOIN" {
			return fmt.Errorf("join type %s is written %q", joinNames[c.N], got)
		}
	} else if got := jt.String(); got == "" || strings.HasPrefix(got, "INNER") || strings.HasPrefix(got, "LEFT") || strings.HasPrefix(got, "RIGHT") || strings.HasPrefix(got, "FULL") {
		return fmt.Errorf("invalid join type %d is written %q", c.N, got)
	}
	if got := query.JoinType(c.J).String(); got != c.J {
		return fmt.Errorf("JoinType %q is written %q", c.J, got)
	}
	if got := query.SortDirection(c.Dir).String(); got != c.Dir {
		return fmt.Errorf("SortDirection %q is written %q", c.Dir, got)
	}
	if got := query.FieldName(c.F.N).String(); got != c.F.N {
		return fmt.Errorf("FieldName %q is written %q", c.F.N, got)
	}
	if got := query.TableName(c.Tab.N).String(); got != c.Tab.N {
		return fmt.Errorf("TableName %q is written %q", c.Tab.N, got)
	}
	// a base condition, as embedded in conditions of other packages
	bc := query.BaseCondition{}
	x := bc.Join(query.JoinType(c.J)).Negate(c.Neg)
	y := bc.Negate(c.Neg).Join(query.JoinType(c.J))
	for _, z := range []query.BaseCondition{y, x.Negate(!c.Neg).Negate(c.Neg), x.Join("OR").Join("AND").Join(query.JoinType(c.J))} {
		if z.JoinType() != x.JoinType() || z.IsNegate() != x.IsNegate() {
			return errors.New("the order of Join and Negate matters for a base condition")
		}
	}
	word := ""
	if c.Neg {
		word = "NOT"
	}
	if string(x.JoinType()) != c.J || x.IsNegate() != c.Neg || x.RenderNegate() != word || x.RenderJoin(true) != "" || x.RenderJoin(false) != c.J {
		return fmt.Errorf("base condition set to %s, %v reports %s, %v, %q, %q", c.J, c.Neg, x.JoinType(), x.IsNegate(), x.RenderNegate(), x.RenderJoin(false))
	}
	if bc.JoinType() != "" || bc.IsNegate() {
		return errors.New("setting a copy changed the base condition")
	}
	// a table identifier
	id := c.Tab.ident()
	alias := c.Tab.A
	if alias == c.Tab.N {
		alias = ""
	}
	if string(id.TableName()) != c.Tab.N || string(id.Alias()) != alias {
		return fmt.Errorf("table %+v reports name %q, alias %q", c.Tab, id.TableName(), id.Alias())
	}
	from := c.Tab.N
	if alias != "" {
		from += " AS " + alias
	}
	if id.RenderFrom() != from {
		return fmt.Errorf("table %+v renders %q, expected %q", c.Tab, id.RenderFrom(), from)
	}
	sql, _, err := query.SelectFrom(id).BuildQueryAndParams()
	if err != nil || sql != "SELECT * FROM "+from {
		return fmt.Errorf("table %+v is selected from as %q, %v", c.Tab, sql, err)
	}
	of := alias
	if of == "" {
		of = c.Tab.N
	}
	f := id.Field(query.FieldName(c.F.N))
	if string(f.TableName()) != of || string(f.FieldName()) != c.F.N || f.RenderSpec() != of+"."+c.F.N {
		return fmt.Errorf("field of table %+v is %q", c.Tab, f.RenderSpec())
	}
	re := id.As(query.TableName(c.As))
	alias2 := c.As
	if alias2 == c.Tab.N {
		alias2 = ""
	}
	if re.TableName() != id.TableName() || string(re.Alias()) != alias2 || string(id.Alias()) != alias {
		return fmt.Errorf("As(%q) of table %+v reports name %q, alias %q", c.As, c.Tab, re.TableName(), re.Alias())
	}
	if back := re.As(query.TableName(alias)); back.TableName() != id.TableName() || back.Alias() != id.Alias() || back.RenderFrom() != id.RenderFrom() {
		return fmt.Errorf("table %+v differs after its alias was changed and set back", c.Tab)
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C25",
		Rule: "random select, insert, update and delete builders, where clauses, conditions of every kind with join type, negation and field applications set, and small values (operations, join types, names, tables); what they report is compared with what they build and with what was set; non-trivial: has fields, joins, values or conditions to report" + scaleRule,
		Parts: []Part{
			&part[StmtCase]{Name: "select", Quick: 40000, Thorough: 200000, Gen: func(t *rapid.T) *StmtCase { return genStmtCase(t, condOpts{custom: true}, true, false) }, Check: checkSelAccess},
			&part[StmtCase]{Name: "modify", Quick: 40000, Thorough: 200000, Gen: func(t *rapid.T) *StmtCase {
				c := genStmtCase(t, condOpts{custom: true}, false, true)
				blankTable(t, c.Mod)
				return c
			}, Check: checkModAccess},
			&part[SeqCase]{Name: "where", Quick: 40000, Thorough: 200000, Gen: genWhereAccess, Check: checkWhereAccess},
			&part[FlagCase]{Name: "conditions", Quick: 80000, Thorough: 400000, Gen: genFlag, Check: checkFlags},
			&part[TokenCase]{Name: "small", Quick: 20000, Thorough: 100000, Gen: genToken, Check: checkToken},
			&part[StmtCase]{Name: "scale", Quick: 600, Thorough: 2000, Gen: func(t *rapid.T) *StmtCase {
				return growStmtCase(condOpts{custom: true}, "SELECT", "INSERT", "UPDATE", "DELETE")(t)
			}, Check: func(c *StmtCase, o *Obs) error {
				if c.Sel != nil {
					return checkSelAccess(c, o)
				}
				return checkModAccess(c, o)
			}},
		},
	})
}
