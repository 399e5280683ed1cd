package main

// Conditions as data: a spec tree, a builder that makes the library object from it,
// and the model that gives its meaning.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// FieldRef is a field: table and alias are optional.
type FieldRef struct {
	T string `json:"t,omitempty"`
	N string `json:"n"`
	A string `json:"a,omitempty"`
}

func (f FieldRef) qualified() string {
	if f.T != "" {
		return f.T + "." + f.N
	}
	return f.N
}

// spec is the documented text form.
func (f FieldRef) spec() string {
	if f.A != "" {
		return f.qualified() + " AS " + f.A
	}
	return f.qualified()
}

// inCondition is how the field is referred to in conditions and orderings.
func (f FieldRef) inCondition() string {
	if f.A != "" && f.A != f.N {
		return f.A
	}
	return f.qualified()
}

// inSelect is the expected item of a select list.
func (f FieldRef) inSelect() SelItem {
	it := SelItem{Ref: f.qualified(), Alias: f.A}
	if f.A == f.N && f.T == "" {
		it.Alias = ""
	}
	return it
}

// def builds the definition; via selects the spelling.
func (f FieldRef) def(via int) query.FieldDefinition {
	if strings.Contains(f.T, ".") { // no text form has a table in a schema
		via |= 1
	}
	switch via % 4 {
	case 0:
		return query.Field(f.spec())
	case 1:
		d := query.Field(query.FieldName(f.N))
		if f.T != "" {
			d = d.Of(query.TableName(f.T))
		}
		if f.A != "" {
			d = d.As(query.FieldName(f.A))
		}
		return d
	case 2:
		d := query.FieldName(f.qualified()).Field()
		if f.A != "" {
			d = d.As(query.FieldName(f.A))
		}
		return d
	default:
		if f.T != "" {
			d := query.TableName(f.T).Field(query.FieldName(f.N))
			if f.A != "" {
				d = d.As(query.FieldName(f.A))
			}
			return d
		}
		return query.Field(query.FieldName(f.spec()))
	}
}

// Cond is a node of a condition program.
type Cond struct {
	Op   string    `json:"op"`             // leaf kinds, custom, and combinators, see build
	F    *FieldRef `json:"f,omitempty"`    // leaf field
	V    *Val      `json:"v,omitempty"`    // leaf value
	J    string    `json:"j,omitempty"`    // AND or OR for join, group, jtjoin
	B    bool      `json:"b,omitempty"`    // negate argument; leaf: built through FieldName method
	Kids []*Cond   `json:"kids,omitempty"` // first is the receiver where there is one
	N    int       `json:"n,omitempty"`    // custom: number of placeholders
	Sty  int       `json:"sty,omitempty"`  // custom: type and literal, see customStyle
}

// customStyle tells whether a custom condition names no field, whether it is of a value type, and its literal from 1.
func (c *Cond) customStyle() (anon, value bool, lit int) {
	return c.Sty%3 == 2, c.Sty/3%2 == 1, c.Sty / 6
}

func genCustomLeaf(t *rapid.T, x *ids, nph []int) *Cond {
	f := genFieldRef(t, x)
	f.A = ""
	sty := rapid.IntRange(0, 5).Draw(t, "type")
	if rapid.IntRange(0, 2).Draw(t, "literal") == 0 {
		sty += 6 * rapid.IntRange(1, len(customLits)).Draw(t, "lit")
	}
	return &Cond{Op: "custom", F: &f, V: &Val{K: "string", S: fmt.Sprintf("c%d", x.next()), N: x.next()}, N: rapid.SampledFrom(nph).Draw(t, "nph"), B: rapid.Bool().Draw(t, "style"), Sty: sty}
}

var leafOps = []string{"eq", "gt", "gte", "lt", "lte", "in", "isnull", "contains", "icontains"}

var leafSQL = map[string]string{"eq": "=", "gt": ">", "gte": ">=", "lt": "<", "lte": "<=", "in": "in", "isnull": "isnull", "contains": "like", "icontains": "ilike"}

// built is a library condition together with its model.
type built struct {
	C      query.Condition
	base   *Formula // meaning without the negation flag, nil for an empty group
	neg    bool
	params []any // values in tree order, for the parameter list
	fields []string
}

func (b built) meaning() *Formula {
	if b.base == nil {
		return nil
	}
	if b.neg {
		return fNot(b.base)
	}
	return b.base
}

func isGroup(c query.Condition) bool { _, ok := c.(query.Group); return ok }

type condBuilder struct {
	requal func(FieldRef) FieldRef // field application, if any
	err    error                   // documented fact violated during the build
	vals   []any                   // built Go values of leaves in order of building
}

func (cb *condBuilder) fail(f string, a ...any) {
	if cb.err == nil {
		cb.err = fmt.Errorf(f, a...)
	}
}

func (cb *condBuilder) list(kids []*Cond) (bs []built, cs []query.Condition) {
	for _, k := range kids {
		b := cb.build(k)
		bs = append(bs, b)
		cs = append(cs, b.C)
	}
	return
}

func lowerJoin(j query.JoinType) string { return strings.ToLower(string(j)) }

// seqMeaning is the meaning of a list of conditions, each joined by its own join type.
func seqMeaning(bs []built) *Formula {
	var fs []*Formula
	var ops []string
	for _, b := range bs {
		fs = append(fs, b.meaning())
		ops = append(ops, lowerJoin(b.C.JoinType()))
	}
	return fSeq(fs, ops)
}

// conjMeaning is the conjunction of a list of conditions.
func conjMeaning(bs []built) *Formula {
	var fs []*Formula
	for _, b := range bs {
		fs = append(fs, b.meaning())
	}
	return fJoin("and", fs...)
}

func allParams(bs ...built) (ps []any) {
	for _, b := range bs {
		ps = append(ps, b.params...)
	}
	return ps
}

// add is the model of receiver.And(list) and receiver.Or(list) for a group or a leaf.
func addModel(op string, recv built, list []built) built {
	res := built{params: append(append([]any{}, recv.params...), allParams(list...)...)}
	empty := true
	for _, b := range list {
		if b.base != nil {
			empty = false
		}
	}
	switch {
	case empty:
		res.base, res.neg = recv.base, recv.neg
	case recv.base == nil:
		res.base = seqMeaning(list)
	default:
		res.base = fJoin(op, recv.meaning(), conjMeaning(list))
	}
	return res
}

func (cb *condBuilder) build(c *Cond) (r built) {
	defer func() {
		if r.C == nil {
			cb.fail("%s returned nil condition", c.Op)
			panic(cb.err)
		}
	}()
	if op, isLeaf := leafSQL[c.Op]; isLeaf {
		return cb.leaf(c, op)
	}
	if c.Op == "custom" {
		return cb.buildCustom(c)
	}
	switch c.Op {
	case "not":
		k := cb.build(c.Kids[0])
		if k.base == nil {
			return k // negation of nothing is not a condition
		}
		k.C, k.neg = query.Not(k.C), true
		if !k.C.IsNegate() {
			cb.fail("IsNegate is false after Not")
		}
		return k
	case "rawnot": // of an empty condition
		k := cb.build(c.Kids[0])
		k.C = query.Not(k.C)
		return k
	case "negate":
		k := cb.build(c.Kids[0])
		if k.base == nil {
			return k
		}
		j := k.C.JoinType()
		k.C, k.neg = k.C.Negate(c.B), c.B
		if k.C.IsNegate() != c.B {
			cb.fail("IsNegate is %v after Negate(%v)", k.C.IsNegate(), c.B)
		}
		if k.C.JoinType() != j {
			cb.fail("Negate changed the join type from %q to %q", j, k.C.JoinType())
		}
		return k
	case "join":
		k := cb.build(c.Kids[0])
		neg := k.C.IsNegate()
		if c.B {
			k.C = query.JoinType(c.J).Join(k.C)
		} else {
			k.C = k.C.Join(query.JoinType(c.J))
		}
		if string(k.C.JoinType()) != c.J {
			cb.fail("join type is %q after Join(%s)", k.C.JoinType(), c.J)
		}
		if k.C.IsNegate() != neg {
			cb.fail("Join changed negation")
		}
		return k
	case "brackets":
		k := cb.build(c.Kids[0])
		if g, ok := k.C.(query.Group); ok {
			k.C = g.WithBrackets()
		}
		return k
	case "group", "jtjoin":
		bs, cs := cb.list(c.Kids)
		r = built{params: allParams(bs...)}
		var fs []*Formula
		for _, b := range bs {
			fs = append(fs, b.meaning())
		}
		r.base = fJoin(strings.ToLower(c.J), fs...)
		if c.Op == "group" {
			r.C = query.NewGroup(query.JoinType(c.J), cs...)
			if r.C.JoinType() != query.LogicalAND {
				cb.fail("NewGroup has external join %q, documented AND", r.C.JoinType())
			}
			return r
		}
		r.C = query.JoinType(c.J).Join(cs...)
		if len(cs) == 1 {
			r.base, r.neg = bs[0].base, bs[0].neg
			if string(r.C.JoinType()) != c.J {
				cb.fail("%s.Join gives join type %q", c.J, r.C.JoinType())
			}
		}
		return r
	case "mand", "mor", "fand", "for":
		recv := cb.build(c.Kids[0])
		bs, cs := cb.list(c.Kids[1:])
		op := "and"
		if c.Op == "mor" || c.Op == "for" {
			op = "or"
		}
		r = addModel(op, recv, bs)
		switch c.Op {
		case "mand":
			if g, ok := recv.C.(query.Group); ok && c.B {
				r.C = g.GroupAND(cs...)
			} else {
				r.C = recv.C.And(cs...)
			}
		case "mor":
			if g, ok := recv.C.(query.Group); ok && c.B {
				r.C = g.GroupOR(cs...)
			} else {
				r.C = recv.C.Or(cs...)
			}
		case "fand":
			r.C = query.And(recv.C, cs...)
			if len(cs) == 0 && r.C.JoinType() != query.LogicalAND {
				cb.fail("And(c) has join type %q", r.C.JoinType())
			}
		case "for":
			r.C = query.Or(recv.C, cs...)
			if r.C.JoinType() != query.LogicalOR {
				cb.fail("Or(...) has join type %q", r.C.JoinType())
			}
		}
		if r.neg && !r.C.IsNegate() { // nothing was added, but the negated condition became a member of a new group
			r.base, r.neg = r.meaning(), false
		}
		return r
	}
	panic("unknown condition op " + c.Op)
}

func (cb *condBuilder) fieldText(f FieldRef) string {
	if cb.requal != nil {
		f = cb.requal(f)
	}
	return f.inCondition()
}

func (cb *condBuilder) leaf(c *Cond, op string) built {
	fn := query.FieldName(c.F.spec())
	var g any
	if c.V != nil {
		g = c.V.Go()
		cb.vals = append(cb.vals, g)
	}
	ref := cb.fieldText(normalRef(*c.F))
	r := built{fields: []string{ref}}
	switch c.Op {
	case "eq":
		if c.B {
			r.C = fn.EqualTo(g)
		} else {
			r.C = query.EqualTo(fn, g)
		}
	case "gt":
		r.C = query.GreaterThan(fn, g)
	case "gte":
		r.C = query.GreaterOrEqual(fn, g)
	case "lt":
		r.C = query.Less(fn, g)
	case "lte":
		r.C = query.LessOrEqual(fn, g)
	case "in":
		if c.B {
			r.C = fn.In(g)
		} else {
			r.C = query.In(fn, g)
		}
	case "isnull":
		if c.B {
			r.C = fn.IsNull()
		} else {
			r.C = query.IsNull(fn)
		}
	case "contains":
		if c.B {
			r.C = fn.Contains(c.V.S)
		} else {
			r.C = query.Contains(fn, c.V.S)
		}
	case "icontains":
		if c.B {
			r.C = fn.IContains(c.V.S)
		} else {
			r.C = query.IContains(fn, c.V.S)
		}
	}
	args := []string{ref}
	switch c.Op {
	case "isnull":
	case "contains", "icontains":
		r.params = []any{"%" + c.V.S + "%"}
	case "in":
		r.params = c.V.listOfParams(g)
		if len(r.params) == 0 {
			r.base = &Formula{Op: "false"}
			if r.C.JoinType() != query.LogicalAND {
				cb.fail("new condition has join type %q", r.C.JoinType())
			}
			return r
		}
	default:
		r.params = []any{c.V.scalarOf(g)}
	}
	for _, p := range r.params {
		args = append(args, valText(p))
	}
	r.base = fAtom(op + "[" + strings.Join(args, ",") + "]")
	if r.C.JoinType() != query.LogicalAND || r.C.IsNegate() {
		cb.fail("new condition has join type %q, negate %v", r.C.JoinType(), r.C.IsNegate())
	}
	return r
}

// normalRef applies the documented rule: alias equal to an unqualified name is empty.
func normalRef(f FieldRef) FieldRef {
	if f.T == "" && f.A == f.N {
		f.A = ""
	}
	return f
}

// customCond is a condition type defined outside of the library.
type customCond struct {
	query.BaseCondition
	name   string
	f      FieldRef
	n      int
	params []any
	style  int
	anon   bool   // reports no field name: a condition on an expression
	lit    string // an SQL string literal among the arguments of the function
}

// customLits are literals in the text of custom conditions: nothing in them is a placeholder, bracket or keyword.
var customLits = []string{"'?'", "'? and $1'", "'it''s (?'", "'  OR  ) '", "'\"?\"'", "'$3'", "'a,b;-- '", "''", "'\n\t?'", "'%d %s'", "'$$'", "' AND '", "' LIMIT 1'", "' WHERE '", "' ORDER BY a'", "'$1 OFFSET $2'", "' FROM t'", "'SELECT * FROM t'", "'NOT ('", "' OR '", "' = $1'", "'SET a = ?'", "' JOIN t ON '", "'COUNT(*)'", "' LIMIT $1'", "' limit 1'", "'%!d(MISSING)'", "'/*'", "'\\'"}

func newCustom(name string, f FieldRef, n int, params []any, style int) *customCond {
	c := &customCond{name: name, f: f, n: n, params: params, style: style}
	c.BaseCondition = c.BaseCondition.Join(query.LogicalAND)
	return c
}

// called is called by the methods that give the text or values of the condition.
func (c *customCond) called() {
	callback()
	if len(c.f.N)%3 == 0 {
		inner()
	}
}

func (c *customCond) text(ph func(int) string) string {
	c.called()
	var s string
	field := c.f.inCondition()
	if c.style%2 == 1 && c.n == 2 {
		s = field + " BETWEEN " + ph(0) + " AND " + ph(1)
	} else {
		args := []string{field}
		for i := 0; i < c.n; i++ {
			args = append(args, ph(i))
		}
		if c.lit != "" {
			args = append(args[:1], append([]string{c.lit}, args[1:]...)...)
		}
		s = c.name + "(" + strings.Join(args, ",") + ")"
	}
	if c.IsNegate() {
		s = "NOT " + s
	}
	return s
}
func (c *customCond) Render(n int) string {
	return c.text(func(i int) string { return "$" + strconv.Itoa(n+i+1) })
}
func (c *customCond) RenderSQL() string { return c.text(func(int) string { return "?" }) }
func (c *customCond) Values() []any {
	c.called()
	if c.n == 0 {
		return nil
	}
	return append([]any{}, c.params...)
}
func (c *customCond) withJoin(j query.JoinType) *customCond {
	d := *c
	d.BaseCondition = d.BaseCondition.Join(j)
	return &d
}
func (c *customCond) withNegate(b bool) *customCond {
	d := *c
	d.BaseCondition = d.BaseCondition.Negate(b)
	return &d
}
func (c *customCond) withSpec(s query.FieldDefinition) *customCond {
	d := *c
	if string(s.FieldName()) == c.f.N {
		d.f = FieldRef{T: string(s.TableName()), N: c.f.N, A: string(s.Alias())}
	}
	return &d
}
func (c *customCond) withTable(tn query.TableName) *customCond {
	d := *c
	d.f.T = string(tn)
	return &d
}
func (c *customCond) Join(j query.JoinType) query.Condition     { return c.withJoin(j) }
func (c *customCond) Negate(b bool) query.Condition             { return c.withNegate(b) }
func (c *customCond) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c *customCond) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c *customCond) FieldName() query.FieldName {
	if c.anon {
		return ""
	}
	return query.FieldName(c.f.N)
}
func (c *customCond) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	return c.withSpec(s)
}
func (c *customCond) ApplyFieldTable(tn query.TableName) query.Condition { return c.withTable(tn) }

// customVal is the same as a value type that is not comparable.
type customVal struct {
	*customCond
	tag []int
}

func (c customVal) Join(j query.JoinType) query.Condition {
	return customVal{c.customCond.withJoin(j), c.tag}
}
func (c customVal) Negate(b bool) query.Condition {
	return customVal{c.customCond.withNegate(b), c.tag}
}
func (c customVal) And(cs ...query.Condition) query.Condition {
	return query.And(c, cs...)
}
func (c customVal) Or(cs ...query.Condition) query.Condition { return query.Or(c, cs...) }
func (c customVal) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	return customVal{c.customCond.withSpec(s), c.tag}
}
func (c customVal) ApplyFieldTable(tn query.TableName) query.Condition {
	return customVal{c.customCond.withTable(tn), c.tag}
}

func (cb *condBuilder) buildCustom(c *Cond) built {
	f := *c.F
	f.A = ""
	var params []any
	for i := 0; i < c.N; i++ {
		params = append(params, fmt.Sprintf("%s-%d", c.V.S, i))
	}
	style := 0
	if c.B {
		style = 1
	}
	name := "fn_" + strconv.FormatInt(c.V.N, 10)
	own := newCustom(name, f, c.N, params, style)
	anon, value, lit := c.customStyle()
	own.anon = anon
	if lit > 0 && !(style == 1 && c.N == 2) {
		own.lit = customLits[(lit-1)%len(customLits)]
	}
	var cc query.Condition = own
	if value {
		cc = customVal{own, []int{1}}
	}
	ref := cb.fieldText(f)
	args := []string{ref}
	if own.lit != "" {
		args = append(args, own.lit)
	}
	for _, p := range params {
		args = append(args, valText(p))
	}
	atom := "func[" + name + "(" + strings.Join(args, ",") + ")]"
	if style == 1 && c.N == 2 {
		atom = "between[" + strings.Join(args, ",") + "]"
	}
	return built{C: cc, base: fAtom(atom), params: params}
}

// Generators.

var names = []string{"a", "b", "id", "name", "f1", "user_id", "from_date", "x_AND_y", "order_no", "selected", "WHEREabouts", "created_at", "поле", "字段", "Ünï", "notnull", "inx", "isnull_", "likes", "as_of", "N", "_x", "x1y2", "limit_", "NOTE", "android", "ORacle", "count_", "a#1", "u@h", "sys$id", "p$1", "x$2y", "tail$", "A", "ID", "Name", "User_Id", "n"}

func genIdent(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"?") != 0 {
		return rapid.SampledFrom(names).Draw(t, label)
	}
	if rapid.IntRange(0, 9).Draw(t, label+"long?") == 0 { // alike up to lengths at which databases cut names
		return longIdent(rapid.SampledFrom([]int{31, 32, 63, 64, 65, 127, 128, 130, 260}).Draw(t, label+"len"), rapid.IntRange(0, 3).Draw(t, label+"end"))
	}
	s := rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_$]{0,8}`).Draw(t, label)
	if isKeyword(s) {
		s += "_"
	}
	return s
}

func longIdent(n, end int) string {
	return strings.Repeat("long_name_", n/10+1)[:n-1] + string(rune('a'+end))
}

// genQual draws a table to qualify a field by, now and then with its schema.
func genQual(t *rapid.T, label string) string {
	n := genIdent(t, label)
	if rapid.IntRange(0, 7).Draw(t, label+"schema") == 0 {
		n = rapid.SampledFrom([]string{"public.", "s1.", "Audit."}).Draw(t, label+"of") + n
	}
	return n
}

// genFieldRef draws a field; in conditions uniq makes the name unique.
func genFieldRef(t *rapid.T, x *ids) FieldRef {
	f := FieldRef{N: genIdent(t, "field")}
	if x != nil && rapid.IntRange(0, 4).Draw(t, "uniq") != 0 {
		f.N = fmt.Sprintf("%s_%d", f.N, x.next())
	}
	switch rapid.IntRange(0, 9).Draw(t, "fform") {
	case 0, 1, 2:
		f.T = genIdent(t, "ftable")
	case 3:
		f.A = genIdent(t, "falias")
	case 4:
		f.T = genIdent(t, "ftable")
		f.A = genIdent(t, "falias")
		if rapid.IntRange(0, 3).Draw(t, "aliaseq") == 0 {
			f.A = f.N
		}
	case 5:
		f.A = f.N
	}
	return f
}

type condOpts struct {
	custom bool // allow custom conditions
	simple bool // only int and string values
	noIn   bool
}

func genLeaf(t *rapid.T, x *ids, o condOpts) *Cond {
	if o.custom && rapid.IntRange(0, 2).Draw(t, "custom") == 0 {
		return genCustomLeaf(t, x, []int{0, 1, 2, 2, 3, 5})
	}
	f := genFieldRef(t, x)
	c := &Cond{Op: rapid.SampledFrom(leafOps).Draw(t, "leaf"), F: &f, B: rapid.Bool().Draw(t, "via")}
	var v Val
	switch c.Op {
	case "isnull":
		return c
	case "contains", "icontains":
		v = genScalarOfKind(t, x, "string")
	case "in":
		v = genInVal(t, x)
	default:
		if o.simple {
			v = genScalarOfKind(t, x, rapid.SampledFrom([]string{"int", "string"}).Draw(t, "k"))
		} else {
			v = genScalar(t, x)
		}
	}
	c.V = &v
	return c
}

// genCond draws a condition of about size nodes.
func genCond(t *rapid.T, x *ids, size int, o condOpts) *Cond {
	if size <= 1 {
		if rapid.IntRange(0, 25).Draw(t, "empty") == 0 {
			return &Cond{Op: "group", J: genJoin(t)}
		}
		return genLeaf(t, x, o)
	}
	switch rapid.SampledFrom([]string{"leaf", "mand", "mor", "mand", "mor", "fand", "for", "group", "not", "not", "negate", "join", "brackets", "jtjoin"}).Draw(t, "op") {
	case "leaf":
		return genLeaf(t, x, o)
	case "not":
		return &Cond{Op: "not", Kids: []*Cond{genCond(t, x, size-1, o)}}
	case "negate":
		return &Cond{Op: "negate", B: rapid.Bool().Draw(t, "nb"), Kids: []*Cond{genCond(t, x, size-1, o)}}
	case "join":
		return &Cond{Op: "join", J: genJoin(t), B: rapid.Bool().Draw(t, "jvia"), Kids: []*Cond{genCond(t, x, size-1, o)}}
	case "brackets":
		return &Cond{Op: "brackets", Kids: []*Cond{genCond(t, x, size-1, o)}}
	case "group":
		return &Cond{Op: "group", J: genJoin(t), Kids: genConds(t, x, size-1, 0, o)}
	case "jtjoin":
		return &Cond{Op: "jtjoin", J: genJoin(t), Kids: genConds(t, x, size-1, 0, o)}
	case "mand":
		return &Cond{Op: "mand", B: rapid.Bool().Draw(t, "grp"), Kids: genConds(t, x, size-1, 1, o)}
	case "mor":
		return &Cond{Op: "mor", B: rapid.Bool().Draw(t, "grp"), Kids: genConds(t, x, size-1, 1, o)}
	case "fand":
		return &Cond{Op: "fand", Kids: genConds(t, x, size-1, 1, o)}
	default:
		return &Cond{Op: "for", Kids: genConds(t, x, size-1, 1, o)}
	}
}

func genJoin(t *rapid.T) string { return rapid.SampledFrom([]string{"AND", "OR"}).Draw(t, "join") }

// genConds splits size among at least min conditions.
// alike gives a condition of the same structure with other leaves.
func alike(t *rapid.T, x *ids, c *Cond, o condOpts) *Cond {
	if len(c.Kids) == 0 && c.F != nil {
		return genLeaf(t, x, o)
	}
	d := *c
	d.Kids = nil
	for _, k := range c.Kids {
		d.Kids = append(d.Kids, alike(t, x, k, o))
	}
	return &d
}

func genConds(t *rapid.T, x *ids, size, min int, o condOpts) []*Cond {
	max := 4
	if rapid.IntRange(0, 20).Draw(t, "widecond") == 0 {
		max = 9
	}
	n := rapid.IntRange(min, max).Draw(t, "kids")
	if n == 0 {
		return nil
	}
	res := make([]*Cond, n)
	if n >= 2 && size >= 3 && rapid.IntRange(0, 7).Draw(t, "alike") == 0 {
		// members of the same structure
		s := rapid.IntRange(1, 1+2*size/n).Draw(t, "kidsize")
		if s > size-1 {
			s = size - 1
		}
		res[0] = genCond(t, x, s, o)
		for i := 1; i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, "other") == 0 {
				res[i] = genCond(t, x, s, o)
			} else {
				res[i] = alike(t, x, res[0], o)
			}
		}
		return res
	}
	for i := range res {
		s := 1
		if size > n {
			s = rapid.IntRange(1, size-n+1).Draw(t, "ksize")
		}
		size -= s
		res[i] = genCond(t, x, s, o)
	}
	return res
}

func genSize(t *rapid.T, max int) int {
	if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
		return rapid.IntRange(1, 4*max).Draw(t, "size")
	}
	return rapid.IntRange(1, max).Draw(t, "size")
}

// countNodes gives number of leaves and of combinators.
func (c *Cond) count() (leaves, ops int) {
	if len(c.Kids) == 0 {
		if c.F != nil {
			return 1, 0
		}
		return 0, 1
	}
	ops = 1
	for _, k := range c.Kids {
		l, o := k.count()
		leaves += l
		ops += o
	}
	return
}

func countConds(cs []*Cond) (leaves, ops int) {
	for _, c := range cs {
		l, o := c.count()
		leaves += l
		ops += o
	}
	return
}

// condCheck verifies text and values of a condition against its model.
func condCheck(b built) error {
	m := b.meaning()
	sql := b.C.Render(0)
	vals := b.C.Values()
	if m == nil {
		if sql != "" || len(vals) != 0 || b.C.RenderSQL() != "" {
			return fmt.Errorf("empty condition renders %q / %q with values %s", sql, b.C.RenderSQL(), showParams(vals))
		}
		return nil
	}
	e, phs, err := ParseExpr(sql)
	if err != nil {
		return fmt.Errorf("malformed condition: %w", err)
	}
	if err := checkDollars(phs, 0, len(vals)); err != nil {
		return fmt.Errorf("%w in %q", err, sql)
	}
	if err := equivalent(m, exprFormula(e, vals)); err != nil {
		return fmt.Errorf("%w; rendered %q with %s", err, sql, showParams(vals))
	}
	raw := b.C.RenderSQL()
	e, phs, err = ParseExpr(raw)
	if err != nil {
		return fmt.Errorf("malformed condition: %w", err)
	}
	if err := checkQuests(phs, len(vals)); err != nil {
		return fmt.Errorf("%w in %q", err, raw)
	}
	if err := equivalent(m, exprFormula(e, vals)); err != nil {
		return fmt.Errorf("%w; rendered %q with %s", err, raw, showParams(vals))
	}
	return nil
}

var errSkip = errors.New("skip")
