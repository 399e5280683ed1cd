package main

// Statement programs as data: sequences of builder calls, executed against the library and against a model.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type TabSpec struct {
	N   string `json:"n"`
	A   string `json:"a,omitempty"`
	Via int    `json:"via,omitempty"`
}

func (ts TabSpec) text() string {
	if ts.A == "" {
		return ts.N
	}
	switch ts.Via % 3 {
	case 0:
		return ts.N + " AS " + ts.A
	case 1:
		return ts.N + " as " + ts.A
	}
	return ts.N + " " + ts.A
}

func (ts TabSpec) ident() query.TableIdent {
	if ts.N == "" { // no table at all
		return query.TableIdent{}
	}
	switch (ts.Via / 3) % 3 {
	case 0:
		return query.Table(ts.text())
	case 1:
		i := query.TableName(ts.N).Ident()
		if ts.A != "" {
			i = i.As(query.TableName(ts.A))
		}
		return i
	}
	return query.Table(query.TableName(ts.text()))
}

func (ts TabSpec) ref() TabRef {
	if ts.A == ts.N {
		return TabRef{Name: ts.N}
	}
	return TabRef{Name: ts.N, Alias: ts.A}
}

type OrderSpec struct {
	F   FieldRef `json:"f"`
	Dir string   `json:"dir"` // ASC, DESC
	Via int      `json:"via,omitempty"`
}

func (o OrderSpec) sorting() query.FieldSorting {
	fn := query.FieldName(o.F.qualified())
	var s query.FieldSorting
	switch {
	case o.Via%2 == 0 && o.Dir == "ASC":
		s = query.ASC(fn)
	case o.Via%2 == 0:
		s = query.DESC(fn)
	case o.Dir == "ASC" && o.Via%4 == 1:
		s = query.OrderBy(fn)
	default:
		s = query.OrderBy(fn, query.SortDirection(o.Dir))
	}
	if o.F.A != "" {
		s = s.ApplyFieldSpec(o.F.def(o.Via / 4))
	}
	return s
}

func (o OrderSpec) item() OrderItem { return OrderItem{Ref: o.F.inCondition(), Dir: o.Dir} }

type SelOp struct {
	Op  string      `json:"op"`
	Fs  []FieldRef  `json:"fs,omitempty"`
	Cs  []*Cond     `json:"cs,omitempty"`
	Os  []OrderSpec `json:"os,omitempty"`
	N   int64       `json:"n,omitempty"`
	JT  int         `json:"jt,omitempty"`
	Tab *TabSpec    `json:"tab,omitempty"`
	L   *FieldRef   `json:"l,omitempty"`
	R   *FieldRef   `json:"r,omitempty"`
	Via int         `json:"via,omitempty"`
}

type SelProg struct {
	Table TabSpec `json:"table"`
	Entry int     `json:"entry"`
	First []*Cond `json:"first,omitempty"` // conditions given to the entry point
	Join  *SelOp  `json:"join,omitempty"`  // join given to the entry point
	Ops   []SelOp `json:"ops,omitempty"`
}

// Expect is what a statement must say.
type Expect struct {
	Kind      string
	Count     string // counted field
	Items     []SelItem
	From      TabRef
	Joins     []JoinRef
	Where     *Formula
	WhereVals []any
	Order     []OrderItem
	Offset    uint64
	Limit     int64 // <=0 none
	Single    bool
	Columns   []string
	ColVals   []any
}

type selState struct {
	kind   string // base, single, many
	base   query.BaseSelectBuilder
	single query.SelectSingleBuilder
	many   query.SelectManyBuilder
	// model
	table  TabSpec
	fields []FieldRef
	joins  []JoinRef
	where  built
	order  []OrderItem
	offset uint64
	limit  int64
	cb     *condBuilder
}

var joinTypes = []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin}
var joinNames = []string{"INNER", "LEFT", "RIGHT", "FULL"}

func (s *selState) addWhere(bs []built) {
	m := addModel("and", s.where, bs)
	m.neg = false
	s.where = m
}

const nEntries = 17

// runSel executes the program.
func runSel(p *SelProg, cb *condBuilder) *selState {
	s := &selState{table: p.Table, cb: cb}
	txt, tn, id := p.Table.text(), query.TableName(p.Table.text()), p.Table.ident()
	var bs []built
	var cs []query.Condition
	conds := func() []query.Condition { bs, cs = cb.list(p.First); s.addWhere(bs); return cs }
	switch p.Entry % nEntries {
	case 0:
		s.kind, s.base = "base", query.SelectFrom(txt)
	case 1:
		s.kind, s.base = "base", query.SelectFrom(tn)
	case 2:
		s.kind, s.base = "base", query.SelectFrom(id)
	case 3:
		s.kind, s.base = "base", tn.Select(conds()...)
	case 4:
		s.kind, s.base = "base", id.Select(conds()...)
	case 5:
		s.kind, s.single = "single", query.SelectSingleFrom(txt)
	case 6:
		s.kind, s.single = "single", query.SelectSingleFrom(id)
	case 7:
		s.kind, s.single = "single", tn.SelectOne(conds()...)
	case 8:
		s.kind, s.single = "single", id.SelectOne(conds()...)
	case 9:
		s.kind, s.single = "single", query.SelectSingleFromBase(query.SelectFrom(tn))
	case 10:
		s.kind, s.many = "many", query.SelectManyFrom(txt)
	case 11:
		s.kind, s.many = "many", query.SelectManyFrom(id)
	case 12:
		s.kind, s.many = "many", tn.SelectMany(conds()...)
	case 13:
		s.kind, s.many = "many", id.SelectMany(conds()...)
	case 14:
		s.kind, s.many = "many", query.SelectManyFromBase(query.SelectFrom(txt))
	case 15, 16: // entry through a join
		s.kind = "base"
		j := p.Join
		if j == nil {
			s.base = query.SelectFrom(id)
			break
		}
		right := j.Tab.ident()
		l, r := j.L.def(j.Via), j.R.def(j.Via/4)
		jt := joinTypes[j.JT%4]
		var on query.IncompleteSelectJoin
		switch (j.Via / 16) % 5 {
		case 0:
			on = tn.Join(right, jt)
		case 1:
			on = id.Join(right, jt)
		case 2:
			on = jt.Tables(id, right)
		case 3:
			switch jt {
			case query.InnerJoin:
				on = tn.InnerJoin(right)
			case query.LeftJoin:
				on = tn.LeftJoin(right)
			case query.RightJoin:
				on = tn.RightJoin(right)
			default:
				on = tn.FullJoin(right)
			}
		default:
			switch jt {
			case query.InnerJoin:
				on = id.InnerJoin(right)
			case query.LeftJoin:
				on = id.LeftJoin(right)
			case query.RightJoin:
				on = id.RightJoin(right)
			default:
				on = id.FullJoin(right)
			}
		}
		s.base = on.On(l, r)
		s.joins = append(s.joins, joinModel(*j))
	}
	for i := range p.Ops {
		s.apply(&p.Ops[i])
	}
	return s
}

func joinModel(j SelOp) JoinRef {
	return JoinRef{Type: joinNames[j.JT%4], Table: j.Tab.ref(), Left: j.L.T + "." + j.L.N, Right: j.R.T + "." + j.R.N}
}

func (s *selState) apply(o *SelOp) {
	switch o.Op {
	case "fields":
		defs := make([]query.FieldDefinition, len(o.Fs))
		for i, f := range o.Fs {
			defs[i] = f.def(o.Via + i)
		}
		switch s.kind {
		case "base":
			s.base = s.base.Fields(defs...)
		case "single":
			s.single = s.single.Fields(defs...)
		case "many":
			s.many = s.many.Fields(defs...)
		}
		s.fields = o.Fs
	case "where":
		bs, cs := s.cb.list(o.Cs)
		switch s.kind {
		case "base":
			s.base = s.base.Where(cs...)
		case "single":
			s.single = s.single.Where(cs...)
		case "many":
			s.many = s.many.Where(cs...)
		}
		s.addWhere(bs)
	case "join":
		l, r := o.L.def(o.Via), o.R.def(o.Via/4)
		jt := joinTypes[o.JT%4]
		short := (o.Via/16)%2 == 1
		id, tn := o.Tab.ident(), query.TableName(o.Tab.text())
		switch s.kind {
		case "base":
			var on query.IncompleteSelectJoin
			switch {
			case !short:
				on = s.base.Join(id, jt)
			case jt == query.InnerJoin:
				on = s.base.InnerJoin(id)
			case jt == query.LeftJoin:
				on = s.base.LeftJoin(id)
			case jt == query.RightJoin:
				on = s.base.RightJoin(id)
			default:
				on = s.base.FullJoin(id)
			}
			s.base = on.On(l, r)
		case "single":
			var on query.IncompleteSelectSingleJoiner
			switch {
			case !short:
				on = s.single.Join(tn, jt)
			case jt == query.InnerJoin:
				on = s.single.InnerJoin(tn)
			case jt == query.LeftJoin:
				on = s.single.LeftJoin(tn)
			case jt == query.RightJoin:
				on = s.single.RightJoin(tn)
			default:
				on = s.single.FullJoin(tn)
			}
			s.single = on.On(l, r)
		case "many":
			var on query.IncompleteSelectManyJoiner
			switch {
			case !short:
				on = s.many.Join(tn, jt)
			case jt == query.InnerJoin:
				on = s.many.InnerJoin(tn)
			case jt == query.LeftJoin:
				on = s.many.LeftJoin(tn)
			case jt == query.RightJoin:
				on = s.many.RightJoin(tn)
			default:
				on = s.many.FullJoin(tn)
			}
			s.many = on.On(l, r)
		}
		s.joins = append(s.joins, joinModel(*o))
	case "order":
		ss := make([]query.FieldSorting, len(o.Os))
		for i, x := range o.Os {
			ss[i] = x.sorting()
		}
		switch s.kind {
		case "base":
			s.many = s.base.OrderBy(ss...)
		case "single":
			s.many = s.single.OrderBy(ss...)
		case "many":
			s.many = s.many.OrderBy(ss...)
		}
		s.toMany()
		for _, x := range o.Os {
			s.order = append(s.order, x.item())
		}
	case "offset":
		switch s.kind {
		case "base":
			s.many = s.base.Offset(uint(o.N))
		case "single":
			s.many = s.single.Offset(uint(o.N))
		case "many":
			s.many = s.many.Offset(uint(o.N))
		}
		s.toMany()
		s.offset = uint64(uint(o.N))
	case "limit":
		switch s.kind {
		case "base":
			s.many = s.base.Limit(int(o.N))
		case "single":
			s.many = s.single.Limit(int(o.N))
		case "many":
			s.many = s.many.Limit(int(o.N))
		}
		s.toMany()
		s.limit = o.N
	case "single":
		switch s.kind {
		case "base":
			s.single = s.base.Single()
		case "single":
			s.single = s.single.Single()
		case "many":
			s.single = s.many.Single()
		}
		s.reset("single")
	case "many":
		switch s.kind {
		case "base":
			s.many = s.base.Many()
		case "single":
			s.many = s.single.Many()
		case "many":
			s.many = s.many.Many()
		}
		s.reset("many")
	case "tobase":
		switch s.kind {
		case "single":
			s.base = s.single.BaseSelectBuilder
		case "many":
			s.base = s.many.BaseSelectBuilder
		}
		s.reset("base")
	default:
		panic("unknown select op " + o.Op)
	}
}

// toMany: the call turned the builder into a many-select with default pagination.
func (s *selState) toMany() {
	if s.kind != "many" {
		s.reset("many")
	}
}

func (s *selState) reset(kind string) {
	s.kind = kind
	s.order, s.offset, s.limit = nil, 0, 0
}

func (s *selState) build() (string, []any, error) {
	switch s.kind {
	case "base":
		return s.base.BuildQueryAndParams()
	case "single":
		return s.single.BuildQueryAndParams()
	}
	return s.many.BuildQueryAndParams()
}

func (s *selState) renderAt(n int) string {
	switch s.kind {
	case "base":
		return s.base.Render(n)
	case "single":
		return s.single.Render(n)
	}
	return s.many.Render(n)
}

func (s *selState) renderSQL() string {
	switch s.kind {
	case "base":
		return s.base.RenderSQL()
	case "single":
		return s.single.RenderSQL()
	}
	return s.many.RenderSQL()
}

func (s *selState) values() []any {
	switch s.kind {
	case "base":
		return s.base.Values()
	case "single":
		return s.single.Values()
	}
	return s.many.Values()
}

func (s *selState) renderFrom() string {
	switch s.kind {
	case "base":
		return s.base.RenderFrom()
	case "single":
		return s.single.RenderFrom()
	}
	return s.many.RenderFrom()
}

func (s *selState) expect() *Expect {
	e := &Expect{Kind: "SELECT", From: s.table.ref(), Joins: s.joins, Where: s.where.meaning(), WhereVals: s.where.params, Order: s.order, Offset: s.offset, Limit: s.limit, Single: s.kind == "single"}
	if len(s.fields) == 0 {
		e.Items = []SelItem{{Ref: "*"}}
	}
	for _, f := range s.fields {
		e.Items = append(e.Items, f.inSelect())
	}
	return e
}

// count, update, delete, insert derive statements.
func (s *selState) count(field ...query.FieldName) query.CountBuilder {
	if len(field) > 0 {
		switch s.kind {
		case "base":
			return query.Count(s.base, field...)
		case "single":
			return query.Count(s.single.BaseSelectBuilder, field...)
		}
		return query.Count(s.many.BaseSelectBuilder, field...)
	}
	switch s.kind {
	case "base":
		return s.base.Count()
	case "single":
		return s.single.Count()
	}
	return s.many.Count()
}

func (s *selState) update(fvs ...query.FieldValue) query.UpdateBuilder {
	switch s.kind {
	case "base":
		return s.base.Update(fvs...)
	case "single":
		return s.single.Update(fvs...)
	}
	return s.many.Update(fvs...)
}

func (s *selState) delete() query.DeleteBuilder {
	switch s.kind {
	case "base":
		return s.base.Delete()
	case "single":
		return s.single.Delete()
	}
	return s.many.Delete()
}

func (s *selState) insert(fvs ...query.FieldValue) query.InsertBuilder {
	switch s.kind {
	case "base":
		return s.base.InsertInto(fvs...)
	case "single":
		return s.single.InsertInto(fvs...)
	}
	return s.many.InsertInto(fvs...)
}

// FV is a field with a value.
type FV struct {
	F   FieldRef `json:"f"`
	V   Val      `json:"v"`
	Via int      `json:"via,omitempty"`
}

// make builds the field value and gives the parameter expected for it.
func (fv FV) make() (query.FieldValue, any) {
	g := fv.V.Go()
	want := fv.V.scalarOf(g)
	switch fv.Via % 4 {
	case 0:
		return *query.NewFieldValue(query.FieldName(fv.F.spec()), g), want
	case 1:
		return query.FieldName(fv.F.spec()).Value(g), want
	case 2:
		return fv.F.def(fv.Via / 4).Value(g), want
	default:
		v := query.NewFieldValue(query.FieldName(fv.F.N), g)
		if fv.F.T != "" {
			return v.ApplyFieldTable(query.TableName(fv.F.T)), want
		}
		return *v, want
	}
}

func makeFVs(fvs []FV) (vs []query.FieldValue, cols []string, want []any) {
	for _, fv := range fvs {
		v, w := fv.make()
		vs = append(vs, v)
		cols = append(cols, fv.F.N)
		want = append(want, w)
	}
	return
}

// ModOp is a call of an INSERT, UPDATE or DELETE builder.
type ModOp struct {
	Op  string  `json:"op"` // set, where
	FVs []FV    `json:"fvs,omitempty"`
	Cs  []*Cond `json:"cs,omitempty"`
}

type ModProg struct {
	Kind  string   `json:"kind"` // INSERT UPDATE DELETE
	Table TabSpec  `json:"table"`
	Entry int      `json:"entry"`
	First ModOp    `json:"first"` // arguments of the entry point, if it takes any
	Sel   *SelProg `json:"sel,omitempty"`
	Ops   []ModOp  `json:"ops,omitempty"`
}

type modState struct {
	kind  string
	ins   query.InsertBuilder
	upd   query.UpdateBuilder
	del   query.DeleteBuilder
	table string
	cols  []string
	vals  []any
	where built
	cb    *condBuilder
	fvs   []query.FieldValue
}

func (m *modState) set(fvs []FV) []query.FieldValue {
	vs, cols, want := makeFVs(fvs)
	m.cols = append(m.cols, cols...)
	m.vals = append(m.vals, want...)
	m.fvs = append(m.fvs, vs...)
	return vs
}

func (m *modState) addWhere(cs []*Cond) []query.Condition {
	bs, lib := m.cb.list(cs)
	w := addModel("and", m.where, bs)
	w.neg = false
	m.where = w
	return lib
}

func runMod(p *ModProg, cb *condBuilder) *modState {
	m := &modState{kind: p.Kind, table: p.Table.N, cb: cb}
	name, tn, id := p.Table.N, query.TableName(p.Table.N), p.Table.ident()
	var sel *selState
	if p.Sel != nil {
		sel = runSel(p.Sel, cb)
		m.table = sel.table.N
		if p.Kind != "INSERT" {
			m.where = sel.where
		}
	}
	switch p.Kind {
	case "INSERT":
		switch {
		case sel != nil:
			m.ins = sel.insert(m.set(p.First.FVs)...)
		case p.Entry%5 == 0:
			m.ins = query.InsertInto(name)
		case p.Entry%5 == 1:
			m.ins = query.InsertInto(tn)
		case p.Entry%5 == 2:
			m.ins = query.InsertInto(id)
		case p.Entry%5 == 3:
			m.ins = tn.InsertInto(m.set(p.First.FVs)...)
		default:
			m.ins = id.InsertInto(m.set(p.First.FVs)...)
		}
	case "UPDATE":
		switch {
		case sel != nil:
			m.upd = sel.update(m.set(p.First.FVs)...)
		case p.Entry%5 == 0:
			m.upd = query.Update(name)
		case p.Entry%5 == 1:
			m.upd = query.Update(tn)
		case p.Entry%5 == 2:
			m.upd = query.Update(id)
		case p.Entry%5 == 3:
			m.upd = tn.Update(m.set(p.First.FVs)...)
		default:
			m.upd = id.Update(m.set(p.First.FVs)...)
		}
	case "DELETE":
		switch {
		case sel != nil:
			m.del = sel.delete()
		case p.Entry%5 == 0:
			m.del = query.Delete(name)
		case p.Entry%5 == 1:
			m.del = query.Delete(tn)
		case p.Entry%5 == 2:
			m.del = query.Delete(id)
		case p.Entry%5 == 3:
			m.del = tn.Delete(m.addWhere(p.First.Cs)...)
		default:
			m.del = id.Delete(m.addWhere(p.First.Cs)...)
		}
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		switch {
		case o.Op == "set" && p.Kind == "INSERT":
			m.ins = m.ins.Values(m.set(o.FVs)...)
		case o.Op == "set" && p.Kind == "UPDATE":
			m.upd = m.upd.Set(m.set(o.FVs)...)
		case o.Op == "where" && p.Kind == "UPDATE":
			m.upd = m.upd.Where(m.addWhere(o.Cs)...)
		case o.Op == "where" && p.Kind == "DELETE":
			m.del = m.del.Where(m.addWhere(o.Cs)...)
		}
	}
	return m
}

func (m *modState) build() (string, []any, error) {
	switch m.kind {
	case "INSERT":
		return m.ins.BuildQueryAndParams()
	case "UPDATE":
		return m.upd.BuildQueryAndParams()
	}
	return m.del.BuildQueryAndParams()
}

// mustFail tells whether the build has to return an error.
func (m *modState) mustFail() bool {
	if m.table == "" {
		return true
	}
	if m.kind != "DELETE" && len(m.cols) == 0 {
		return true
	}
	return m.kind != "INSERT" && m.where.base == nil
}

func (m *modState) expect() *Expect {
	return &Expect{Kind: m.kind, From: TabRef{Name: m.table}, Columns: m.cols, ColVals: m.vals, Where: m.where.meaning(), WhereVals: m.where.params}
}

// Checks of a built statement against the expectation, by aspect.

func asUint(a any) (uint64, bool) {
	v := reflect.ValueOf(a)
	switch {
	case v.CanUint():
		return v.Uint(), true
	case v.CanInt() && v.Int() >= 0:
		return uint64(v.Int()), true
	}
	return 0, false
}

type aspects struct {
	params bool // placeholders and parameters
	shape  bool // everything but WHERE and pagination
	where  bool
	page   bool
}

var allAspects = aspects{true, true, true, true}

func checkBuilt(sql string, params []any, err error, e *Expect, asp aspects) error {
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	st, perr := ParseStmt(sql)
	if perr != nil {
		return fmt.Errorf("malformed statement: %w", perr)
	}
	if derr := checkDollars(st.Phs, 0, len(params)); derr != nil {
		return fmt.Errorf("%w in %q with %s", derr, sql, showParams(params))
	}
	return wrapSQL(checkParsed(st, params, e, asp), sql, params)
}

func wrapSQL(err error, sql string, params []any) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%w; statement %q with %s", err, sql, showParams(params))
}

func checkParsed(st *Stmt, params []any, e *Expect, asp aspects) error {
	if st.Kind != e.Kind {
		return fmt.Errorf("statement kind %s, expected %s", st.Kind, e.Kind)
	}
	if asp.shape {
		if st.From != e.From {
			return fmt.Errorf("table %+v, expected %+v", st.From, e.From)
		}
		if len(st.Joins) != len(e.Joins) {
			return fmt.Errorf("%d joins, expected %d: %+v / %+v", len(st.Joins), len(e.Joins), st.Joins, e.Joins)
		}
		for i := range st.Joins {
			if st.Joins[i] != e.Joins[i] {
				return fmt.Errorf("join #%d is %+v, expected %+v", i+1, st.Joins[i], e.Joins[i])
			}
		}
		if e.Count != "" {
			if len(st.Items) != 1 || !st.Items[0].Count || st.Items[0].Ref != e.Count {
				return fmt.Errorf("select list %+v, expected COUNT(%s)", st.Items, e.Count)
			}
		} else if len(st.Items) != len(e.Items) {
			return fmt.Errorf("select list %+v, expected %+v", st.Items, e.Items)
		} else {
			for i := range st.Items {
				if st.Items[i] != e.Items[i] {
					return fmt.Errorf("select item #%d is %+v, expected %+v", i+1, st.Items[i], e.Items[i])
				}
			}
		}
		if len(st.Order) != len(e.Order) {
			return fmt.Errorf("ordering %+v, expected %+v", st.Order, e.Order)
		}
		for i := range st.Order {
			if st.Order[i] != e.Order[i] {
				return fmt.Errorf("ordering #%d is %+v, expected %+v", i+1, st.Order[i], e.Order[i])
			}
		}
		if len(st.Columns) != len(e.Columns) {
			return fmt.Errorf("columns %v, expected %v", st.Columns, e.Columns)
		}
		for i := range st.Columns {
			if st.Columns[i] != e.Columns[i] {
				return fmt.Errorf("column #%d is %q, expected %q", i+1, st.Columns[i], e.Columns[i])
			}
			pos := st.Vals[i].Pos
			if pos >= len(params) || !sameVal(params[pos], e.ColVals[i]) {
				return fmt.Errorf("column %q is bound to parameter #%d, expected value %s", st.Columns[i], pos+1, valText(e.ColVals[i]))
			}
		}
	}
	if asp.where {
		if err := equivalent(e.Where, exprFormula(st.Where, params)); err != nil {
			return err
		}
	}
	if asp.page {
		if err := checkPage(st, params, e); err != nil {
			return err
		}
	}
	if asp.params {
		want := append(append([]any{}, e.ColVals...), e.WhereVals...)
		n := len(params)
		if st.Offset != nil && st.Offset.Kind == "ph" {
			n--
		}
		if st.Limit != nil && st.Limit.Kind == "ph" {
			n--
		}
		if n < 0 {
			n = 0
		}
		if err := sameParams(want, params[:n]); err != nil {
			return err
		}
	}
	return nil
}

func checkPage(st *Stmt, params []any, e *Expect) error {
	if e.Single {
		if st.Offset != nil {
			return errors.New("single-select has OFFSET")
		}
		if st.Limit == nil {
			return errors.New("single-select has no LIMIT 1")
		}
		if st.Limit.Kind == "num" && st.Limit.Num == 1 {
			return nil
		}
		if st.Limit.Kind == "ph" {
			if n, ok := asUint(params[st.Limit.Pos]); ok && n == 1 {
				return nil
			}
		}
		return errors.New("single-select LIMIT is not 1")
	}
	one := func(name string, o *Operand, want uint64) error {
		switch {
		case want == 0 && o == nil:
			return nil
		case want == 0:
			return fmt.Errorf("%s was not requested", name)
		case o == nil:
			return fmt.Errorf("%s %d is missing", name, want)
		case o.Kind != "ph":
			return fmt.Errorf("%s is not bound as a parameter", name)
		}
		if n, ok := asUint(params[o.Pos]); !ok || n != want {
			return fmt.Errorf("%s is bound to %s, expected %d", name, valText(params[o.Pos]), want)
		}
		return nil
	}
	if err := one("OFFSET", st.Offset, e.Offset); err != nil {
		return err
	}
	lim := uint64(0)
	if e.Limit > 0 {
		lim = uint64(e.Limit)
	}
	return one("LIMIT", st.Limit, lim)
}

// checkFailed verifies the documented failure contract.
func checkFailed(sql string, err error) error {
	if err == nil {
		return fmt.Errorf("built %q without error, an error is required", sql)
	}
	if !errors.Is(err, query.Error) {
		return fmt.Errorf("error %v is not the library's error", err)
	}
	if sql != "" {
		return fmt.Errorf("failed build returned SQL %q", sql)
	}
	return nil
}

// Generators.

func genTabName(t *rapid.T) string {
	n := genIdent(t, "table")
	if rapid.IntRange(0, 9).Draw(t, "schema") == 0 {
		n = "public." + n
	}
	return n
}

func genTab(t *rapid.T) TabSpec {
	ts := TabSpec{N: genTabName(t), Via: rapid.IntRange(0, 8).Draw(t, "tvia")}
	switch rapid.IntRange(0, 5).Draw(t, "talias?") {
	case 0, 1:
		ts.A = genIdent(t, "talias")
	case 2:
		if !strings.Contains(ts.N, ".") {
			ts.A = ts.N
		}
	}
	return ts
}

func genSelField(t *rapid.T) FieldRef {
	f := genFieldRef(t, nil)
	if rapid.IntRange(0, 15).Draw(t, "star") == 0 {
		f.N, f.A = "*", ""
	}
	if f.T != "" {
		f.T = genQual(t, "seltable")
	}
	return f
}

func genJoinOp(t *rapid.T) SelOp {
	tab := genTab(t)
	l, r := genFieldRef(t, nil), genFieldRef(t, nil)
	l.T, r.T = genQual(t, "jl"), genQual(t, "jr")
	return SelOp{Op: "join", JT: rapid.IntRange(0, 3).Draw(t, "jt"), Tab: &tab, L: &l, R: &r, Via: rapid.IntRange(0, 79).Draw(t, "jvia")}
}

func genOrders(t *rapid.T) []OrderSpec {
	n := rapid.IntRange(0, 4).Draw(t, "norder")
	os := make([]OrderSpec, n)
	for i := range os {
		f := genFieldRef(t, nil)
		if rapid.IntRange(0, 2).Draw(t, "oalias") != 0 {
			f.A = ""
		}
		os[i] = OrderSpec{F: normalRef(f), Dir: rapid.SampledFrom([]string{"ASC", "DESC"}).Draw(t, "dir"), Via: rapid.IntRange(0, 15).Draw(t, "ovia")}
	}
	return os
}

func genUint(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 9).Draw(t, label+"?") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return rapid.Int64Range(0, 1<<62).Draw(t, label)
	}
	return int64(rapid.IntRange(1, 200).Draw(t, label))
}

func genLimit(t *rapid.T) int64 {
	if rapid.IntRange(0, 5).Draw(t, "neglimit") == 0 {
		return -genUint(t, "limit")
	}
	return genUint(t, "limit")
}

var selOpNames = []string{"fields", "fields", "where", "where", "where", "join", "join", "order", "order", "offset", "limit", "single", "many", "tobase"}

func genSelOp(t *rapid.T, x *ids, csize int, o condOpts, allowed []string) SelOp {
	op := SelOp{Op: rapid.SampledFrom(allowed).Draw(t, "selop")}
	switch op.Op {
	case "fields":
		n := rapid.IntRange(0, 4).Draw(t, "nfields")
		for i := 0; i < n; i++ {
			op.Fs = append(op.Fs, genSelField(t))
		}
		op.Via = rapid.IntRange(0, 3).Draw(t, "fvia")
	case "where":
		op.Cs = genConds(t, x, genSize(t, csize), 0, o)
	case "join":
		op = genJoinOp(t)
	case "order":
		op.Os = genOrders(t)
	case "offset":
		op.N = genUint(t, "offset")
	case "limit":
		op.N = genLimit(t)
	}
	return op
}

func genSelProg(t *rapid.T, x *ids, maxOps, csize int, o condOpts) *SelProg {
	p := &SelProg{Table: genTab(t), Entry: rapid.IntRange(0, nEntries-1).Draw(t, "entry")}
	switch p.Entry {
	case 3, 4, 7, 8, 12, 13:
		p.First = genConds(t, x, genSize(t, csize), 0, o)
	case 15, 16:
		j := genJoinOp(t)
		p.Join = &j
	}
	n := rapid.IntRange(0, maxOps).Draw(t, "nops")
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, genSelOp(t, x, csize, o, selOpNames))
	}
	return p
}

func genFVs(t *rapid.T, x *ids, max int) []FV {
	if rapid.IntRange(0, 25).Draw(t, "manyfv") == 0 {
		max *= 4
	}
	n := rapid.IntRange(0, max).Draw(t, "nfv")
	var res []FV
	for i := 0; i < n; i++ {
		f := genFieldRef(t, x)
		res = append(res, FV{F: f, V: genScalar(t, x), Via: rapid.IntRange(0, 15).Draw(t, "fvvia")})
	}
	return res
}

func genModProg(t *rapid.T, x *ids, kind string, maxOps, csize int, o condOpts, derived bool) *ModProg {
	p := &ModProg{Kind: kind, Table: genTab(t), Entry: rapid.IntRange(0, 4).Draw(t, "entry")}
	if derived && rapid.IntRange(0, 3).Draw(t, "derived") == 0 {
		p.Sel = genSelProg(t, x, 4, csize, o)
	}
	if kind != "DELETE" && (p.Sel != nil || p.Entry >= 3) {
		p.First.FVs = genFVs(t, x, 3)
	}
	if kind == "DELETE" && p.Sel == nil && p.Entry >= 3 {
		p.First.Cs = genConds(t, x, genSize(t, csize), 0, o)
	}
	n := rapid.IntRange(0, maxOps).Draw(t, "nops")
	for i := 0; i < n; i++ {
		set := kind == "INSERT" || (kind == "UPDATE" && rapid.Bool().Draw(t, "set"))
		if set {
			p.Ops = append(p.Ops, ModOp{Op: "set", FVs: genFVs(t, x, 4)})
		} else {
			p.Ops = append(p.Ops, ModOp{Op: "where", Cs: genConds(t, x, genSize(t, csize), 0, o)})
		}
	}
	return p
}
