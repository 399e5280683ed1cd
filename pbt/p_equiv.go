package main

// C22: equivalent spellings.

import (
	"fmt"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type EqCase struct {
	Kind int         `json:"kind"`
	T    TabSpec     `json:"t"`
	R    TabSpec     `json:"r"`
	Cs   []*Cond     `json:"cs,omitempty"`
	C    *Cond       `json:"c,omitempty"`
	FVs  []FV        `json:"fvs,omitempty"`
	Fs   []FieldRef  `json:"fs,omitempty"`
	Os   []OrderSpec `json:"os,omitempty"`
	L    FieldRef    `json:"l"`
	RF   FieldRef    `json:"rf"`
	JT   int         `json:"jt"`
	N    int64       `json:"n"`
	V    Val         `json:"v"`
	Sel  *SelProg    `json:"sel,omitempty"`
	Then []int       `json:"then,omitempty"`
}

// eqArgs are the arguments of a case, built once and shared by all spellings.
type eqArgs struct {
	c    *EqCase
	txt  string
	tn   query.TableName
	id   query.TableIdent
	rid  query.TableIdent
	rtn  query.TableName
	cs   []query.Condition
	cond query.Condition
	fvs  []query.FieldValue
	defs []query.FieldDefinition
	os   []query.FieldSorting
	l, r query.FieldDefinition
	jt   query.TableJoinType
	v    any
	base *selState
}

type spelling struct {
	name string
	get  func(a *eqArgs) any
}

type equivalence struct {
	name  string
	spell []spelling
	plain bool // table without alias
}

// observe gives everything an object shows.
func (a *eqArgs) observe(x any) (texts []string, params [][]any) {
	text := func(f string, args ...any) { texts = append(texts, fmt.Sprintf(f, args...)) }
	bound := func(ps []any) { params = append(params, ps) }
	switch t := x.(type) {
	case query.BaseSelectBuilder:
		for _, k := range a.c.Then {
			switch k {
			case 0:
				t = t.Where(a.cs...)
			case 1:
				t = t.Fields(a.defs...)
			case 2:
				t = t.Join(a.rid, a.jt).On(a.l, a.r)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%s|%s|%v", sql, err, t.Render(3), t.RenderSQL(), t.RenderFrom(), t.TableName(), t.Operation())
		bound(ps)
		bound(t.Values())
		sql, ps, err = t.Many().Offset(1).OrderBy(a.os...).BuildQueryAndParams()
		text("%s|%v", sql, err)
		bound(ps)
	case query.SelectSingleBuilder:
		for _, k := range a.c.Then {
			switch k {
			case 0:
				t = t.Where(a.cs...)
			case 1:
				t = t.Fields(a.defs...)
			case 2:
				t = t.Join(a.rtn, a.jt).On(a.l, a.r)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%s|%s|%s|%v", sql, err, t.Render(3), t.RenderSQL(), t.RenderFrom(), t.FieldList(), t.TableName(), t.Operation())
		bound(ps)
		bound(t.Values())
	case query.SelectManyBuilder:
		for _, k := range a.c.Then {
			switch k {
			case 0:
				t = t.Where(a.cs...)
			case 1:
				t = t.Fields(a.defs...)
			case 2:
				t = t.Join(a.rtn, a.jt).On(a.l, a.r)
			case 3:
				t = t.OrderBy(a.os...)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%s|%s|%s|%v", sql, err, t.Render(3), t.RenderSQL(), t.RenderFrom(), t.FieldList(), t.TableName(), t.Operation())
		bound(ps)
		bound(t.Values())
	case query.CountBuilder:
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s", sql, err, t.RenderFrom())
		bound(ps)
	case query.InsertBuilder:
		for _, k := range a.c.Then {
			if k == 1 {
				t = t.Values(a.fvs...)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%v", sql, err, t.RenderFrom(), t.TableName(), t.Operation())
		bound(ps)
	case query.UpdateBuilder:
		for _, k := range a.c.Then {
			switch k {
			case 0:
				t = t.Where(a.cs...)
			case 1:
				t = t.Set(a.fvs...)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%v", sql, err, t.RenderFrom(), t.TableName(), t.Operation())
		bound(ps)
	case query.DeleteBuilder:
		for _, k := range a.c.Then {
			if k == 0 {
				t = t.Where(a.cs...)
			}
		}
		sql, ps, err := t.BuildQueryAndParams()
		text("%s|%v|%s|%s|%v", sql, err, t.RenderFrom(), t.TableName(), t.Operation())
		bound(ps)
	case query.Condition:
		text("%s|%s|%s|%s|%v|%s", t.Render(0), t.Render(9), t.RenderSQL(), t.JoinType(), t.IsNegate(), t.FieldName())
		bound(t.Values())
		g := query.EqualTo("other", 1).And(t, query.IsNull("last"))
		text("%s", g.Render(0))
	case query.FieldDefinition:
		text("%s|%s|%s|%s|%s|%s|%s", t.RenderSpec(), t.RenderField(), t.RenderTableSpec(), t.FieldName(), t.TableName(), t.Alias(), t.TableFieldName())
	case query.FieldValue:
		text("%s|%s|%s|%s|%s", t.RenderSpec(), t.RenderField(), t.FieldName(), t.TableName(), t.Alias())
		bound(t.Values())
	case query.FieldSorting:
		text("%s|%s", t.Render(), t.Direction())
	case query.TableJoiner:
		text("%s|%v|%s", t.RenderFrom(), t.JoinType(), t.JoinCondition().Render())
	case query.Fields:
		text("%s|%d", t.FieldList(), t.Len())
		for _, d := range t.FieldDefinitions() {
			text("%s|%s|%s", d.TableName(), d.FieldName(), d.Alias())
		}
	case query.TableIdent:
		text("%s|%s|%s|%s", t.RenderFrom(), t.TableName(), t.Alias(), t.Field("x").RenderSpec())
	case string:
		text("%s", t)
	case []query.Condition:
		for _, c := range t {
			ts, ps := a.observe(c)
			texts, params = append(texts, ts...), append(params, ps...)
		}
	default:
		panic(fmt.Sprintf("unknown object %T", x))
	}
	return
}

func joinShort(b interface {
	InnerJoin(query.TableIdent) query.IncompleteSelectJoin
	LeftJoin(query.TableIdent) query.IncompleteSelectJoin
	RightJoin(query.TableIdent) query.IncompleteSelectJoin
	FullJoin(query.TableIdent) query.IncompleteSelectJoin
}, a *eqArgs) query.IncompleteSelectJoin {
	switch a.jt {
	case query.InnerJoin:
		return b.InnerJoin(a.rid)
	case query.LeftJoin:
		return b.LeftJoin(a.rid)
	case query.RightJoin:
		return b.RightJoin(a.rid)
	}
	return b.FullJoin(a.rid)
}

func (a *eqArgs) many() query.SelectManyBuilder {
	return query.SelectManyFrom(a.id).Where(a.cs...).OrderBy(a.os...)
}
func (a *eqArgs) single() query.SelectSingleBuilder {
	return query.SelectSingleFrom(a.id).Where(a.cs...)
}

func (a *eqArgs) someBase() query.BaseSelectBuilder { return a.base.base }

// fieldOnly is the field of the case without alias.
func (a *eqArgs) field() query.FieldName { return query.FieldName(a.c.L.spec()) }

var equivalences = []equivalence{
	{name: "select constructors", spell: []spelling{
		{"SelectFrom(text)", func(a *eqArgs) any { return query.SelectFrom(a.txt) }},
		{"SelectFrom(name)", func(a *eqArgs) any { return query.SelectFrom(a.tn) }},
		{"SelectFrom(ident)", func(a *eqArgs) any { return query.SelectFrom(a.id) }},
		{"name.Select()", func(a *eqArgs) any { return a.tn.Select() }},
		{"ident.Select()", func(a *eqArgs) any { return a.id.Select() }},
		{"name.Ident().Select()", func(a *eqArgs) any { return a.tn.Ident().Select() }},
	}},
	{name: "select with conditions", spell: []spelling{
		{"SelectFrom.Where", func(a *eqArgs) any { return query.SelectFrom(a.id).Where(a.cs...) }},
		{"name.Select(conditions)", func(a *eqArgs) any { return a.tn.Select(a.cs...) }},
		{"ident.Select(conditions)", func(a *eqArgs) any { return a.id.Select(a.cs...) }},
	}},
	{name: "single-select", spell: []spelling{
		{"SelectSingleFrom(text)", func(a *eqArgs) any { return query.SelectSingleFrom(a.txt).Where(a.cs...) }},
		{"SelectSingleFrom(name)", func(a *eqArgs) any { return query.SelectSingleFrom(a.tn).Where(a.cs...) }},
		{"SelectSingleFrom(ident)", func(a *eqArgs) any { return query.SelectSingleFrom(a.id).Where(a.cs...) }},
		{"SelectSingleFromBase", func(a *eqArgs) any { return query.SelectSingleFromBase(query.SelectFrom(a.id)).Where(a.cs...) }},
		{"SelectSingleFromBase(filtered)", func(a *eqArgs) any { return query.SelectSingleFromBase(query.SelectFrom(a.id).Where(a.cs...)) }},
		{"Single()", func(a *eqArgs) any { return query.SelectFrom(a.txt).Where(a.cs...).Single() }},
		{"name.SelectOne", func(a *eqArgs) any { return a.tn.SelectOne(a.cs...) }},
		{"ident.SelectOne", func(a *eqArgs) any { return a.id.SelectOne(a.cs...) }},
	}},
	{name: "many-select", spell: []spelling{
		{"SelectManyFrom(text)", func(a *eqArgs) any { return query.SelectManyFrom(a.txt).Where(a.cs...) }},
		{"SelectManyFrom(name)", func(a *eqArgs) any { return query.SelectManyFrom(a.tn).Where(a.cs...) }},
		{"SelectManyFrom(ident)", func(a *eqArgs) any { return query.SelectManyFrom(a.id).Where(a.cs...) }},
		{"SelectManyFromBase", func(a *eqArgs) any { return query.SelectManyFromBase(query.SelectFrom(a.id)).Where(a.cs...) }},
		{"SelectManyFromBase(filtered)", func(a *eqArgs) any { return query.SelectManyFromBase(query.SelectFrom(a.id).Where(a.cs...)) }},
		{"Many()", func(a *eqArgs) any { return query.SelectFrom(a.txt).Where(a.cs...).Many() }},
		{"name.SelectMany", func(a *eqArgs) any { return a.tn.SelectMany(a.cs...) }},
		{"ident.SelectMany", func(a *eqArgs) any { return a.id.SelectMany(a.cs...) }},
	}},
	{name: "insert", plain: true, spell: []spelling{
		{"InsertInto(text)", func(a *eqArgs) any { return query.InsertInto(a.txt).Values(a.fvs...) }},
		{"InsertInto(name)", func(a *eqArgs) any { return query.InsertInto(a.tn).Values(a.fvs...) }},
		{"InsertInto(ident)", func(a *eqArgs) any { return query.InsertInto(a.id).Values(a.fvs...) }},
		{"name.InsertInto", func(a *eqArgs) any { return a.tn.InsertInto(a.fvs...) }},
		{"ident.InsertInto", func(a *eqArgs) any { return a.id.InsertInto(a.fvs...) }},
		{"select.InsertInto", func(a *eqArgs) any { return query.SelectFrom(a.id).InsertInto(a.fvs...) }},
		{"many.InsertInto", func(a *eqArgs) any { return a.many().InsertInto(a.fvs...) }},
		{"single.InsertInto", func(a *eqArgs) any { return a.single().InsertInto(a.fvs...) }},
	}},
	{name: "update", plain: true, spell: []spelling{
		{"Update(text)", func(a *eqArgs) any { return query.Update(a.txt).Set(a.fvs...).Where(a.cs...) }},
		{"Update(name)", func(a *eqArgs) any { return query.Update(a.tn).Set(a.fvs...).Where(a.cs...) }},
		{"Update(ident)", func(a *eqArgs) any { return query.Update(a.id).Set(a.fvs...).Where(a.cs...) }},
		{"name.Update", func(a *eqArgs) any { return a.tn.Update(a.fvs...).Where(a.cs...) }},
		{"ident.Update", func(a *eqArgs) any { return a.id.Update(a.fvs...).Where(a.cs...) }},
		{"select.Update", func(a *eqArgs) any { return query.SelectFrom(a.id).Update(a.fvs...).Where(a.cs...) }},
	}},
	{name: "delete", plain: true, spell: []spelling{
		{"Delete(text)", func(a *eqArgs) any { return query.Delete(a.txt).Where(a.cs...) }},
		{"Delete(name)", func(a *eqArgs) any { return query.Delete(a.tn).Where(a.cs...) }},
		{"Delete(ident)", func(a *eqArgs) any { return query.Delete(a.id).Where(a.cs...) }},
		{"name.Delete", func(a *eqArgs) any { return a.tn.Delete(a.cs...) }},
		{"ident.Delete", func(a *eqArgs) any { return a.id.Delete(a.cs...) }},
		{"select.Delete", func(a *eqArgs) any { return query.SelectFrom(a.id).Delete().Where(a.cs...) }},
	}},
	{name: "count", spell: []spelling{
		{"Count(select)", func(a *eqArgs) any { return query.Count(query.SelectFrom(a.id).Where(a.cs...)) }},
		{"select.Count()", func(a *eqArgs) any { return query.SelectFrom(a.id).Where(a.cs...).Count() }},
		{"ident.Count()", func(a *eqArgs) any { return a.id.Count(a.cs...) }},
		{"single.Count()", func(a *eqArgs) any { return a.single().Count() }},
		{"many.Count()", func(a *eqArgs) any { return a.many().Limit(7).Count() }},
	}},
	{name: "count of a select", spell: []spelling{
		{"Count(select)", func(a *eqArgs) any { return query.Count(a.someBase()) }},
		{"select.Count()", func(a *eqArgs) any { return a.someBase().Count() }},
		{"many.Count()", func(a *eqArgs) any { return a.someBase().Many().OrderBy(a.os...).Offset(3).Count() }},
	}},
	{name: "EqualTo", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.EqualTo(a.field(), a.v) }},
		{"method", func(a *eqArgs) any { return a.field().EqualTo(a.v) }},
	}},
	{name: "In", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.In(a.field(), a.v) }},
		{"method", func(a *eqArgs) any { return a.field().In(a.v) }},
	}},
	{name: "IsNull", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.IsNull(a.field()) }},
		{"method", func(a *eqArgs) any { return a.field().IsNull() }},
	}},
	{name: "Contains", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.Contains(a.field(), a.c.V.S) }},
		{"method", func(a *eqArgs) any { return a.field().Contains(a.c.V.S) }},
	}},
	{name: "IContains", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.IContains(a.field(), a.c.V.S) }},
		{"method", func(a *eqArgs) any { return a.field().IContains(a.c.V.S) }},
	}},
	{name: "field", spell: []spelling{
		{"Field(text)", func(a *eqArgs) any { return query.Field(a.c.L.spec()) }},
		{"Field(name)", func(a *eqArgs) any { return query.Field(a.field()) }},
		{"name.Field()", func(a *eqArgs) any { return a.field().Field() }},
		{"FieldOrError", func(a *eqArgs) any {
			f, err := query.FieldOrError(a.c.L.spec())
			if err != nil {
				return err.Error()
			}
			return *f
		}},
	}},
	{name: "field of a table", spell: []spelling{
		{"table.Field(name)", func(a *eqArgs) any { return query.TableName(a.c.R.N).Field(query.FieldName(a.c.L.N)) }},
		{"Field(name).Of(table)", func(a *eqArgs) any { return query.Field(a.c.L.N).Of(query.TableName(a.c.R.N)) }},
		{"ident.Field(name)", func(a *eqArgs) any {
			return query.Table(query.TableName(a.c.R.N)).Field(query.FieldName(a.c.L.N))
		}},
		{"As.Field(name)", func(a *eqArgs) any {
			return query.Table("z").As(query.TableName(a.c.R.N)).Field(query.FieldName(a.c.L.N))
		}},
	}},
	{name: "field value", spell: []spelling{
		{"NewFieldValue", func(a *eqArgs) any { return *query.NewFieldValue(a.field(), a.v) }},
		{"name.Value", func(a *eqArgs) any { return a.field().Value(a.v) }},
		{"Field(name).Value", func(a *eqArgs) any { return query.Field(a.field()).Value(a.v) }},
	}},
	{name: "table", spell: []spelling{
		{"Table(text)", func(a *eqArgs) any { return query.Table(a.txt) }},
		{"Table(name)", func(a *eqArgs) any { return query.Table(a.tn) }},
		{"Table(ident)", func(a *eqArgs) any { return query.Table(a.id) }},
		{"name.Ident()", func(a *eqArgs) any { return a.tn.Ident() }},
		{"As", func(a *eqArgs) any { return query.Table(a.c.T.N).As(query.TableName(a.c.T.A)) }},
	}},
	{name: "join from a table", spell: []spelling{
		{"select.Join", func(a *eqArgs) any { return query.SelectFrom(a.id).Join(a.rid, a.jt).On(a.l, a.r) }},
		{"name.Join", func(a *eqArgs) any { return a.tn.Join(a.rid, a.jt).On(a.l, a.r) }},
		{"ident.Join", func(a *eqArgs) any { return a.id.Join(a.rid, a.jt).On(a.l, a.r) }},
		{"type.Tables", func(a *eqArgs) any { return a.jt.Tables(a.id, a.rid).On(a.l, a.r) }},
		{"select.XJoin", func(a *eqArgs) any { return joinShort(query.SelectFrom(a.id), a).On(a.l, a.r) }},
		{"name.XJoin", func(a *eqArgs) any { return joinShort(a.tn, a).On(a.l, a.r) }},
		{"ident.XJoin", func(a *eqArgs) any { return joinShort(a.id, a).On(a.l, a.r) }},
	}},
	{name: "join to a select", spell: []spelling{
		{"Join", func(a *eqArgs) any { return a.someBase().Join(a.rid, a.jt).On(a.l, a.r) }},
		{"XJoin", func(a *eqArgs) any { return joinShort(a.someBase(), a).On(a.l, a.r) }},
	}},
	{name: "join to a single-select", spell: []spelling{
		{"Join", func(a *eqArgs) any { return a.single().Join(a.rtn, a.jt).On(a.l, a.r) }},
		{"XJoin", func(a *eqArgs) any {
			b := a.single()
			switch a.jt {
			case query.InnerJoin:
				return b.InnerJoin(a.rtn).On(a.l, a.r)
			case query.LeftJoin:
				return b.LeftJoin(a.rtn).On(a.l, a.r)
			case query.RightJoin:
				return b.RightJoin(a.rtn).On(a.l, a.r)
			}
			return b.FullJoin(a.rtn).On(a.l, a.r)
		}},
		{"base.Join.Single", func(a *eqArgs) any { return a.single().BaseSelectBuilder.Join(a.rid, a.jt).On(a.l, a.r).Single() }},
	}},
	{name: "join to a many-select", spell: []spelling{
		{"Join", func(a *eqArgs) any { return a.many().Join(a.rtn, a.jt).On(a.l, a.r) }},
		{"XJoin", func(a *eqArgs) any {
			b := a.many()
			switch a.jt {
			case query.InnerJoin:
				return b.InnerJoin(a.rtn).On(a.l, a.r)
			case query.LeftJoin:
				return b.LeftJoin(a.rtn).On(a.l, a.r)
			case query.RightJoin:
				return b.RightJoin(a.rtn).On(a.l, a.r)
			}
			return b.FullJoin(a.rtn).On(a.l, a.r)
		}},
		{"base.Join.OrderBy", func(a *eqArgs) any {
			return a.many().BaseSelectBuilder.Join(a.rid, a.jt).On(a.l, a.r).OrderBy(a.os...)
		}},
	}},
	{name: "joiner", spell: []spelling{
		{"JoinFields.Using", func(a *eqArgs) any { return query.JoinFields(a.l, a.r).Using(a.jt) }},
		{"JoinFields.XJoin", func(a *eqArgs) any {
			j := query.JoinFields(a.l, a.r)
			switch a.jt {
			case query.InnerJoin:
				return j.InnerJoin()
			case query.LeftJoin:
				return j.LeftJoin()
			case query.RightJoin:
				return j.RightJoin()
			}
			return j.FullJoin()
		}},
		{"type.By", func(a *eqArgs) any { return a.jt.By(a.l, a.r) }},
		{"NewTableJoiner", func(a *eqArgs) any {
			return query.NewTableJoiner(query.Table(query.TableName(a.c.RF.T)), a.jt, query.JoinFields(a.l, a.r))
		}},
		{"NewTableJoiner.By", func(a *eqArgs) any {
			return query.NewTableJoiner(query.Table(query.TableName(a.c.RF.T)), a.jt, query.JoinFields(a.r, a.l)).By(a.l, a.r)
		}},
	}},
	{name: "Limit", spell: []spelling{
		{"select.Limit", func(a *eqArgs) any { return a.someBase().Limit(int(a.c.N)) }},
		{"select.Many().Limit", func(a *eqArgs) any { return a.someBase().Many().Limit(int(a.c.N)) }},
		{"SelectManyFromBase.Limit", func(a *eqArgs) any { return query.SelectManyFromBase(a.someBase()).Limit(int(a.c.N)) }},
		{"select.Single().Limit", func(a *eqArgs) any { return a.someBase().Single().Limit(int(a.c.N)) }},
	}},
	{name: "Offset", spell: []spelling{
		{"select.Offset", func(a *eqArgs) any { return a.someBase().Offset(uint(a.c.N)) }},
		{"select.Many().Offset", func(a *eqArgs) any { return a.someBase().Many().Offset(uint(a.c.N)) }},
		{"SelectManyFromBase.Offset", func(a *eqArgs) any { return query.SelectManyFromBase(a.someBase()).Offset(uint(a.c.N)) }},
		{"select.Single().Offset", func(a *eqArgs) any { return a.someBase().Single().Offset(uint(a.c.N)) }},
	}},
	{name: "OrderBy", spell: []spelling{
		{"select.OrderBy", func(a *eqArgs) any { return a.someBase().OrderBy(a.os...) }},
		{"select.Many().OrderBy", func(a *eqArgs) any { return a.someBase().Many().OrderBy(a.os...) }},
		{"SelectManyFromBase.OrderBy", func(a *eqArgs) any { return query.SelectManyFromBase(a.someBase()).OrderBy(a.os...) }},
		{"select.Single().OrderBy", func(a *eqArgs) any { return a.someBase().Single().OrderBy(a.os...) }},
		{"one by one", func(a *eqArgs) any {
			m := a.someBase().Many()
			for _, o := range a.os {
				m = m.OrderBy(o)
			}
			return m
		}},
	}},
	{name: "Single", spell: []spelling{
		{"select.Single", func(a *eqArgs) any { return a.someBase().Single() }},
		{"SelectSingleFromBase", func(a *eqArgs) any { return query.SelectSingleFromBase(a.someBase()) }},
		{"select.Many().Single", func(a *eqArgs) any { return a.someBase().Many().Single() }},
		{"select.Single().Single", func(a *eqArgs) any { return a.someBase().Single().Single() }},
	}},
	{name: "Many", spell: []spelling{
		{"select.Many", func(a *eqArgs) any { return a.someBase().Many() }},
		{"SelectManyFromBase", func(a *eqArgs) any { return query.SelectManyFromBase(a.someBase()) }},
		{"select.Single().Many", func(a *eqArgs) any { return a.someBase().Single().Many() }},
	}},
	{name: "ascending", spell: []spelling{
		{"ASC", func(a *eqArgs) any { return query.ASC(query.FieldName(a.c.L.qualified())) }},
		{"OrderBy", func(a *eqArgs) any { return query.OrderBy(query.FieldName(a.c.L.qualified())) }},
		{"OrderBy(ASC)", func(a *eqArgs) any {
			return query.OrderBy(query.FieldName(a.c.L.qualified()), query.SortDirection("ASC"))
		}},
	}},
	{name: "descending", spell: []spelling{
		{"DESC", func(a *eqArgs) any { return query.DESC(query.FieldName(a.c.L.qualified())) }},
		{"OrderBy(DESC)", func(a *eqArgs) any {
			return query.OrderBy(query.FieldName(a.c.L.qualified()), query.SortDirection("DESC"))
		}},
	}},
	{name: "leaf.And", spell: []spelling{
		{"method", func(a *eqArgs) any { return a.cond.And(a.cs...) }},
		{"function", func(a *eqArgs) any { return query.And(a.cond, a.cs...) }},
	}},
	// how the result is joined to its neighbours is not promised to be equal
	{name: "leaf.Or", spell: []spelling{
		{"method", func(a *eqArgs) any { return a.cond.Or(a.cs...).Join(query.LogicalAND) }},
		{"function", func(a *eqArgs) any { return query.Or(a.cond, a.cs...).Join(query.LogicalAND) }},
	}},
	{name: "Not", spell: []spelling{
		{"function", func(a *eqArgs) any { return query.Not(a.cond) }},
		{"method", func(a *eqArgs) any { return a.cond.Negate(true) }},
	}},
	{name: "condition join", spell: []spelling{
		{"method", func(a *eqArgs) any { return a.cond.Join(a.logical()) }},
		{"type.Join", func(a *eqArgs) any { return a.logical().Join(a.cond) }},
	}},
	{name: "SetToAll", spell: []spelling{
		{"SetToAll", func(a *eqArgs) any { return a.logical().SetToAll(a.cs...) }},
		{"one by one", func(a *eqArgs) any {
			var res []query.Condition
			for _, c := range a.cs {
				res = append(res, c.Join(a.logical()))
			}
			return res
		}},
	}},
	{name: "join type group", spell: []spelling{
		{"type.Join(list)", func(a *eqArgs) any { return a.logical().Join(append([]query.Condition{a.cond}, a.cs...)...) }},
		{"NewGroup(list)", func(a *eqArgs) any {
			if len(a.cs) == 0 {
				return a.cond.Join(a.logical())
			}
			return query.NewGroup(a.logical(), append([]query.Condition{a.cond}, a.cs...)...)
		}},
	}},
	{name: "And of a group", spell: []spelling{
		{"And", func(a *eqArgs) any { return query.NewGroup(a.logical(), a.cond).And(a.cs...) }},
		{"GroupAND", func(a *eqArgs) any { return query.NewGroup(a.logical(), a.cond).GroupAND(a.cs...) }},
	}},
	{name: "Or of a group", spell: []spelling{
		{"Or", func(a *eqArgs) any { return query.NewGroup(a.logical(), a.cond).Or(a.cs...) }},
		{"GroupOR", func(a *eqArgs) any { return query.NewGroup(a.logical(), a.cond).GroupOR(a.cs...) }},
	}},
	{name: "And() of a group", spell: []spelling{
		{"method", func(a *eqArgs) any {
			return query.NewGroup(a.logical(), a.cond).And(append([]query.Condition{a.cond}, a.cs...)...)
		}},
		{"function", func(a *eqArgs) any {
			return query.And(query.NewGroup(a.logical(), a.cond), append([]query.Condition{a.cond}, a.cs...)...)
		}},
	}},
	{name: "field list", spell: []spelling{
		{"NewFields(definitions)", func(a *eqArgs) any {
			var args []any
			for _, d := range a.defs {
				args = append(args, d)
			}
			return query.NewFields(args...)
		}},
		{"NewFields(texts)", func(a *eqArgs) any {
			var args []any
			for _, f := range a.c.Fs {
				args = append(args, f.spec())
			}
			return query.NewFields(args...)
		}},
		{"NewFields(names)", func(a *eqArgs) any {
			var args []any
			for _, f := range a.c.Fs {
				args = append(args, query.FieldName(f.spec()))
			}
			return query.NewFields(args...)
		}},
		{"Fields.Fields", func(a *eqArgs) any { return query.NewFields("zz").Fields(a.defs...) }},
	}},
	{name: "where clause", spell: []spelling{
		{"select", func(a *eqArgs) any {
			s := query.SelectFrom("t").Where(a.cond).Where(a.cs...).RenderSQL()
			_, w, _ := strings.Cut(s, "SELECT * FROM t WHERE ")
			return w
		}},
		{"clause", func(a *eqArgs) any { return query.NewWhere().GroupAND(a.cond).GroupAND(a.cs...).RenderSQL() }},
	}},
}

func (a *eqArgs) logical() query.JoinType {
	if a.c.N%2 == 0 {
		return query.LogicalAND
	}
	return query.LogicalOR
}

func genEq(t *rapid.T) *EqCase {
	x := &ids{}
	o := condOpts{custom: true}
	c := &EqCase{Kind: rapid.IntRange(0, len(equivalences)-1).Draw(t, "kind"), T: genTab(t), R: genTab(t), JT: rapid.IntRange(0, 3).Draw(t, "jt"), N: genLimit(t)}
	if equivalences[c.Kind].plain || rapid.IntRange(0, 4).Draw(t, "unaliased") == 0 {
		c.T.A = ""
	}
	if equivalences[c.Kind].name == "Offset" && c.N < 0 {
		c.N = -c.N
	}
	min := 0
	if strings.HasPrefix(equivalences[c.Kind].name, "leaf.") { // adding nothing may be spelled differently
		min = 1
	}
	c.Cs = genConds(t, x, genSize(t, 5), min, o)
	c.C = genLeaf(t, x, o)
	if rapid.IntRange(0, 3).Draw(t, "not") == 0 {
		c.C = &Cond{Op: "not", Kids: []*Cond{c.C}}
	}
	c.FVs = genFVs(t, x, 4)
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nf"); i < n; i++ {
		c.Fs = append(c.Fs, normalRef(genFieldRef(t, nil)))
	}
	c.Os = genOrders(t)
	c.L, c.RF = genFieldRef(t, nil), genFieldRef(t, nil)
	if rapid.IntRange(0, 3).Draw(t, "ltab") != 0 || strings.Contains(equivalences[c.Kind].name, "join") {
		c.L.T = genIdent(t, "jl")
	}
	c.RF.T = genIdent(t, "jr")
	if equivalences[c.Kind].name == "field value" { // values have no alias
		c.L.A = ""
	}
	c.V = genInVal(t, x)
	c.Sel = genSelProg(t, x, 4, 4, o)
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nthen"); i < n; i++ {
		c.Then = append(c.Then, rapid.IntRange(0, 3).Draw(t, "then"))
	}
	return c
}

// genBigEq makes one of the lists of arguments long.
func genBigEq(t *rapid.T) *EqCase {
	c := genEq(t)
	x := &ids{n: 1000, rep: genRep(t)}
	n := genScale(t, 300)
	switch rapid.IntRange(0, 5).Draw(t, "big") {
	case 0:
		c.Cs = nil
		mix := rapid.IntRange(0, 4).Draw(t, "mix")
		for i := 0; i < n+1; i++ {
			c.Cs = append(c.Cs, mixJoin(mix, i, plainLeaf(x, condOpts{custom: true})))
		}
	case 1:
		c.FVs = growFVs(x, n, x.rep)
	case 2:
		c.Fs = nil
		for i := 0; i < n; i++ {
			c.Fs = append(c.Fs, growRef(x, x.rep))
		}
	case 3:
		c.Os = nil
		for i := 0; i < n; i++ {
			f := growRef(x, x.rep)
			f.A = ""
			c.Os = append(c.Os, OrderSpec{F: f, Dir: []string{"ASC", "DESC"}[i%2], Via: i % 4})
		}
	case 4:
		c.V = Val{K: rapid.SampledFrom([]string{"n[]int", "n[]string", "n[]any"}).Draw(t, "lk"), N: int64(n), S: "3"}
	case 5:
		c.Sel = growSelProg(t, x, condOpts{custom: true})
	}
	return c
}

func checkEq(c *EqCase, o *Obs) error {
	eq := equivalences[c.Kind%len(equivalences)]
	o.label(eq.name)
	o.nontrivial = true
	cb := &condBuilder{}
	a := &eqArgs{c: c, txt: c.T.text(), tn: query.TableName(c.T.text()), id: c.T.ident(), rid: c.R.ident(), rtn: query.TableName(c.R.text()), l: c.L.def(0), r: c.RF.def(0), jt: joinTypes[c.JT%4], v: c.V.Go()}
	_, a.cs = cb.list(c.Cs)
	a.cond = cb.build(c.C).C
	a.fvs, _, _ = makeFVs(c.FVs)
	for i, f := range c.Fs {
		a.defs = append(a.defs, f.def(i))
	}
	for _, x := range c.Os {
		a.os = append(a.os, x.sorting())
	}
	a.base = runSel(c.Sel, cb)
	switch a.base.kind { // any select turned into a base one
	case "single":
		a.base.base = a.base.single.BaseSelectBuilder
	case "many":
		a.base.base = a.base.many.BaseSelectBuilder
	}
	texts0, params0 := a.observe(eq.spell[0].get(a))
	for _, s := range eq.spell[1:] {
		texts, params := a.observe(s.get(a))
		if len(texts) != len(texts0) || len(params) != len(params0) {
			return fmt.Errorf("%s: %s gives %q, %s gives %q", eq.name, eq.spell[0].name, texts0, s.name, texts)
		}
		for i := range texts {
			if texts[i] != texts0[i] {
				return fmt.Errorf("%s: %s gives %q, %s gives %q", eq.name, eq.spell[0].name, texts0[i], s.name, texts[i])
			}
		}
		for i := range params {
			if err := sameParams(params0[i], params[i]); err != nil {
				return fmt.Errorf("%s: parameters of %s and %s: %w", eq.name, eq.spell[0].name, s.name, err)
			}
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C22",
		Rule: fmt.Sprintf("%d groups of documented-equivalent spellings with generated arguments, followed by further calls; every case is non-trivial; the scale part makes one list of arguments long (up to 300, values and selects up to 1100)", len(equivalences)),
		Parts: []Part{
			&part[EqCase]{Name: "spellings", Quick: 240000, Thorough: 1000000, Gen: genEq, Check: checkEq},
			&part[EqCase]{Name: "scale", Quick: 1600, Thorough: 6000, Gen: genBigEq, Check: checkEq},
		},
	})
}
