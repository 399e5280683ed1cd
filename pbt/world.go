package main

// Histories over all objects of the library: a pool of objects derived from each other by any method,
// slices passed to and returned from calls, and snapshots of everything an object shows.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// pooled are the types of objects kept in the pool.
var pooled = []reflect.Type{
	typeOf[query.BaseSelectBuilder](), typeOf[query.SelectManyBuilder](), typeOf[query.SelectSingleBuilder](),
	typeOf[query.InsertBuilder](), typeOf[query.UpdateBuilder](), typeOf[query.DeleteBuilder](), typeOf[query.CountBuilder](),
	typeOf[query.Condition](), typeOf[query.Group](), typeOf[query.WhereClause](),
	typeOf[query.FieldDefinition](), typeOf[query.FieldValue](), typeOf[query.FieldSorting](), typeOf[query.Fields](),
	typeOf[query.TableIdent](), typeOf[query.TableJoiner](), typeOf[query.JoinCondition](), typeOf[query.Limiter](),
	typeOf[query.IncompleteSelectJoin](), typeOf[query.IncompleteSelectManyJoiner](), typeOf[query.IncompleteSelectSingleJoiner](),
	typeOf[query.BaseBuilder](), typeOf[query.BaseCondition](),
}

// focusTypes keep lists, so histories concentrate on them.
var focusTypes = []reflect.Type{
	typeOf[query.BaseSelectBuilder](), typeOf[query.SelectManyBuilder](), typeOf[query.SelectSingleBuilder](),
	typeOf[query.InsertBuilder](), typeOf[query.UpdateBuilder](), typeOf[query.DeleteBuilder](),
	typeOf[query.Condition](), typeOf[query.Group](), typeOf[query.WhereClause](), typeOf[query.Fields](),
	typeOf[query.IncompleteSelectJoin](), typeOf[query.IncompleteSelectManyJoiner](), typeOf[query.IncompleteSelectSingleJoiner](),
}

var (
	tAny       = typeOf[any]()
	tString    = typeOf[string]()
	tInt       = typeOf[int]()
	tUint      = typeOf[uint]()
	tBool      = typeOf[bool]()
	tFieldName = typeOf[query.FieldName]()
	tTableName = typeOf[query.TableName]()
	tCondition = typeOf[query.Condition]()
	tAnys      = typeOf[[]any]()
)

// literals are parameter types given by plain constants.
var literals = map[reflect.Type][]any{
	tString:                       {"x1", "y%", "'z'", "", "w w"},
	tInt:                          {0, 1, 2, 5, 11, -3},
	tUint:                         {uint(0), uint(1), uint(2), uint(7), uint(40)},
	tBool:                         {true, false},
	tFieldName:                    {query.FieldName("a"), query.FieldName("b"), query.FieldName("c"), query.FieldName("t1.a"), query.FieldName("d")},
	tTableName:                    {query.TableName("t1"), query.TableName("t2"), query.TableName("t3"), query.TableName("t4")},
	typeOf[query.JoinType]():      {query.LogicalAND, query.LogicalOR},
	typeOf[query.TableJoinType](): {query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin},
	typeOf[query.SortDirection](): {query.SortDirection("ASC"), query.SortDirection("DESC")},
	typeOf[query.Operation]():     {query.DoSelect, query.DoInsert, query.DoUpdate, query.DoDelete},
}

func litsOf(t reflect.Type, wild bool) []any {
	if l := wildLiterals[t]; l != nil && wild {
		return l
	}
	return literals[t]
}

type wop struct {
	name     string
	in       []reflect.Type // receiver first; the last one is the element type if variadic
	variadic bool
	mine     bool         // a helper of this program
	out      reflect.Type // pooled type or slice type
	outIdx   int
	call     func(args []reflect.Value, spread bool) []reflect.Value
}

var wops []*wop
var wopByName = map[string]*wop{}
var opsOfRecv = map[reflect.Type][]*wop{}

func isPooled(t reflect.Type) bool {
	for _, p := range pooled {
		if p == t {
			return true
		}
	}
	return false
}

func supported(t reflect.Type) bool {
	return isPooled(t) || literals[t] != nil || t == tAny
}

func isSliceOut(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && (isPooled(t.Elem()) || t.Elem() == tAny)
}

func addOp(name string, ft reflect.Type, recv reflect.Type, call func([]reflect.Value, bool) []reflect.Value) {
	o := &wop{name: name, call: call, variadic: ft.IsVariadic()}
	if recv != nil {
		o.in = append(o.in, recv)
	}
	for i := 0; i < ft.NumIn(); i++ {
		p := ft.In(i)
		if o.variadic && i == ft.NumIn()-1 {
			p = p.Elem()
		}
		o.in = append(o.in, p)
	}
	for _, p := range o.in {
		if !supported(p) {
			return
		}
	}
	for i := 0; i < ft.NumOut() && o.out == nil; i++ {
		if t := ft.Out(i); isPooled(t) || isSliceOut(t) {
			o.out, o.outIdx = t, i
		}
	}
	if o.out == nil {
		return
	}
	wops = append(wops, o)
	wopByName[name] = o
	if recv != nil {
		opsOfRecv[recv] = append(opsOfRecv[recv], o)
	}
}

func addFunc(name string, f any) {
	v := reflect.ValueOf(f)
	addOp(name, v.Type(), nil, func(args []reflect.Value, spread bool) []reflect.Value {
		if spread {
			return v.CallSlice(args)
		}
		return v.Call(args)
	})
}

// observer is a method that only shows something.
type observer struct {
	name string
	args []reflect.Value
}

var observersOf = map[reflect.Type][]observer{}

func shows(t reflect.Type) bool {
	return !isPooled(t)
}

func init() {
	lits := []reflect.Type{}
	for t := range literals {
		if t.NumMethod() > 0 {
			lits = append(lits, t)
		}
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].String() < lits[j].String() })
	for _, t := range append(append([]reflect.Type{}, pooled...), lits...) {
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			ft := m.Type
			skip := 0
			if t.Kind() != reflect.Interface {
				skip = 1
			}
			var ins []reflect.Type
			for k := skip; k < ft.NumIn(); k++ {
				ins = append(ins, ft.In(k))
			}
			var outs []reflect.Type
			for k := 0; k < ft.NumOut(); k++ {
				outs = append(outs, ft.Out(k))
			}
			name := m.Name
			addOp(strings.TrimPrefix(t.String(), "query.")+"."+name, reflect.FuncOf(ins, outs, ft.IsVariadic()), t, func(args []reflect.Value, spread bool) []reflect.Value {
				f := args[0].MethodByName(name)
				if spread {
					return f.CallSlice(args[1:])
				}
				return f.Call(args[1:])
			})
			if !isPooled(t) {
				continue
			}
			ok := len(outs) > 0
			for _, o := range outs {
				ok = ok && shows(o)
			}
			switch {
			case !ok:
			case len(ins) == 0:
				observersOf[t] = append(observersOf[t], observer{name: name})
			case len(ins) == 1 && ins[0] == tInt:
				observersOf[t] = append(observersOf[t], observer{name, []reflect.Value{reflect.ValueOf(0)}}, observer{name, []reflect.Value{reflect.ValueOf(9)}})
			case len(ins) == 1 && ins[0] == tBool:
				observersOf[t] = append(observersOf[t], observer{name, []reflect.Value{reflect.ValueOf(false)}})
			}
		}
	}
	addFunc("SelectFrom(name)", query.SelectFrom[query.TableName])
	addFunc("SelectFrom(ident)", query.SelectFrom[query.TableIdent])
	addFunc("SelectSingleFrom(name)", query.SelectSingleFrom[query.TableName])
	addFunc("SelectManyFrom(name)", query.SelectManyFrom[query.TableName])
	addFunc("SelectSingleFromBase", query.SelectSingleFromBase)
	addFunc("SelectManyFromBase", query.SelectManyFromBase)
	addFunc("InsertInto(name)", query.InsertInto[query.TableName])
	addFunc("InsertInto(ident)", query.InsertInto[query.TableIdent])
	addFunc("Update(name)", query.Update[query.TableName])
	addFunc("Delete(name)", query.Delete[query.TableName])
	addFunc("Count", query.Count)
	addFunc("NewWhere", query.NewWhere)
	addFunc("NewGroup", query.NewGroup)
	addFunc("And", query.And)
	addFunc("Or", query.Or)
	addFunc("Not", query.Not)
	addFunc("EqualTo", query.EqualTo)
	addFunc("GreaterThan", query.GreaterThan)
	addFunc("GreaterOrEqual", query.GreaterOrEqual)
	addFunc("Less", query.Less)
	addFunc("LessOrEqual", query.LessOrEqual)
	addFunc("In", query.In)
	addFunc("IsNull", query.IsNull)
	addFunc("Contains", query.Contains)
	addFunc("IContains", query.IContains)
	addFunc("Field", query.Field[query.FieldName])
	addFunc("Table", query.Table[query.TableName])
	addFunc("ASC", query.ASC)
	addFunc("DESC", query.DESC)
	addFunc("OrderBy", query.OrderBy)
	addFunc("JoinFields", query.JoinFields)
	addFunc("NewTableJoiner", query.NewTableJoiner)
	addFunc("Limiter", func() query.Limiter { return query.Limiter{} })
	addFunc("NewFieldValue", func(f query.FieldName, v any) query.FieldValue { return *query.NewFieldValue(f, v) })
	addFunc("NewFields", func(defs ...query.FieldDefinition) query.Fields {
		args := make([]any, len(defs))
		for i := range defs {
			args[i] = defs[i]
		}
		return query.NewFields(args...)
	})
	addFunc("NewFields(names)", func(a, b query.FieldName) query.Fields { return query.NewFields(a, b) })
	addFunc("ValuesMap", func(f query.FieldName, v any) []query.FieldValue {
		fvs, err := query.ValuesMap{string(f): v, "zz": 1}.FieldValues()
		if err != nil {
			return nil
		}
		return fvs
	})
	addFunc("as group", func(c query.Condition) query.Group {
		return c.(query.Group) // not a group: a failed step
	})
	addFunc("custom", func(f query.FieldName, s string) query.Condition {
		return newCustom("cust", FieldRef{N: string(f)}, 2, []any{s, s}, 0)
	})
	wopByName["as group"].mine = true
	// embedded parts taken out
	addFunc("many.base", func(b query.SelectManyBuilder) query.BaseSelectBuilder { return b.BaseSelectBuilder })
	addFunc("single.base", func(b query.SelectSingleBuilder) query.BaseSelectBuilder { return b.BaseSelectBuilder })
	addFunc("value.field", func(v query.FieldValue) query.FieldDefinition { return v.FieldDefinition })
}

// WStep is one step of a history. It makes slot number = its index.
type WStep struct {
	Op string `json:"op"`          // operation; "slice", "set", "clobber"
	A  []WArg `json:"a,omitempty"` // arguments
	T  string `json:"t,omitempty"` // slice: element type
	X  int    `json:"x,omitempty"` // spread, set, clobber: slot of the slice (+1, 0 is none)
	N  int    `json:"n,omitempty"` // slice: spare capacity; set: index; spread: how many elements
}

// WArg is a slot number or a constant.
type WArg struct {
	S int  `json:"s,omitempty"` // slot+1
	L int  `json:"l,omitempty"` // index of a literal
	V *int `json:"v,omitempty"` // index into values of the case
}

// World runs histories.
type World struct {
	vals  []any // values of the case, built once
	slots []*wslot
	steps []WStep
	deps  [][]WArg // resolved elements of spread slices, by step

	quiet  bool   // objects are not rendered when made
	suffix string // added to names
	base   int    // slots below belong to others

	wild   bool  // literals out of the ordinary
	strict bool  // panics and errors that are not the library's are kept as the fault
	fault  error // the first one
}

type wslot struct {
	typ   reflect.Type // static type
	val   reflect.Value
	ok    bool
	snap  string
	elems []WArg   // of a slice: where its elements come from, as they are now
	mine  bool     // a slice made by the caller
	held  []string // what the elements of that slice show, as the caller put them there
}

// hold remembers element k of the caller's own slice.
func (w *World) hold(s *wslot, k int) {
	for len(s.held) <= k {
		s.held = append(s.held, "")
	}
	s.held[k] = w.snapshot(&wslot{typ: s.typ.Elem(), val: s.val.Index(k)})
}

// verifyMine finds writes of the library to the caller's own slices, spare capacity included.
func (w *World) verifyMine(s *wslot) error {
	for k := range s.held {
		if now := w.snapshot(&wslot{typ: s.typ.Elem(), val: s.val.Index(k)}); now != s.held[k] {
			return fmt.Errorf("element %d was overwritten: %s", k, firstDiff(s.held[k], now))
		}
	}
	full := s.val.Slice(0, s.val.Cap())
	for k := s.val.Len(); k < full.Len(); k++ {
		if !full.Index(k).IsZero() {
			return fmt.Errorf("something was written behind its end")
		}
	}
	return nil
}

func (w *World) arg(t reflect.Type, a WArg) (v reflect.Value, ok bool) {
	switch {
	case a.S > 0:
		s := w.slots[a.S-1]
		if s == nil || !s.ok {
			return v, false
		}
		if !s.typ.AssignableTo(t) {
			return v, false
		}
		return s.val, true
	case a.V != nil:
		g := w.vals[*a.V%len(w.vals)]
		if g == nil {
			return reflect.Zero(tAny), true
		}
		return reflect.ValueOf(g), true
	}
	l := litsOf(t, w.wild)
	if len(l) == 0 {
		return v, false
	}
	switch x := l[a.L%len(l)].(type) {
	case query.FieldName:
		return reflect.ValueOf(x + query.FieldName(w.suffix)), true
	case query.TableName:
		return reflect.ValueOf(x + query.TableName(w.suffix)), true
	default:
		return reflect.ValueOf(x), true
	}
}

func sliceTypeOf(name string) reflect.Type {
	for _, p := range pooled {
		if p.String() == name {
			return p
		}
	}
	return nil
}

// invoke calls the operation with resolved arguments; a panic gives a failed step.
func invoke(o *wop, args []reflect.Value, spread bool) (res reflect.Value, ok bool, fault error) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if !o.mine && !mayPanic(o, args) {
				fault = fmt.Errorf("panic: %v", r)
			}
		}
	}()
	outs := o.call(args, spread)
	for _, out := range outs {
		if err, isErr := out.Interface().(error); isErr && out.Type() == typeOf[error]() {
			fault = checkError(err)
		}
	}
	res = outs[o.outIdx]
	if o.out.Kind() == reflect.Interface && res.IsNil() {
		return res, false, fault
	}
	return res, true, fault
}

// run executes one step and appends its slot.
func (w *World) run(st WStep) {
	s := &wslot{}
	w.slots = append(w.slots, s)
	w.steps = append(w.steps, st)
	w.deps = append(w.deps, nil)
	i := len(w.slots) - 1
	switch st.Op {
	case "observe":
		if t := w.slots[st.X-1]; t.ok {
			s.snap = w.snapshot(t)
		}
		return
	case "zero":
		s.typ, s.ok = sliceTypeOf(st.T), true
		s.val = reflect.Zero(s.typ)
		s.snap = w.snapshot(s)
		return
	case "slice":
		et := sliceTypeOf(st.T)
		sl := reflect.MakeSlice(reflect.SliceOf(et), 0, len(st.A)+st.N)
		for _, a := range st.A {
			v, ok := w.arg(et, a)
			if !ok {
				return
			}
			sl = reflect.Append(sl, v)
		}
		s.typ, s.val, s.ok, s.mine = sl.Type(), sl, true, true
		s.elems = append([]WArg{}, st.A...)
		for k := 0; k < sl.Len() && !w.quiet; k++ {
			w.hold(s, k)
		}
		return
	case "set": // the caller changes its own slice
		t := w.slots[st.X-1]
		if !t.ok || !t.mine || t.val.Len() == 0 || st.X <= w.base {
			return
		}
		v, ok := w.arg(t.typ.Elem(), st.A[0])
		if !ok {
			return
		}
		k := st.N % t.val.Len()
		t.val.Index(k).Set(v)
		t.elems = append([]WArg{}, t.elems...)
		t.elems[k] = st.A[0]
		if !w.quiet {
			w.hold(t, k)
		}
		return
	case "clobber": // the caller changes a slice it got from a call, spare capacity included
		t := w.slots[st.X-1]
		if !t.ok || t.mine || t.typ.Kind() != reflect.Slice || st.X <= w.base {
			return
		}
		full := t.val.Slice(0, t.val.Cap())
		var v reflect.Value
		if t.typ == tAnys {
			v = reflect.ValueOf("clobbered")
		} else {
			var ok bool
			if v, ok = w.arg(t.typ.Elem(), st.A[0]); !ok {
				return
			}
		}
		for k := 0; k < full.Len(); k++ {
			full.Index(k).Set(v)
		}
		t.ok = false
		return
	}
	o := wopByName[st.Op]
	if o == nil {
		panic("unknown operation " + st.Op) // a method that is gone; see known() in decode
	}
	var args []reflect.Value
	fixed := len(o.in)
	if o.variadic {
		fixed--
	}
	for k, a := range st.A {
		t := o.in[len(o.in)-1]
		if k < fixed {
			t = o.in[k]
		}
		v, ok := w.arg(t, a)
		if !ok {
			return
		}
		args = append(args, v)
	}
	spread := false
	if st.X > 0 {
		sl := w.slots[st.X-1]
		if !sl.ok || !sl.mine {
			return
		}
		n := sl.val.Len()
		if st.N > 0 && st.N < n {
			n = st.N // a part of the slice, so the rest is spare capacity
		}
		args = append(args, sl.val.Slice(0, n))
		w.deps[i] = sl.elems[:n]
		spread = true
	}
	res, ok, fault := invoke(o, args, spread)
	if w.strict && w.fault == nil {
		w.fault = fault
	}
	if !ok {
		return
	}
	s.typ, s.val, s.ok = o.out, res, true
	if isPooled(o.out) && !w.quiet {
		s.snap = w.snapshot(s)
	}
}

// snapshot is everything the object shows.
func (w *World) snapshot(s *wslot) string {
	var b strings.Builder
	for _, ob := range observersOf[s.typ] {
		b.WriteString(ob.name)
		b.WriteByte('=')
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(&b, "panic %v", r)
					if w.strict && w.fault == nil {
						w.fault = fmt.Errorf("%s of the object panics: %v", ob.name, r)
					}
				}
			}()
			for _, r := range s.val.MethodByName(ob.name).Call(ob.args) {
				if err, isErr := r.Interface().(error); isErr && w.strict && w.fault == nil && r.Type() == typeOf[error]() {
					w.fault = checkError(err)
				}
				show(&b, r.Interface())
			}
		}()
		b.WriteByte('\n')
	}
	if c, ok := s.val.Interface().(query.Condition); ok {
		fmt.Fprintf(&b, "negated=%s", c.Negate(true).Render(0))
	}
	return b.String()
}

func show(b *strings.Builder, x any) {
	switch t := x.(type) {
	case []any:
		b.WriteString(showParams(t))
	case []query.FieldDefinition:
		for _, d := range t {
			fmt.Fprintf(b, "(%s,%s,%s)", d.TableName(), d.FieldName(), d.Alias())
		}
	case []query.FieldValue:
		for _, d := range t {
			fmt.Fprintf(b, "(%s,%s=%s)", d.TableName(), d.FieldName(), showParams(d.Values()))
		}
	case []query.Condition:
		for _, c := range t {
			fmt.Fprintf(b, "(%s %s %s)", c.JoinType(), c.Render(0), showParams(c.Values()))
		}
	case error:
		b.WriteString(t.Error())
	default:
		fmt.Fprintf(b, "%v;", x)
	}
}

// verify compares every object with its first snapshot.
func (w *World) verify(when string) error {
	for i, s := range w.slots {
		if s.ok && s.mine && !w.quiet {
			if err := w.verifyMine(s); err != nil {
				return fmt.Errorf("%s slice #%d of the caller is not what it was: %w", when, i, err)
			}
		}
		if !s.ok || !isPooled(s.typ) {
			continue
		}
		if now := w.snapshot(s); now != s.snap {
			return fmt.Errorf("%s object #%d made by %s is not what it was: %s", when, i, w.steps[i].Op, firstDiff(s.snap, now))
		}
	}
	return nil
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			return fmt.Sprintf("was %q, now %q", x[i], y[i])
		}
	}
	return fmt.Sprintf("was %q, now %q", a, b)
}

// rebuild makes object i again from nothing, with only the steps it depends on.
func (w *World) rebuild(i int, memo map[int]*wslot) (*wslot, error) {
	if s, ok := memo[i]; ok {
		return s, nil
	}
	st := w.steps[i]
	o := wopByName[st.Op]
	orig := w.slots[i]
	arg := func(t reflect.Type, a WArg) (reflect.Value, error) {
		if a.S == 0 {
			v, _ := w.arg(t, a)
			return v, nil
		}
		s, err := w.rebuild(a.S-1, memo)
		if err != nil {
			return reflect.Value{}, err
		}
		return s.val, nil
	}
	var args []reflect.Value
	fixed := len(o.in)
	if o.variadic {
		fixed--
	}
	for k, a := range append(append([]WArg{}, st.A...), w.deps[i]...) {
		t := o.in[len(o.in)-1]
		if k < fixed {
			t = o.in[k]
		}
		v, err := arg(t, a)
		if err != nil {
			return nil, err
		}
		args = append(args, v)
	}
	res, ok, _ := invoke(o, args, false)
	if !ok {
		return nil, fmt.Errorf("%s fails when its object #%d is made again", st.Op, i)
	}
	s := &wslot{typ: o.out, val: res, ok: true}
	if isPooled(o.out) {
		s.snap = w.snapshot(s)
		if s.snap != orig.snap {
			return nil, fmt.Errorf("object #%d made by %s differs from the same object made from nothing: %s", i, st.Op, firstDiff(s.snap, orig.snap))
		}
	}
	memo[i] = s
	return s, nil
}

// Generation. The generator knows static types only and never calls the library.

type wgen struct {
	t     *rapid.T
	types []reflect.Type // static type by slot, nil if none
	mine  []bool
	steps []WStep
	focus reflect.Type
	nvals int
	sizes []int // how many steps made the object, those of its arguments included
	base  int   // slots below base are shared (concurrent histories)
	wild  bool
}

func (g *wgen) slotsFor(t reflect.Type) (res []int) {
	for i, st := range g.types {
		if st != nil && isPooled(st) && st.AssignableTo(t) {
			res = append(res, i)
		}
	}
	return
}

func (g *wgen) pick(t reflect.Type, label string) (int, bool) {
	c := g.slotsFor(t)
	if len(c) == 0 {
		return 0, false
	}
	var small []int // objects made of themselves over and over would never end
	for _, i := range c {
		if i >= len(g.sizes) || g.sizes[i] <= 60 {
			small = append(small, i)
		}
	}
	if c = small; len(c) == 0 {
		return 0, false
	}
	if len(c) > 4 && rapid.IntRange(0, 2).Draw(g.t, label+"recent") != 0 {
		c = c[len(c)-4:]
	}
	return c[rapid.IntRange(0, len(c)-1).Draw(g.t, label)], true
}

func (g *wgen) arg(t reflect.Type) (WArg, bool) {
	if t == tAny {
		v := rapid.IntRange(0, g.nvals-1).Draw(g.t, "val")
		return WArg{V: &v}, true
	}
	if l := litsOf(t, g.wild); l != nil {
		return WArg{L: rapid.IntRange(0, len(l)-1).Draw(g.t, "lit")}, true
	}
	i, ok := g.pick(t, "slot")
	return WArg{S: i + 1}, ok
}

func (g *wgen) push(st WStep, t reflect.Type, mine bool) {
	for len(g.sizes) < len(g.steps) {
		g.sizes = append(g.sizes, 1)
	}
	size := 1
	for _, a := range st.A {
		if a.S > 0 {
			size += g.sizes[a.S-1]
		}
	}
	if st.X > 0 {
		size += g.sizes[st.X-1]
	}
	g.sizes = append(g.sizes, size)
	g.steps = append(g.steps, st)
	g.types = append(g.types, t)
	g.mine = append(g.mine, mine)
}

// ensure makes an object of the type if there is none.
func (g *wgen) ensure(t reflect.Type, depth int) bool {
	if supported(t) && !isPooled(t) {
		return true
	}
	have := len(g.slotsFor(t))
	if have > 0 && (have >= 4 || depth > 1 || rapid.IntRange(0, 2).Draw(g.t, "another") != 0) {
		return true
	}
	if depth > 4 {
		return false
	}
	var makers []*wop
	for _, o := range wops {
		if o.out == t && (len(o.in) == 0 || !containsType(o.in, t)) && !strings.HasPrefix(o.name, "as group") {
			makers = append(makers, o)
		}
	}
	if len(makers) == 0 {
		return false
	}
	// prefer constructors from constants
	var simple []*wop
	for _, o := range makers {
		ok := true
		for k, p := range o.in {
			if isPooled(p) && !(o.variadic && k == len(o.in)-1) {
				ok = false
			}
		}
		if ok {
			simple = append(simple, o)
		}
	}
	if len(simple) > 0 {
		makers = simple
	}
	return g.call(makers[rapid.IntRange(0, len(makers)-1).Draw(g.t, "maker")], depth+1)
}

func containsType(ts []reflect.Type, t reflect.Type) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// call adds a call of the operation.
func (g *wgen) call(o *wop, depth int) bool {
	st := WStep{Op: o.name}
	fixed := len(o.in)
	if o.variadic {
		fixed--
	}
	for _, t := range o.in {
		if !g.ensure(t, depth) {
			return false
		}
	}
	for k := 0; k < fixed; k++ {
		a, ok := g.arg(o.in[k])
		if !ok {
			return false
		}
		st.A = append(st.A, a)
	}
	if o.variadic {
		et := o.in[fixed]
		var own []int
		for i, t := range g.types {
			if t != nil && g.mine[i] && t.Elem() == et {
				own = append(own, i)
			}
		}
		if len(own) > 0 && rapid.IntRange(0, 2).Draw(g.t, "spread") == 0 {
			st.X = own[rapid.IntRange(0, len(own)-1).Draw(g.t, "slice")] + 1
			st.N = rapid.IntRange(0, 3).Draw(g.t, "part")
		} else {
			n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 0}).Draw(g.t, "nvar")
			for i := 0; i < n; i++ {
				a, ok := g.arg(et)
				if !ok {
					return false
				}
				st.A = append(st.A, a)
			}
		}
	}
	g.push(st, o.out, false)
	return true
}

func (g *wgen) step() {
	t := g.t
	switch k := rapid.IntRange(0, 19).Draw(t, "what"); {
	case k == 0: // a slice of the caller
		et := rapid.SampledFrom([]reflect.Type{tCondition, tCondition, typeOf[query.FieldDefinition](), typeOf[query.FieldValue](), typeOf[query.FieldSorting]()}).Draw(t, "et")
		st := WStep{Op: "slice", T: et.String(), N: rapid.IntRange(0, 3).Draw(t, "spare")}
		if !g.ensure(et, 0) {
			return
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
			a, ok := g.arg(et)
			if !ok {
				return
			}
			st.A = append(st.A, a)
		}
		g.push(st, reflect.SliceOf(et), true)
		return
	case k == 1 || k == 2: // change a slice
		var cs []int
		for i, ty := range g.types {
			if ty != nil && ty.Kind() == reflect.Slice && i >= g.base {
				cs = append(cs, i)
			}
		}
		if len(cs) == 0 {
			break
		}
		i := cs[rapid.IntRange(0, len(cs)-1).Draw(t, "which")]
		st := WStep{Op: "clobber", X: i + 1}
		if g.mine[i] {
			st.Op, st.N = "set", rapid.IntRange(0, 3).Draw(t, "idx")
		}
		if et := g.types[i].Elem(); et != tAny {
			if !g.ensure(et, 0) {
				return
			}
			a, ok := g.arg(et)
			if !ok {
				return
			}
			st.A = append(st.A, a)
		}
		g.push(st, nil, false)
		return
	}
	ops := wops
	if rapid.IntRange(0, 3).Draw(t, "focused") != 0 {
		ops = opsOfRecv[g.focus]
	}
	g.call(ops[rapid.IntRange(0, len(ops)-1).Draw(t, "op")], 0)
}

type WorldCase struct {
	Wild  bool    `json:"wild,omitempty"`
	Vals  []Val   `json:"vals"`
	Steps []WStep `json:"steps"`
}

func genWorldVals(t *rapid.T) []Val {
	x := &ids{}
	vals := make([]Val, 6)
	for i := range vals {
		switch rapid.IntRange(0, 3).Draw(t, "valkind") {
		case 0:
			vals[i] = genInVal(t, x)
		case 1:
			vals[i] = genScalarOfKind(t, x, rapid.SampledFrom(scalarKinds).Draw(t, "k"))
		default:
			vals[i] = genScalarOfKind(t, x, "int")
		}
	}
	return vals
}

func genWorld(t *rapid.T) *WorldCase {
	c := &WorldCase{Vals: genWorldVals(t)}
	g := &wgen{t: t, nvals: len(c.Vals), focus: rapid.SampledFrom(focusTypes).Draw(t, "focus")}
	n := rapid.IntRange(3, 28).Draw(t, "n")
	for i := 0; i < n; i++ {
		g.step()
	}
	c.Steps = g.steps
	return c
}

// on makes the last slot of the type the receiver of the operation.
func (g *wgen) on(o *wop, recv int) bool {
	if !g.call(o, 0) {
		return false
	}
	g.steps[len(g.steps)-1].A[0] = WArg{S: recv + 1}
	g.sizes[len(g.sizes)-1] += g.sizes[recv]
	return true
}

// genFork lengthens one object call by call, so that its lists get spare capacity, and then derives several objects
// from it, and from those again.
func genFork(t *rapid.T) *WorldCase {
	c := &WorldCase{Vals: genWorldVals(t)}
	g := &wgen{t: t, nvals: len(c.Vals), focus: rapid.SampledFrom(focusTypes).Draw(t, "focus")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "pre"); i < n; i++ {
		g.step()
	}
	if !g.ensure(g.focus, 0) {
		c.Steps = g.steps
		return c
	}
	cur := g.slotsFor(g.focus)
	at := cur[len(cur)-1]
	var same, other []*wop // calls that give the same type, and the others
	for _, o := range opsOfRecv[g.focus] {
		if o.out == g.focus {
			same = append(same, o)
		} else {
			other = append(other, o)
		}
	}
	// incomplete joins are made from builders: the pair of calls lengthens
	finish := func() {
		last := len(g.types) - 1
		if last < 0 || g.types[last] == nil {
			return
		}
		for _, o := range opsOfRecv[g.types[last]] {
			if strings.HasSuffix(o.name, ".On") && o.out == g.focus {
				g.on(o, last)
			}
		}
	}
	grow := func(ops []*wop, label string) {
		if len(ops) == 0 || g.sizes[at] > 600 {
			return
		}
		o := ops[rapid.IntRange(0, len(ops)-1).Draw(t, label)]
		if g.on(o, at) {
			finish()
			if last := len(g.types) - 1; g.types[last] == g.focus {
				at = last
			}
		}
	}
	var main *wop
	all := append(append([]*wop{}, same...), other...)
	main = all[rapid.IntRange(0, len(all)-1).Draw(t, "main")]
	if lists := listOps(same); len(lists) > 0 && rapid.Bool().Draw(t, "lists") {
		main = lists[rapid.IntRange(0, len(lists)-1).Draw(t, "main2")]
	}
	chain := rapid.IntRange(0, 9).Draw(t, "chain")
	if rapid.IntRange(0, 60).Draw(t, "longchain") == 0 {
		chain = rapid.IntRange(10, 70).Draw(t, "chainlen")
	}
	for i := 0; i < chain; i++ {
		if rapid.IntRange(0, 4).Draw(t, "use") != 0 {
			grow([]*wop{main}, "grow")
		} else {
			grow(all, "grow")
		}
	}
	root := at
	for i, n := 0, rapid.IntRange(2, 4).Draw(t, "forks"); i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "back") != 0 {
			at = root
		}
		if rapid.IntRange(0, 3).Draw(t, "use") != 0 {
			grow([]*wop{main}, "fork")
		} else {
			grow(all, "fork")
		}
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "post"); i < n; i++ {
		g.step()
	}
	c.Steps = g.steps
	return c
}

// listOps are operations taking lists.
func listOps(ops []*wop) (res []*wop) {
	for _, o := range ops {
		if o.variadic {
			res = append(res, o)
		}
	}
	return
}

func buildVals(vs []Val) []any {
	res := make([]any, len(vs))
	for i := range vs {
		res[i] = vs[i].Go()
	}
	return res
}

// knownOps fails for histories recorded against methods that do not exist any more.
func knownOps(steps []WStep) bool {
	for _, s := range steps {
		if s.Op != "slice" && s.Op != "zero" && s.Op != "observe" && s.Op != "set" && s.Op != "clobber" && wopByName[s.Op] == nil {
			return false
		}
	}
	return true
}

func checkWorld(c *WorldCase, o *Obs) error {
	if !knownOps(c.Steps) {
		return errSkip
	}
	w := &World{vals: buildVals(c.Vals)}
	given := showParams(w.vals)
	derived, changed, failed := map[int]int{}, 0, 0
	for i, st := range c.Steps {
		w.run(st)
		if st.Op == "set" || st.Op == "clobber" {
			changed++
		} else if !w.slots[i].ok {
			failed++
		} else if len(st.A) > 0 && st.A[0].S > 0 && st.Op != "slice" {
			derived[st.A[0].S]++
		}
		if i == len(c.Steps)/2 {
			if err := w.verify(fmt.Sprintf("after step #%d", i)); err != nil {
				return err
			}
		}
	}
	shared := 0
	for _, n := range derived {
		if n >= 2 {
			shared++
		}
	}
	o.nontrivial = shared > 0 || changed > 0
	o.label("objects with several derived: %s", bucket(shared))
	o.label("slice changes: %s", bucket(changed))
	o.label("failed steps: %s", bucket(failed))
	if err := w.verify("at the end"); err != nil {
		return err
	}
	if now := showParams(w.vals); now != given {
		return fmt.Errorf("values of the caller were %s, now %s", given, now)
	}
	memo := map[int]*wslot{}
	for i, s := range w.slots {
		if s.ok && isPooled(s.typ) {
			if _, err := w.rebuild(i, memo); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C05",
		Rule: "histories of calls of every exported method and constructor on a pool of objects, with caller's slices (spare capacity, partly passed) and returned slices changed in between; every object is rendered when made, halfway and at the end, and made again from nothing; non-trivial: some object has several objects derived from it, or a slice was changed",
		Parts: []Part{
			&part[WorldCase]{Name: "histories", Quick: 20000, Thorough: 200000, Gen: genWorld, Check: checkWorld},
			&part[WorldCase]{Name: "forks", Quick: 30000, Thorough: 300000, Gen: genFork, Check: checkWorld},
			&part[BatchCase]{Name: "retained", Quick: 800, Thorough: 10000, Gen: genBatch(12), Check: checkRetained},
		},
	})
}
