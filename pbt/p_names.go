package main

// C26: statements are parametric in names. A program is run twice: with plain names, one per distinct name, and
// with odd ones; the texts have to agree once the plain names are replaced, everything else has to be the same.

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type RenameCase struct {
	S     *StmtCase  `json:"s,omitempty"`
	C     *Cond      `json:"c,omitempty"`
	Apps  []FieldApp `json:"apps,omitempty"`  // applied to the condition
	List  []FieldRef `json:"list,omitempty"`  // names and collections
	Merge int        `json:"merge,omitempty"` // that many distinct names are left, if positive
	Odd   [][]byte   `json:"odd"`
}

// sqlWords are names that mean something in SQL, to some database or to some other query builder.
var sqlWords = strings.Fields(`select from where and or not in isnull null like ilike limit offset order by group having asc desc as on join inner left right full outer
	cross insert into values update set delete count distinct all union true false default user current_user table column index primary key returning with exists between is case end
	date time timestamp value values rowid rownum id ctid excluded new old public dbo offset_ limit1 nulls first last any some array row lateral`)

// genOdd draws names without whitespace, dots and quotes, all distinct.
func genOdd(t *rapid.T, n int) (odd [][]byte) {
	seen := map[string]bool{"": true, "*": true}
	plain := rapid.StringMatching(`[a-zA-Z]{1,6}`).Draw(t, "stem")
	add := func(s string) {
		for k := 0; seen[s]; k++ {
			s += strconv.Itoa(k)
		}
		seen[s] = true
		odd = append(odd, []byte(s))
	}
	cased := func(s string) string {
		switch rapid.IntRange(0, 3).Draw(t, "case") {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	}
	for len(odd) < n {
		switch rapid.IntRange(0, 12).Draw(t, "odd") {
		case 11: // anything
			s := strings.Map(func(r rune) rune {
				if unicode.IsSpace(r) || strings.ContainsRune(".'\"", r) {
					return -1
				}
				return r
			}, rapid.StringN(1, 6, -1).Draw(t, "any"))
			switch rapid.IntRange(0, 2).Draw(t, "with") {
			case 0:
				s = plain + s
			case 1:
				s += plain
			}
			if s == "" {
				s = plain
			}
			add(s)
		case 0, 1, 2:
			add(cased(rapid.SampledFrom(sqlWords).Draw(t, "word")))
		case 3: // alike but for case
			add(cased(plain))
		case 4: // alike for a long way
			add(longIdent(rapid.SampledFrom([]int{15, 16, 17, 29, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 260, 600}).Draw(t, "len"), rapid.IntRange(0, 5).Draw(t, "end")))
		case 5:
			add(rapid.SampledFrom([]string{"é", "e\u0301", "Å", "\u212b", "ﬁ", "ß", "ẞ", "İ", "ı", "ſ", "K", "\u212a", "字段", "поле", "🙂", "\ufeffa", "a\u200db", "\u202eab", "\u00ad", "ａ", "\ufffd", "²", "Ⅷ"}).Draw(t, "uni"))
		case 6: // not UTF-8
			add(rapid.SampledFrom([]string{"a\xff", "\xffa", "\xfe\xff", "\xc3", "a\xc3b", "\xed\xa0\x80", "na\xefve", "\xe2\x82", "\xf8\x88\x80\x80\x80", "a\xc0\x80"}).Draw(t, "bytes"))
		case 7:
			add(rapid.SampledFrom([]string{"a\x00b", "\x00", "\x7f", "a\x01", "\x1b[0m", "a\bb"}).Draw(t, "ctl"))
		case 8:
			add(rapid.SampledFrom([]string{"a-b", "a:b", "a;b", "a,b", "(a)", "f(a)", "COUNT(*)", "a::int", "data->>x", "a||b", "--", "/**/", "a--", "[a]", "`a`", "a%b", "%s", "%d", "%!s", "a\\b", "\\", "?", "$1", "$", "a?", "@a", "#a", "a#", "!", "<>", "=", "a=b", "{a}", "a&b", "~", "^a", "|", "+1", "-1"}).Draw(t, "punct"))
		case 9:
			add(rapid.SampledFrom([]string{"1", "0", "007", "1a", "1e3", "0x1F", "_", "__", "_1", "$a", "a$1", "a1", "a01", "a2", "a10"}).Draw(t, "digits"))
		case 10:
			add(rapid.StringMatching(`[a-cA-C_]{1,3}`).Draw(t, "short"))
		default:
			add(rapid.SampledFrom(names).Draw(t, "name"))
		}
	}
	return
}

// renamer replaces the names of a program.
type renamer struct {
	merge int
	index map[string]int // distinct names in the order of appearance
	name  func(i int) string
}

func (r *renamer) one(s string) string {
	if s == "" || s == "*" {
		return s
	}
	i, ok := r.index[s]
	if !ok {
		i = len(r.index)
		r.index[s] = i
	}
	if r.merge > 0 {
		i %= r.merge
	}
	return r.name(i)
}

// dotted replaces every part of a qualified name.
func (r *renamer) dotted(s string) string {
	parts := strings.Split(s, ".")
	for i := range parts {
		parts[i] = r.one(parts[i])
	}
	return strings.Join(parts, ".")
}

// walk replaces the names in everything reachable from the value.
func (r *renamer) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *FieldRef:
			x.T, x.N, x.A = r.one(x.T), r.one(x.N), r.one(x.A)
			return
		case *TabSpec:
			x.N, x.A = r.dotted(x.N), r.one(x.A)
			return
		case *Val:
			return
		case *StmtCase:
			x.CountOf = r.dotted(x.CountOf)
		case *FieldApp:
			x.T = r.one(x.T)
		}
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	}
}

// renamed gives a copy with other names and the number of distinct names of the original.
func (c *RenameCase) renamed(name func(i int) string) (*RenameCase, int) {
	d := clone(c)
	r := &renamer{merge: c.Merge, index: map[string]int{}, name: name}
	r.walk(reflect.ValueOf(d))
	return d, len(r.index)
}

func baseName(i int) string { return fmt.Sprintf("zq%05dq", i) }

func (c *RenameCase) oddName(i int) string {
	if len(c.Odd) == 0 {
		return baseName(i)
	}
	s := string(c.Odd[i%len(c.Odd)])
	if i >= len(c.Odd) { // distinct as no drawn name has this mark
		s += "~~" + strconv.Itoa(i/len(c.Odd))
	}
	return s
}

// said is what a program gives: texts and parameters.
type said struct {
	what  []string
	texts []string
	outs  []outcome
	sets  []map[string]bool
}

func (s *said) text(what, text string) {
	s.what = append(s.what, what)
	s.texts = append(s.texts, text)
}

func (s *said) built(what string, sql string, params []any, err error) {
	s.text(what, sql)
	o := outcome{params: params}
	if err != nil {
		o.err = fmt.Sprint("error, the library's: ", errors.Is(err, query.Error))
	}
	s.outs = append(s.outs, o)
}

func (c *RenameCase) say() *said {
	s := &said{}
	cb := &condBuilder{}
	if c.S != nil {
		c.S.say(s)
	}
	if c.C != nil {
		b := cb.build(c.C)
		res := b.C
		show := func(what string, x query.Condition) {
			s.text(what, x.Render(0))
			s.text(what+" at 9", x.Render(9))
			s.text(what+" RenderSQL", x.RenderSQL())
			s.text(what+" FieldName", string(x.FieldName()))
			s.built(what+" values", "", x.Values(), nil)
		}
		show("condition", res)
		for i, a := range c.Apps {
			if a.F == nil {
				res = res.ApplyFieldTable(query.TableName(a.T))
			} else {
				res = res.ApplyFieldSpec(a.F.def(a.Via))
			}
			show(fmt.Sprintf("condition after application #%d", i+1), res)
		}
		w := query.NewWhere().GroupAND(b.C)
		s.text("where clause", w.Render(0))
	}
	if len(c.List) > 0 {
		var fns []query.FieldName
		var args []any
		var fvs []query.FieldValue
		m := query.ValuesMap{}
		for i, f := range c.List {
			fns = append(fns, query.FieldName(f.qualified()))
			m[f.qualified()] = i
			fvs = append(fvs, query.FieldName(f.spec()).Value(i))
			switch i % 3 {
			case 0:
				args = append(args, f.spec())
			case 1:
				args = append(args, query.FieldName(f.spec()))
			default:
				args = append(args, f.def(i))
			}
		}
		fs := query.NewFields(args...)
		s.text("NewFields", fs.FieldList())
		for i, n := range query.UniqFieldNames(fns) {
			s.text(fmt.Sprint("UniqFieldNames #", i+1), string(n))
		}
		for i, d := range fs.FieldDefinitions() {
			s.text(fmt.Sprint("definition #", i+1), d.RenderSpec()+"|"+d.RenderField()+"|"+d.RenderTableSpec()+"|"+string(d.FieldName())+"|"+string(d.TableName())+"|"+string(d.Alias()))
		}
		for i, v := range fvs {
			v = v.ApplyFieldTable(query.TableName(c.List[(i+1)%len(c.List)].N))
			s.text(fmt.Sprint("value #", i+1), string(v.FieldName()))
		}
		for i, f := range c.List {
			for j, g := range c.List[:min(len(c.List), 5)] {
				d, fn := g.def(j), query.FieldName(f.qualified())
				s.text(fmt.Sprintf("ordering #%d after application of #%d", i+1, j+1), query.ASC(fn).ApplyFieldSpec(d).Render())
				v := query.NewFieldValue(fn, i).ApplyFieldSpec(d)
				s.text(fmt.Sprintf("value #%d after application of #%d", i+1, j+1), v.RenderSpec()+"|"+string(v.FieldName()))
			}
		}
		set := map[string]bool{}
		mvs, err := m.FieldValues()
		s.built("ValuesMap", "", nil, err)
		for _, fv := range mvs {
			set[string(fv.FieldName())] = true
		}
		s.sets = append(s.sets, set)
	}
	return s
}

func (c *StmtCase) say(s *said) {
	cb := &condBuilder{}
	if c.Mod != nil {
		m := runMod(c.Mod, cb)
		sql, params, err := m.build()
		s.built("statement", sql, params, err)
		var tn query.TableName
		var from string
		var sets []query.FieldValue
		switch m.kind {
		case "INSERT":
			tn, from, sets = m.ins.TableName(), m.ins.RenderFrom(), m.ins.SetValues()
		case "UPDATE":
			tn, from, sets = m.upd.TableName(), m.upd.RenderFrom(), m.upd.SetValues()
		default:
			tn, from = m.del.TableName(), m.del.RenderFrom()
		}
		s.text("TableName", string(tn))
		s.text("RenderFrom", from)
		for i, fv := range sets {
			s.text(fmt.Sprint("SetValues #", i+1), string(fv.FieldName()))
		}
		return
	}
	st := runSel(c.Sel, cb)
	if c.Count {
		var f []query.FieldName
		if c.CountOf != "" {
			f = append(f, query.FieldName(c.CountOf))
		}
		sql, params, err := st.count(f...).BuildQueryAndParams()
		s.built("statement", sql, params, err)
		return
	}
	sql, params, err := st.build()
	s.built("statement", sql, params, err)
	s.text("Render(7)", st.renderAt(7))
	s.text("RenderSQL", st.renderSQL())
	s.text("RenderFrom", st.renderFrom())
	s.built("Values", "", st.values(), nil)
	var tn query.TableName
	var defs []query.FieldDefinition
	switch st.kind {
	case "base":
		tn, defs = st.base.TableName(), st.base.FieldDefinitions()
	case "single":
		tn, defs = st.single.TableName(), st.single.FieldDefinitions()
		s.text("FieldList", st.single.FieldList())
	case "many":
		tn, defs = st.many.TableName(), st.many.FieldDefinitions()
		s.text("FieldList", st.many.FieldList())
	}
	s.text("TableName", string(tn))
	for i, d := range defs {
		s.text(fmt.Sprint("FieldDefinitions #", i+1), d.RenderSpec()+"|"+string(d.FieldName())+"|"+string(d.TableName())+"|"+string(d.Alias()))
	}
}

func genRename(t *rapid.T) *RenameCase {
	c := &RenameCase{Merge: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5, 10}).Draw(t, "merge")}
	o := condOpts{custom: true}
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0, 1, 2, 3, 4:
		c.S = genStmtCase(t, o, true, true)
	case 5, 6, 7:
		c.C = genCond(t, &ids{}, genSize(t, 8), o)
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "napps"); i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, "table") == 0 {
				c.Apps = append(c.Apps, FieldApp{T: genIdent(t, "apptable")})
				continue
			}
			f := genFieldRef(t, nil)
			if leaves := fieldsOf(c.C, nil); len(leaves) > 0 && rapid.IntRange(0, 4).Draw(t, "hit") != 0 {
				f.N = leaves[rapid.IntRange(0, len(leaves)-1).Draw(t, "leaf")].N
			}
			f = normalRef(f)
			c.Apps = append(c.Apps, FieldApp{F: &f, Via: rapid.IntRange(0, 3).Draw(t, "appvia")})
		}
	default:
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "nlist"); i < n; i++ {
			c.List = append(c.List, genFieldRef(t, nil))
		}
	}
	_, n := c.renamed(baseName)
	c.Odd = genOdd(t, min(n, 12))
	return c
}

func genBigRename(t *rapid.T) *RenameCase {
	c := &RenameCase{}
	o := condOpts{custom: true}
	if rapid.IntRange(0, 3).Draw(t, "what") == 0 {
		c.C = growCond(t, &ids{n: 100}, o)
	} else {
		c.S = growStmtCase(o, "SELECT", "COUNT", "INSERT", "UPDATE", "DELETE")(t)
	}
	_, n := c.renamed(baseName)
	c.Odd = genOdd(t, min(n, 20))
	return c
}

func fieldsOf(c *Cond, fs []FieldRef) []FieldRef {
	if c.F != nil {
		fs = append(fs, *c.F)
	}
	for _, k := range c.Kids {
		fs = fieldsOf(k, fs)
	}
	return fs
}

func checkRename(c *RenameCase, o *Obs) error {
	base, n := c.renamed(baseName)
	odd, _ := c.renamed(c.oddName)
	left := n
	if c.Merge > 0 {
		left = min(left, c.Merge)
	}
	o.nontrivial = left >= 2
	o.label("distinct names %s", bucket(left))
	o.labelIf(c.S != nil, "statement")
	o.labelIf(c.C != nil, "condition")
	o.labelIf(len(c.Apps) > 0, "applications")
	o.labelIf(len(c.List) > 0, "collections")
	o.labelIf(c.Merge > 0, "names merged")
	pairs := make([]string, 0, 2*n)
	for i := 0; i < n; i++ {
		pairs = append(pairs, baseName(i), c.oddName(i))
	}
	rename := strings.NewReplacer(pairs...)
	a, b := base.say(), odd.say()
	if len(a.texts) != len(b.texts) {
		return fmt.Errorf("with the names %q there are %d texts, with plain names %d", c.Odd, len(b.texts), len(a.texts))
	}
	for i := range a.texts {
		if want := rename.Replace(a.texts[i]); b.texts[i] != want || a.what[i] != b.what[i] {
			return shortErr(fmt.Errorf("%s is %q, expected %q as with plain names: %q", b.what[i], b.texts[i], want, a.texts[i]))
		}
	}
	for i := range a.outs {
		if err := a.outs[i].sameRebuilt(b.outs[i]); err != nil {
			return shortErr(fmt.Errorf("with the names %q: %w", c.Odd, err))
		}
	}
	for i := range a.sets {
		if len(a.sets[i]) != len(b.sets[i]) {
			return fmt.Errorf("the map gives %d fields, with plain names %d", len(b.sets[i]), len(a.sets[i]))
		}
		for k := range a.sets[i] {
			if !b.sets[i][rename.Replace(k)] {
				return fmt.Errorf("the map has no field %q", rename.Replace(k))
			}
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C26",
		Rule: "programs, conditions with field applications and name collections run with plain names and with odd ones (SQL words, case variants, long alike names, Unicode, bytes that are not UTF-8, control characters, punctuation, digits; no whitespace, dots or quotes), any number of distinct names down to one; non-trivial: two distinct names at least" + scaleRule,
		Parts: []Part{
			&part[RenameCase]{Name: "rename", Quick: 200000, Thorough: 900000, Gen: genRename, Check: checkRename},
			&part[RenameCase]{Name: "scale", Quick: 1500, Thorough: 6000, Gen: genBigRename, Check: checkRename},
		},
	})
}
