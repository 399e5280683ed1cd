package main

// Properties of fields, tables and names: C13, C14, C15, C16, C24.

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

// splitSpace splits a text at whitespace runes.
func splitSpace(s string) (toks []string) {
	cur := ""
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if unicode.IsSpace(r) {
			if cur != "" {
				toks = append(toks, cur)
			}
			cur = ""
		} else {
			cur += s[:n]
		}
		s = s[n:]
	}
	if cur != "" {
		toks = append(toks, cur)
	}
	return toks
}

func isAS(s string) bool {
	return len(s) == 2 && (s[0] == 'a' || s[0] == 'A') && (s[1] == 's' || s[1] == 'S')
}

type parsed struct {
	ok, unsure bool
	t, n, a    string
}

// parseFieldSpec is the documented grammar of a field specification.
func parseFieldSpec(s string) (p parsed) {
	toks := splitSpace(s)
	if len(toks) != 1 && len(toks) != 3 {
		return p
	}
	if len(toks) == 3 {
		if !isAS(toks[1]) {
			p.unsure = strings.EqualFold(toks[1], "as") // letters that only fold to AS
			return p
		}
		p.a = toks[2]
		p.unsure = strings.Contains(p.a, ".") // an alias with dots is not described
	}
	parts := strings.Split(toks[0], ".")
	switch len(parts) {
	case 1:
		p.n = parts[0]
	case 2:
		p.t, p.n = parts[0], parts[1]
		if p.t == "" || p.n == "" {
			return parsed{}
		}
	default:
		return parsed{}
	}
	if p.t == "" && p.a == p.n {
		p.a = ""
	}
	p.ok = true
	return p
}

// parseTableSpec is the documented grammar of a table specification.
func parseTableSpec(s string) (p parsed) {
	toks := splitSpace(s)
	switch {
	case len(toks) == 1:
		p.n = toks[0]
	case len(toks) == 2:
		p.n, p.a = toks[0], toks[1]
	case len(toks) == 3 && isAS(toks[1]):
		p.n, p.a = toks[0], toks[2]
	case len(toks) == 3 && strings.EqualFold(toks[1], "as"):
		p.unsure = true
		return p
	default:
		return p
	}
	if p.a == p.n {
		p.a = ""
	}
	p.ok = true
	return p
}

var spaces = []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\u3000", "\v", "\f", "\u0085", "\u2028"}
var oddTokens = []string{"a", "b", "t", "a", "a.b", "t.a", ".a", "a.", ".", "..", "a..b", "a.b.c", "as", "AS", "As", "aS", "aſ", "ass", "A", "select", "'", "\"", "\"q\"", "поле", "таблица.поле", "é", "e\u0301", "*", "t.*", "count(a)", "a,b", "a;b", "\x00", "\xff", "a\xffb", "\u200b", "\u180e", "\ufeff", "🙂", "1", "0x", "$1", "?", "%s", "a-b", "verylongname_verylongname_verylongname_verylongname_verylongname", "public.t", "as.as", "AS.x", ";", ",", "--", "(", ")", "DESC", "asc", "=", "AS,", "`a`", "[a]", "a:", "::text", "nulls"}

func genSpecText(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "form") {
	case 0:
		return rapid.String().Draw(t, "any")
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
	case 2, 3:
		return rapid.StringOfN(rapid.SampledFrom([]rune("ab.asAS \t\n.")), 0, 14, -1).Draw(t, "small")
	}
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 3, 3, 3, 4, 5}).Draw(t, "n")
	s := ""
	if rapid.IntRange(0, 3).Draw(t, "lead") == 0 {
		s = rapid.SampledFrom(spaces).Draw(t, "sp")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += rapid.SampledFrom(spaces).Draw(t, "sp")
		}
		if i == 1 && rapid.IntRange(0, 4).Draw(t, "as") != 0 {
			s += rapid.SampledFrom([]string{"AS", "as", "As", "aS"}).Draw(t, "asword")
			continue
		}
		if rapid.IntRange(0, 3).Draw(t, "ident") == 0 {
			s += genIdent(t, "id")
			continue
		}
		s += rapid.SampledFrom(oddTokens).Draw(t, "tok")
	}
	if rapid.IntRange(0, 5).Draw(t, "trail") == 0 {
		s += rapid.SampledFrom(spaces).Draw(t, "sp")
	}
	return s
}

// didPanic runs f and tells whether it panicked.
func didPanic(f func()) (p bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			p, val = true, r
		}
	}()
	f()
	return false, nil
}

type TextCase struct {
	S []byte `json:"s"` // bytes: the text may be invalid UTF-8
}

func (c *TextCase) text() string { return string(c.S) }

func genTextCase(t *rapid.T) *TextCase { return &TextCase{S: []byte(genSpecText(t))} }

func enumTexts(alphabet []string, maxLen int, yield func(*TextCase) bool) {
	var rec func(s string, n int) bool
	rec = func(s string, n int) bool {
		if !yield(&TextCase{S: []byte(s)}) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, a := range alphabet {
			if !rec(s+a, n-1) {
				return false
			}
		}
		return true
	}
	rec("", maxLen)
}

func enumSpecs(tier string, yield func(*TextCase) bool) {
	n := 5
	if tier == "thorough" {
		n = 7
	}
	enumTexts([]string{"a", ".", " ", "As", "\t", "b"}, n, yield)
}

func checkFieldText(c *TextCase, o *Obs) error {
	s := c.text()
	want := parseFieldSpec(s)
	o.nontrivial = len(splitSpace(s)) > 1 || strings.Contains(s, ".") || strings.TrimSpace(s) != s
	o.labelIf(want.ok, "accepted")
	o.labelIf(want.ok && want.a != "", "with alias")
	o.labelIf(want.ok && want.t != "", "with table")
	o.labelIf(!want.ok, "rejected")
	f, err := query.FieldOrError(s)
	if !want.unsure && (err == nil) != want.ok {
		return fmt.Errorf("FieldOrError(%q): error %v, by the documented forms accepted=%v", s, err, want.ok)
	}
	if (f == nil) == (err == nil) {
		return fmt.Errorf("FieldOrError(%q) returned %v and error %v", s, f, err)
	}
	if err != nil && !errors.Is(err, query.Error) {
		return fmt.Errorf("FieldOrError(%q): error %v is not the library's", s, err)
	}
	same := func(what string, d query.FieldDefinition) error {
		if !sameDef(d, *f) {
			return fmt.Errorf("%s(%q) is %+v, FieldOrError gives %+v", what, s, d, *f)
		}
		return nil
	}
	if err == nil && want.ok {
		if string(f.FieldName()) != want.n || string(f.TableName()) != want.t || string(f.Alias()) != want.a {
			return fmt.Errorf("FieldOrError(%q): table %q, name %q, alias %q, expected %q, %q, %q", s, f.TableName(), f.FieldName(), f.Alias(), want.t, want.n, want.a)
		}
		// the rendered specification is the same field again
		g, gerr := query.FieldOrError(f.RenderSpec())
		if gerr != nil || !sameDef(*g, *f) {
			return fmt.Errorf("FieldOrError(%q) renders %q, which parses to %+v, %v", s, f.RenderSpec(), g, gerr)
		}
		for _, def := range []query.FieldDefinition{*f, f.As(f.FieldName()), f.As("zz"), f.As(""), f.Of("tt"), f.Of("tt").As(f.FieldName()), f.Of("s.tt"), f.Of("")} {
			d, derr := query.FieldOrError(def)
			if derr != nil || !sameDef(*d, def) {
				return fmt.Errorf("FieldOrError of a definition gives %+v, %v, expected %+v", d, derr, def)
			}
			if d := query.Field(def); !sameDef(d, def) {
				return fmt.Errorf("Field of a definition gives %+v, expected %+v", d, def)
			}
			if d := query.NewFields(def).FieldDefinitions()[0]; !sameDef(d, def) {
				return fmt.Errorf("NewFields of a definition has %+v, expected %+v", d, def)
			}
		}
	}
	// all spellings agree
	fn, nerr := query.FieldOrError(query.FieldName(s))
	if (nerr == nil) != (err == nil) || (err == nil && !sameDef(*fn, *f)) {
		return fmt.Errorf("FieldOrError(FieldName(%q)) gives %+v, %v; for the text %+v, %v", s, fn, nerr, f, err)
	}
	type ctor struct {
		name string
		make func() query.FieldDefinition
	}
	for _, k := range []ctor{
		{"Field", func() query.FieldDefinition { return query.Field(s) }},
		{"Field(FieldName)", func() query.FieldDefinition { return query.Field(query.FieldName(s)) }},
		{"FieldName.Field", func() query.FieldDefinition { return query.FieldName(s).Field() }},
		{"NewFields", func() query.FieldDefinition { return query.NewFields(s).FieldDefinitions()[0] }},
		{"NewFields(FieldName)", func() query.FieldDefinition { return query.NewFields(query.FieldName(s)).FieldDefinitions()[0] }},
		{"NewFieldValue", func() query.FieldDefinition { return query.NewFieldValue(query.FieldName(s), 1).FieldDefinition }},
		{"FieldName.Value", func() query.FieldDefinition { return query.FieldName(s).Value(1).FieldDefinition }},
	} {
		var d query.FieldDefinition
		p, v := didPanic(func() { d = k.make() })
		if p != (err != nil) {
			return fmt.Errorf("%s(%q): panic=%v (%v), FieldOrError gives error %v", k.name, s, p, v, err)
		}
		if !p {
			if err := same(k.name, d); err != nil {
				return err
			}
		}
	}
	for _, k := range []ctor{
		{"EqualTo", func() query.FieldDefinition { query.EqualTo(query.FieldName(s), 1); return *f }},
		{"In", func() query.FieldDefinition { query.In(query.FieldName(s), 1); return *f }},
		{"IsNull", func() query.FieldDefinition { query.IsNull(query.FieldName(s)); return *f }},
		{"Contains", func() query.FieldDefinition { query.Contains(query.FieldName(s), "x"); return *f }},
	} {
		if p, v := didPanic(func() { k.make() }); p != (err != nil) {
			return fmt.Errorf("%s(%q): panic=%v (%v), FieldOrError gives error %v", k.name, s, p, v, err)
		}
	}
	return nil
}

// sameDef tells whether the definitions report the same.
func sameDef(a, b query.FieldDefinition) bool {
	return a.FieldName() == b.FieldName() && a.TableName() == b.TableName() && a.Alias() == b.Alias() && a.RenderSpec() == b.RenderSpec() && a.RenderField() == b.RenderField()
}

// sameIdent tells whether the tables report the same.
func sameIdent(a, b query.TableIdent) bool {
	return a.TableName() == b.TableName() && a.Alias() == b.Alias() && a.RenderFrom() == b.RenderFrom()
}

func checkTableText(c *TextCase, o *Obs) error {
	s := c.text()
	want := parseTableSpec(s)
	o.nontrivial = len(splitSpace(s)) > 1 || strings.TrimSpace(s) != s
	o.labelIf(want.ok, "accepted")
	o.labelIf(want.ok && want.a != "", "with alias")
	o.labelIf(!want.ok, "rejected")
	ti, err := query.TableOrError(s)
	if !want.unsure && (err == nil) != want.ok {
		return fmt.Errorf("TableOrError(%q): error %v, by the documented forms accepted=%v", s, err, want.ok)
	}
	if (ti == nil) == (err == nil) {
		return fmt.Errorf("TableOrError(%q) returned %v and error %v", s, ti, err)
	}
	if err != nil && !errors.Is(err, query.Error) {
		return fmt.Errorf("TableOrError(%q): error %v is not the library's", s, err)
	}
	if err == nil && want.ok {
		if string(ti.TableName()) != want.n || string(ti.Alias()) != want.a {
			return fmt.Errorf("TableOrError(%q): name %q, alias %q, expected %q, %q", s, ti.TableName(), ti.Alias(), want.n, want.a)
		}
		from := want.n
		q := want.n
		if want.a != "" {
			from += " AS " + want.a
			q = want.a
		}
		if ti.RenderFrom() != from {
			return fmt.Errorf("TableOrError(%q) renders %q, expected %q", s, ti.RenderFrom(), from)
		}
		back, berr := query.TableOrError(ti.RenderFrom())
		if berr != nil || !sameIdent(*back, *ti) {
			return fmt.Errorf("TableOrError(%q) renders %q, which parses to %+v, %v", s, ti.RenderFrom(), back, berr)
		}
		for _, id := range []query.TableIdent{*ti, ti.As("zz"), ti.As(""), ti.As(ti.TableName())} {
			if d, derr := query.TableOrError(id); derr != nil || !sameIdent(*d, id) {
				return fmt.Errorf("TableOrError of an identity gives %+v, %v, expected %+v", d, derr, id)
			}
			if d := query.Table(id); !sameIdent(d, id) {
				return fmt.Errorf("Table of an identity gives %+v, expected %+v", d, id)
			}
		}
		f := ti.Field("id")
		if string(f.TableName()) != q || string(f.FieldName()) != "id" {
			return fmt.Errorf("field of table %q is %q.%q, expected %q.id", s, f.TableName(), f.FieldName(), q)
		}
		for _, a := range []string{want.n, "zz", want.a, ""} {
			u := ti.As(query.TableName(a))
			wantA := a
			if a == want.n {
				wantA = ""
			}
			if string(u.TableName()) != want.n || string(u.Alias()) != wantA {
				return fmt.Errorf("Table(%q).As(%q): name %q, alias %q", s, a, u.TableName(), u.Alias())
			}
			from := want.n
			q := want.n
			if wantA != "" {
				from, q = want.n+" AS "+wantA, wantA
			}
			if u.RenderFrom() != from || string(u.Field("x").TableName()) != q {
				return fmt.Errorf("Table(%q).As(%q) renders %q with fields of %q", s, a, u.RenderFrom(), u.Field("x").TableName())
			}
		}
	}
	tn, nerr := query.TableOrError(query.TableName(s))
	if (nerr == nil) != (err == nil) || (err == nil && !sameIdent(*tn, *ti)) {
		return fmt.Errorf("TableOrError(TableName(%q)) gives %+v, %v; for the text %+v, %v", s, tn, nerr, ti, err)
	}
	for name, f := range map[string]func() string{
		"Table":            func() string { return query.Table(s).RenderFrom() },
		"Table(TableName)": func() string { return query.Table(query.TableName(s)).RenderFrom() },
		"TableName.Ident":  func() string { return query.TableName(s).Ident().RenderFrom() },
		"SelectFrom":       func() string { return query.SelectFrom(s).RenderFrom() },
		"SelectFrom(TN)":   func() string { return query.SelectFrom(query.TableName(s)).RenderFrom() },
		"SelectManyFrom":   func() string { return query.SelectManyFrom(s).RenderFrom() },
		"SelectSingleFrom": func() string { return query.SelectSingleFrom(query.TableName(s)).RenderFrom() },
		"TableName.Select": func() string { return query.TableName(s).Select().RenderFrom() },
	} {
		var from string
		p, v := didPanic(func() { from = f() })
		if p != (err != nil) {
			return fmt.Errorf("%s(%q): panic=%v (%v), TableOrError gives error %v", name, s, p, v, err)
		}
		if !p && from != ti.RenderFrom() {
			return fmt.Errorf("%s(%q) renders %q, TableOrError %q", name, s, from, ti.RenderFrom())
		}
	}
	if f := query.TableName(s).Field("id"); string(f.TableName()) != s || f.FieldName() != "id" {
		return fmt.Errorf("TableName(%q).Field gives %+v", s, f)
	}
	return nil
}

// C15.

const metaChars = ",;()[]{}=<>!+-*/%&|^~`$?:\\#@\x00"

func init() {
	probes["validate-metachars"] = func() error {
		name := query.FieldName("f,(SELECT(1))")
		if name.Validate() != nil {
			return nil
		}
		sql, _, err := query.SelectManyFrom("t").OrderBy(query.ASC(name)).BuildQueryAndParams()
		if err == nil && strings.Contains(sql, "f,(SELECT(1))") {
			return fmt.Errorf("accepted and rendered in %q", sql)
		}
		return nil
	}
}

// mustReject is the documented rule.
func mustReject(s string) bool {
	return s == "" || strings.ContainsAny(s, "'\"") || strings.ContainsFunc(s, unicode.IsSpace) ||
		strings.Count(s, ".") > 1 || strings.HasPrefix(s, ".") || strings.HasSuffix(s, ".")
}

// ordinary tells whether a name is made of letters, digits and underscores, with one table at most.
func ordinary(s string) bool {
	for _, p := range strings.Split(s, ".") {
		if p == "" {
			return false
		}
		for _, r := range p {
			if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
				return false
			}
		}
	}
	return utf8.ValidString(s) && strings.Count(s, ".") <= 1
}

type NameCase struct {
	S   []byte `json:"s"`
	Dir []byte `json:"dir"`
}

func genName(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "name") {
	case 0:
		return genSpecText(t)
	case 1:
		return genIdent(t, "t") + "." + genIdent(t, "n")
	case 2, 3:
		return genIdent(t, "n")
	case 4:
		return rapid.StringOfN(rapid.SampledFrom([]rune("ab.'\" \u00a0\u2028\t._1")), 0, 8, -1).Draw(t, "small")
	}
	// an ordinary name with one odd rune inserted
	n := genIdent(t, "n")
	if rapid.Bool().Draw(t, "dot") {
		n = genIdent(t, "t") + "." + n
	}
	rs := []rune(n)
	odd := rapid.SampledFrom([]rune("'\".. \t\n\r\v\f\u0085\u00a0\u1680\u2000\u2009\u2028\u2029\u202f\u205f\u3000\u200b\u180e")).Draw(t, "odd")
	i := rapid.IntRange(0, len(rs)).Draw(t, "at")
	in := string(odd)
	switch rapid.IntRange(0, 3).Draw(t, "dress") { // as if escaped, doubled or paired
	case 0:
		in = rapid.SampledFrom([]string{`\`, `\`, `\\`, "$", "`", "%", ":", "(", "E", "--", "\x00", in}).Draw(t, "esc") + in
	case 1:
		j := rapid.IntRange(i, len(rs)).Draw(t, "to")
		return string(rs[:i]) + in + string(rs[i:j]) + in + string(rs[j:])
	}
	return string(rs[:i]) + in + string(rs[i:])
}

func genNameCase(t *rapid.T) *NameCase {
	dir := rapid.SampledFrom([]string{"ASC", "DESC", "ASC", "DESC", "", "asc", "Desc", "ASC ", "DESC;", "ASC, (SELECT 1)", "NULLS FIRST"}).Draw(t, "dir")
	return &NameCase{S: []byte(genName(t)), Dir: []byte(dir)}
}

func checkName(c *NameCase, o *Obs) error {
	s, dir := string(c.S), query.SortDirection(c.Dir)
	fn := query.FieldName(s)
	err := fn.Validate()
	o.nontrivial = !ordinary(s) || strings.Contains(s, ".")
	o.labelIf(mustReject(s), "must be rejected")
	o.labelIf(ordinary(s), "ordinary")
	if err == nil && mustReject(s) {
		return fmt.Errorf("invalid name %q accepted", s)
	}
	if err != nil && ordinary(s) {
		return fmt.Errorf("ordinary name %q rejected: %v", s, err)
	}
	if err != nil && !errors.Is(err, query.Error) {
		return fmt.Errorf("error %v is not the library's", err)
	}
	knownDir := dir == "ASC" || dir == "DESC"
	type ctor struct {
		name  string
		dir   query.SortDirection
		fails bool
		make  func() query.FieldSorting
	}
	for _, k := range []ctor{
		{"ASC", "ASC", false, func() query.FieldSorting { return query.ASC(fn) }},
		{"DESC", "DESC", false, func() query.FieldSorting { return query.DESC(fn) }},
		{"OrderBy", "ASC", false, func() query.FieldSorting { return query.OrderBy(fn) }},
		{"OrderBy with direction", dir, !knownDir, func() query.FieldSorting { return query.OrderBy(fn, dir) }},
	} {
		var fs query.FieldSorting
		p, v := didPanic(func() { fs = k.make() })
		if p != (k.fails || err != nil) {
			return fmt.Errorf("%s(%q, %q): panic=%v (%v), Validate gives %v", k.name, s, dir, p, v, err)
		}
		if p {
			continue
		}
		if fs.Direction() != k.dir {
			return fmt.Errorf("%s(%q) has direction %q, expected %q", k.name, s, fs.Direction(), k.dir)
		}
		want := s + " " + string(k.dir)
		if fs.Render() != want {
			return fmt.Errorf("%s(%q) renders %q, expected %q", k.name, s, fs.Render(), want)
		}
		sql, _, berr := query.SelectManyFrom("t").OrderBy(fs, query.ASC("z")).BuildQueryAndParams()
		if want := "SELECT * FROM t ORDER BY " + want + ", z ASC"; sql != want || berr != nil {
			return fmt.Errorf("ordered select is %q (%v), expected %q", sql, berr, want)
		}
	}
	return nil
}

func genValuesMap(t *rapid.T) *MapCase {
	c := genMapCase(t)
	n := rapid.IntRange(0, 2).Draw(t, "odd")
	seen := map[string]bool{}
	for _, k := range c.Keys {
		seen[k] = true
	}
	add := func(k string, v Val) {
		if !seen[k] {
			seen[k] = true
			c.Keys = append(c.Keys, k)
			c.Vals = append(c.Vals, v)
		}
	}
	x := &ids{n: 7000}
	if rapid.IntRange(0, 2).Draw(t, "alike") == 0 { // names that differ little
		b := genIdent(t, "base")
		for _, k := range []string{b, strings.ToUpper(b), strings.ToLower(b), "t." + b, "T." + b, b + "." + b, b + "_", b + "1", b + "10", b + "9"} {
			if rapid.Bool().Draw(t, "take") {
				add(k, genScalarOfKind(t, x, rapid.SampledFrom(scalarKinds).Draw(t, "ak")))
			}
		}
	}
	if rapid.IntRange(0, 100).Draw(t, "large") == 0 {
		for i, m := 0, genScale(t, 1100); i < m; i++ {
			add(fmt.Sprintf("large%d", i), Val{K: "int", N: int64(i)})
		}
	}
	for i := 0; i < n; i++ {
		k := strings.ToValidUTF8(genName(t), "_") // keys are saved as JSON
		if seen[k] {
			continue
		}
		seen[k] = true
		c.Keys = append(c.Keys, k)
		c.Vals = append(c.Vals, genScalarOfKind(t, &ids{n: 5000}, rapid.SampledFrom([]string{"int", "string", "nil", "valuer"}).Draw(t, "k")))
	}
	return c
}

func checkValuesMap(c *MapCase, o *Obs) error {
	m, vals := c.make()
	bad := false
	for k := range m {
		bad = bad || query.FieldName(k).Validate() != nil
	}
	o.nontrivial = len(m) > 0
	o.labelIf(bad, "invalid key")
	fvs, err := m.FieldValues()
	if (err != nil) != bad {
		return fmt.Errorf("error %v, invalid key present: %v (%v)", err, bad, c.Keys)
	}
	if err != nil {
		if !errors.Is(err, query.Error) {
			return fmt.Errorf("error %v is not the library's", err)
		}
		return nil
	}
	if len(fvs) != len(m) {
		return fmt.Errorf("%d field values for %d keys", len(fvs), len(m))
	}
	var got []string
	for _, fv := range fvs {
		k := fv.RenderSpec()
		got = append(got, k)
		v, ok := vals[k]
		if !ok {
			return fmt.Errorf("field %q is not a key of the map %v", k, c.Keys)
		}
		var val Val
		for i, kk := range c.Keys {
			if kk == k {
				val = c.Vals[i]
			}
		}
		if ps := fv.Values(); len(ps) != 1 || !sameVal(ps[0], val.scalarOf(v)) {
			return fmt.Errorf("field %q has values %s, expected %s", k, showParams(ps), valText(v))
		}
	}
	sort.Strings(got)
	want := append([]string{}, c.Keys...)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("fields %v, keys %v", got, want)
	}
	if len(m) != len(vals) {
		return errors.New("the map was changed")
	}
	return nil
}

// C16.

type FieldCase struct {
	F   FieldRef `json:"f"`
	Via int      `json:"via"`
	As  string   `json:"as"`
	Of  string   `json:"of"`
	Dir string   `json:"dir"`
}

func genFieldCase(t *rapid.T) *FieldCase {
	c := &FieldCase{F: genFieldRef(t, nil), Via: rapid.IntRange(0, 3).Draw(t, "via"), As: genIdent(t, "as"), Of: genQual(t, "of"), Dir: rapid.SampledFrom([]string{"ASC", "DESC"}).Draw(t, "dir")}
	switch rapid.IntRange(0, 4).Draw(t, "same") {
	case 0:
		c.As = c.F.N
	case 1:
		c.Of = c.F.T
	case 2:
		c.As = ""
	}
	return c
}

// renders checks every rendering of a definition.
func renders(d query.FieldDefinition, f FieldRef) error {
	if string(d.FieldName()) != f.N || string(d.TableName()) != f.T {
		return fmt.Errorf("field is %q of %q, expected %+v", d.FieldName(), d.TableName(), f)
	}
	if !(f.T == "" && f.A == f.N) && string(d.Alias()) != f.A {
		return fmt.Errorf("alias is %q, expected %q", d.Alias(), f.A)
	}
	want := f.qualified()
	if f.A != "" && !(f.T == "" && f.A == f.N) {
		want += " AS " + f.A
	}
	if got := d.RenderSpec(); got != want {
		return fmt.Errorf("%+v renders %q in a select list, expected %q", f, got, want)
	}
	if got := d.RenderField(); got != f.inCondition() {
		return fmt.Errorf("%+v renders %q in conditions, expected %q", f, got, f.inCondition())
	}
	if f.T != "" {
		if got := d.RenderTableSpec(); got != f.T+"."+f.N || string(d.TableFieldName()) != got {
			return fmt.Errorf("%+v renders %q / %q in joins, expected %q", f, got, d.TableFieldName(), f.T+"."+f.N)
		}
	}
	return nil
}

func checkField(c *FieldCase, o *Obs) error {
	d := c.F.def(c.Via)
	o.nontrivial = c.F.T != "" || c.F.A != ""
	o.label("table=%v alias=%v", c.F.T != "", c.F.A != "")
	if err := renders(d, c.F); err != nil {
		return err
	}
	as, of := c.F, c.F
	as.A, of.T = c.As, c.Of
	both := of
	both.A = c.As
	for _, x := range []struct {
		d query.FieldDefinition
		f FieldRef
	}{
		{d.As(query.FieldName(c.As)), as}, {d.Of(query.TableName(c.Of)), of},
		{d.As(query.FieldName(c.As)).Of(query.TableName(c.Of)), both}, {d.Of(query.TableName(c.Of)).As(query.FieldName(c.As)), both},
		{d, c.F},
	} {
		// an unqualified alias equal to the name may have been dropped before Of
		if x.f.A == x.f.N && c.F.A == c.F.N && c.F.T == "" && x.f.A == c.F.A && string(x.d.Alias()) == "" {
			x.f.A = ""
		}
		if err := renders(x.d, x.f); err != nil {
			return fmt.Errorf("from %+v: %w", c.F, err)
		}
	}
	// ordering
	s := query.OrderBy(query.FieldName(c.F.qualified()), query.SortDirection(c.Dir))
	plain := FieldRef{T: c.F.T, N: c.F.N}
	other := query.Field(query.FieldName(c.F.N + "_other")).As("zz").Of("yy")
	for _, x := range []struct {
		s query.FieldSorting
		f FieldRef
	}{{s, plain}, {s.ApplyFieldSpec(d), c.F}, {s.ApplyFieldSpec(other), plain}, {s.ApplyFieldSpec(d).ApplyFieldSpec(d.As(query.FieldName(c.As))), as}} {
		if want := x.f.inCondition() + " " + c.Dir; x.s.Render() != want || string(x.s.Direction()) != c.Dir {
			return fmt.Errorf("ordering renders %q with direction %q, expected %q", x.s.Render(), x.s.Direction(), want)
		}
	}
	// value
	v := *query.NewFieldValue(query.FieldName(plain.qualified()), "v")
	tab := plain
	tab.T = c.Of
	for _, x := range []struct {
		v query.FieldValue
		f FieldRef
	}{{v, plain}, {v.ApplyFieldSpec(d), c.F}, {v.ApplyFieldSpec(other), plain}, {v.ApplyFieldTable(query.TableName(c.Of)), tab}, {v.ApplyFieldSpec(d).ApplyFieldTable(query.TableName(c.Of)), of}} {
		if x.v.RenderSpec() != x.f.inCondition() || string(x.v.FieldName()) != x.f.N || string(x.v.TableName()) != x.f.T {
			return fmt.Errorf("value field renders %q (%q of %q), expected %+v", x.v.RenderSpec(), x.v.FieldName(), x.v.TableName(), x.f)
		}
		if err := sameParams([]any{"v"}, x.v.Values()); err != nil {
			return fmt.Errorf("application changed the value: %w", err)
		}
	}
	// counting a field
	sql, _, err := query.Count(query.SelectFrom("t"), query.FieldName(plain.qualified())).BuildQueryAndParams()
	if want := "SELECT COUNT(" + plain.qualified() + ") FROM t"; err != nil || sql != want {
		return fmt.Errorf("count is %q, expected %q", sql, want)
	}
	return nil
}

// FieldApp is an application of a field definition or of a table.
type FieldApp struct {
	F   *FieldRef `json:"f,omitempty"`
	T   string    `json:"t,omitempty"`
	Via int       `json:"via,omitempty"`
}

type ApplyCase struct {
	C     *Cond      `json:"c"`
	Apps  []FieldApp `json:"apps"`
	Where bool       `json:"where,omitempty"` // through a where clause
}

func genApply(t *rapid.T, custom bool) *ApplyCase {
	x := &ids{}
	o := condOpts{simple: true, custom: custom}
	cond := genCond(t, x, genSize(t, 8), o)
	if custom {
		cond = makeCustom(t, x, []*Cond{cond})[0]
	}
	pool := []string{"a", "b", "id", "имя"}
	var walk func(c *Cond)
	walk = func(c *Cond) {
		if c.F != nil && rapid.IntRange(0, 3).Draw(t, "rename") != 0 {
			same := c.F.A == c.F.N
			c.F.N = rapid.SampledFrom(pool).Draw(t, "name")
			if same {
				c.F.A = c.F.N
			}
		}
		for _, k := range c.Kids {
			walk(k)
		}
	}
	walk(cond)
	c := &ApplyCase{C: cond, Where: rapid.IntRange(0, 3).Draw(t, "where") == 0}
	n := rapid.IntRange(1, 3).Draw(t, "napps")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 2).Draw(t, "table") == 0 && !c.Where {
			c.Apps = append(c.Apps, FieldApp{T: genQual(t, "apptable")})
			continue
		}
		f := genFieldRef(t, nil)
		f.N = rapid.SampledFrom(pool).Draw(t, "appname")
		if rapid.IntRange(0, 5).Draw(t, "appother") == 0 {
			f.N = "other"
		}
		if f.T != "" {
			f.T = genQual(t, "appof")
		}
		f = normalRef(f)
		c.Apps = append(c.Apps, FieldApp{F: &f, Via: rapid.IntRange(0, 3).Draw(t, "appvia")})
	}
	return c
}

func applyRef(apps []FieldApp) func(FieldRef) FieldRef {
	return func(f FieldRef) FieldRef {
		for _, a := range apps {
			switch {
			case a.F == nil:
				f.T = a.T
			case a.F.N == f.N:
				f = *a.F
			}
		}
		return f
	}
}

func checkApply(c *ApplyCase, o *Obs) error {
	leaves, _ := c.C.count()
	o.nontrivial = leaves >= 2
	o.label("applications %d", len(c.Apps))
	after := (&condBuilder{requal: applyRef(c.Apps)}).build(c.C) // the condition as built, with the meaning expected after
	before := after
	if c.Where {
		o.label("where clause")
		w := query.NewWhere().GroupAND(before.C)
		orig := w.Render(0)
		u := w
		for _, a := range c.Apps {
			u = u.ApplyFieldSpec(a.F.def(a.Via))
		}
		if w.Render(0) != orig {
			return fmt.Errorf("application changed the original clause from %q to %q", orig, w.Render(0))
		}
		if after.base == nil {
			return nil
		}
		e, phs, err := ParseExpr(u.Render(0))
		if err != nil {
			return err
		}
		if err := checkDollars(phs, 0, len(u.Values())); err != nil {
			return err
		}
		if err := sameParams(w.Values(), u.Values()); err != nil {
			return fmt.Errorf("application changed values: %w", err)
		}
		return equivalent(after.meaning(), exprFormula(e, u.Values()))
	}
	orig, vals := before.C.Render(0), before.C.Values()
	res := before.C
	for _, a := range c.Apps {
		if a.F == nil {
			res = res.ApplyFieldTable(query.TableName(a.T))
		} else {
			res = res.ApplyFieldSpec(a.F.def(a.Via))
		}
	}
	if before.C.Render(0) != orig {
		return fmt.Errorf("application changed the original from %q to %q", orig, before.C.Render(0))
	}
	if res.JoinType() != before.C.JoinType() || res.IsNegate() != before.C.IsNegate() {
		return fmt.Errorf("join type %q or negation %v changed to %q, %v", before.C.JoinType(), before.C.IsNegate(), res.JoinType(), res.IsNegate())
	}
	if err := sameParams(vals, res.Values()); err != nil {
		return fmt.Errorf("application changed values: %w", err)
	}
	// the text differs in references only
	a, err := tokenize(orig)
	if err != nil {
		return err
	}
	got := res.Render(0)
	b, err := tokenize(got)
	if err != nil {
		return err
	}
	if len(a) != len(b) {
		return fmt.Errorf("application changed the structure of %q to %q", orig, got)
	}
	for i := range a {
		ref := a[i].k == tWord && !isKeyword(a[i].s) && !(i+1 < len(a) && a[i+1].s == "(")
		if !ref && a[i] != b[i] {
			return fmt.Errorf("application changed %q to %q", orig, got)
		}
	}
	after.C = res
	return condCheck(after)
}

// C24.

type NamesCase struct {
	Names []string   `json:"names"`
	Fs    []FieldRef `json:"fs"`
	Next  []FieldRef `json:"next"`
	Via   []int      `json:"via"`
}

func genNames(t *rapid.T) *NamesCase {
	c := &NamesCase{}
	n := rapid.IntRange(0, 12).Draw(t, "n")
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		n = rapid.IntRange(50, 300).Draw(t, "nmany")
		if rapid.IntRange(0, 5).Draw(t, "scaled") == 0 {
			n = genScale(t, 2100)
		}
	}
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, rapid.SampledFrom([]string{"a", "A", "b", "a.b", "", " a", "c", "d", "e", "é", "e\u0301", "f", "g", "ab", "aa"}).Draw(t, "nm"))
		if rapid.IntRange(0, 7).Draw(t, "long?") == 0 {
			c.Names[i] = longIdent(rapid.SampledFrom([]int{32, 63, 64, 65, 130, 260}).Draw(t, "len"), rapid.IntRange(0, 2).Draw(t, "end"))
		}
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "alike?") == 0 { // almost the same as an earlier one
			s := c.Names[rapid.IntRange(0, i-1).Draw(t, "of")]
			switch rapid.IntRange(0, 3).Draw(t, "change") {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s += rapid.SampledFrom([]string{" ", "\x00", "\t", "\u0301", "\u200b", "_", ".", "\"", "1", "\u00a0"}).Draw(t, "after")
			case 2:
				s = rapid.SampledFrom([]string{" ", "t.", ".", "\"", "_", "\ufeff", "0"}).Draw(t, "before") + s
			case 3:
				s += rapid.StringN(1, 3, -1).Draw(t, "more")
			}
			c.Names[i] = s
		}
		if n > 20 && rapid.Bool().Draw(t, "fresh") {
			c.Names[i] = fmt.Sprintf("n%d", rapid.IntRange(0, n).Draw(t, "k"))
		}
	}
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "nf"); i < n; i++ {
		c.Fs = append(c.Fs, genFieldRef(t, nil))
		c.Via = append(c.Via, rapid.IntRange(0, 8).Draw(t, "via"))
	}
	if rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
		// names that are no plain identifiers, among them the ones SQL gives a meaning
		for _, fs := range [][]FieldRef{c.Fs, c.Next} {
			for i := range fs {
				if rapid.IntRange(0, 2).Draw(t, "odd?") == 0 {
					fs[i].N = rapid.SampledFrom([]string{"*", "*", "COUNT(*)", "count(a)", "A", "a", "1", "?", "$1", "NULL", "from", "select", "max(a,b)", "a||b", "-a", "a-b", "a:b", "data->>x"}).Draw(t, "oddname")
				}
			}
		}
	}
	if rapid.IntRange(0, 200).Draw(t, "manyfs") == 0 {
		x, rep := &ids{}, genRep(t)
		for i, n := 0, genScale(t, 600); i < n; i++ {
			c.Fs = append(c.Fs, growRef(x, rep))
			c.Via = append(c.Via, i*7%9)
		}
	}
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "nn"); i < n; i++ {
		c.Next = append(c.Next, genFieldRef(t, nil))
	}
	return c
}

func checkUniq(c *NamesCase, o *Obs) error {
	in := make([]query.FieldName, len(c.Names), len(c.Names)+3)
	for i, n := range c.Names {
		in[i] = query.FieldName(n)
	}
	var want []query.FieldName
	seen := map[string]bool{}
	for _, n := range c.Names {
		if !seen[n] {
			seen[n] = true
			want = append(want, query.FieldName(n))
		}
	}
	o.nontrivial = len(want) < len(in)
	got := query.UniqFieldNames(in)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("unique names of %q are %q", c.Names, got)
	}
	for i := range in {
		if string(in[i]) != c.Names[i] {
			return fmt.Errorf("the input was changed to %q", in)
		}
	}
	if again := query.UniqFieldNames(got); fmt.Sprintf("%q", again) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("not idempotent: %q then %q", got, again)
	}
	// the result is the caller's own
	_ = append(got, "appended")
	for i := range got {
		got[i] = "overwritten"
	}
	for i := range in {
		if string(in[i]) != c.Names[i] {
			return fmt.Errorf("the result shares memory with the input")
		}
	}
	return nil
}

func checkCollection(c *NamesCase, o *Obs) error {
	o.nontrivial = len(c.Fs) >= 2
	args := make([]any, len(c.Fs))
	for i, f := range c.Fs {
		switch c.Via[i] / 4 {
		case 0:
			args[i] = f.spec()
		case 1:
			args[i] = query.FieldName(f.spec())
		default:
			args[i] = f.def(c.Via[i])
		}
	}
	verify := func(what string, fs query.Fields, refs []FieldRef) error {
		if fs.Len() != len(refs) {
			return fmt.Errorf("%s: Len() is %d, expected %d", what, fs.Len(), len(refs))
		}
		defs := fs.FieldDefinitions()
		if len(defs) != len(refs) {
			return fmt.Errorf("%s: %d definitions, expected %d", what, len(defs), len(refs))
		}
		var specs []string
		for i, r := range refs {
			r = normalRef(r)
			if string(defs[i].FieldName()) != r.N || string(defs[i].TableName()) != r.T || (r.A != "" && string(defs[i].Alias()) != r.A) {
				return fmt.Errorf("%s: field #%d is %+v, expected %+v", what, i+1, defs[i], r)
			}
			specs = append(specs, r.spec())
		}
		want := strings.Join(specs, ", ")
		if len(specs) == 0 {
			want = "*"
		}
		if fs.FieldList() != want {
			return fmt.Errorf("%s: FieldList() is %q, expected %q", what, fs.FieldList(), want)
		}
		if want := "Fields(" + strings.Join(specs, ",") + ")"; fs.String() != want {
			return fmt.Errorf("%s: String() is %q, expected %q", what, fs.String(), want)
		}
		sql, _, err := query.SelectFrom("t").Fields(defs...).BuildQueryAndParams()
		if err != nil || sql != "SELECT "+want+" FROM t" {
			return fmt.Errorf("%s: selected as %q, expected %q", what, sql, want)
		}
		return nil
	}
	fs := query.NewFields(args...)
	if err := verify("NewFields", fs, c.Fs); err != nil {
		return err
	}
	next := make([]query.FieldDefinition, len(c.Next))
	for i, f := range c.Next {
		next[i] = f.def(i)
	}
	if err := verify("Fields", fs.Fields(next...), c.Next); err != nil {
		return err
	}
	if err := verify("Fields of empty", query.Fields{}.Fields(next...), c.Next); err != nil {
		return err
	}
	if err := verify("original after Fields", fs, c.Fs); err != nil {
		return err
	}
	for _, bad := range []any{1, nil, []string{"a"}, query.TableName("a")} {
		if p, _ := didPanic(func() { query.NewFields(append(append([]any{}, args...), bad)...) }); !p {
			return fmt.Errorf("NewFields accepted an argument of type %T", bad)
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "random texts built from name, dot, AS and whitespace tokens, random Unicode and bytes, and every text up to a small length over an alphabet of tokens, compared with an independent parser of the documented forms; non-trivial: contains a dot, several tokens or outer whitespace",
		Parts: []Part{
			&part[TextCase]{Name: "field-text", Quick: 240000, Thorough: 1000000, Gen: genTextCase, Check: checkFieldText},
			&part[TextCase]{Name: "small-exhaustive", Enum: enumSpecs, Check: checkFieldText},
		},
		Assume: []string{"an alias with dots and letters that only case-fold to AS are not covered by the documentation and may be accepted or not"},
	})
	register(&Property{
		ID:   "C14",
		Rule: "as for field texts, with the documented forms of tables; non-trivial: several tokens or outer whitespace",
		Parts: []Part{
			&part[TextCase]{Name: "table-text", Quick: 240000, Thorough: 1000000, Gen: genTextCase, Check: checkTableText},
			&part[TextCase]{Name: "small-exhaustive", Enum: enumSpecs, Check: checkTableText},
		},
	})
	register(&Property{
		ID:   "C15",
		Rule: "random names: ordinary ones, ones with an odd rune inserted anywhere, random texts, every text up to a small length; directions valid and not; values maps with and without such keys; non-trivial: the name is not a plain identifier, the map is not empty",
		Parts: []Part{
			&part[NameCase]{Name: "names", Quick: 240000, Thorough: 1000000, Gen: genNameCase, Check: checkName},
			&part[NameCase]{Name: "small-exhaustive", Enum: func(tier string, yield func(*NameCase) bool) {
				n := 5
				if tier == "thorough" {
					n = 6
				}
				enumTexts([]string{"a", ".", "'", "\"", " ", "\u00a0", "é"}, n, func(c *TextCase) bool { return yield(&NameCase{S: c.S, Dir: []byte("DESC")}) })
			}, Check: checkName},
			&part[MapCase]{Name: "values-map", Quick: 80000, Thorough: 200000, Gen: genValuesMap, Check: checkValuesMap},
		},
	})
	register(&Property{
		ID:   "C16",
		Rule: "random field definitions through every constructor with As and Of, and random condition trees, orderings and values with definitions and tables applied; non-trivial: the field has a table or alias, the tree has two leaves",
		Parts: []Part{
			&part[FieldCase]{Name: "render", Quick: 200000, Thorough: 600000, Gen: genFieldCase, Check: checkField},
			&part[ApplyCase]{Name: "apply", Quick: 200000, Thorough: 800000, Gen: func(t *rapid.T) *ApplyCase { return genApply(t, rapid.IntRange(0, 3).Draw(t, "custom") == 0) }, Check: checkApply},
		},
	})
	register(&Property{
		ID:   "C24",
		Rule: "random lists of names with repetitions and random field lists given as texts, names and definitions; non-trivial: there is a repetition, or two fields",
		Parts: []Part{
			&part[NamesCase]{Name: "unique", Quick: 240000, Thorough: 800000, Gen: genNames, Check: checkUniq},
			&part[NamesCase]{Name: "fields", Quick: 160000, Thorough: 500000, Gen: genNames, Check: checkCollection},
		},
	})
}
