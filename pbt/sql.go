package main

// An independent tokenizer and parser of the SQL subset statements are expected to use.
// It shares no code with the library: it is the oracle for structure.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

type tokKind int

const (
	tWord   tokKind = iota // identifier, keyword or dotted reference
	tNum                   // integer literal
	tDollar                // $N
	tQuest                 // ?
	tPunct                 // ( ) , = < > <= >= *
	tLit                   // 'text', only as an argument of a function of a custom condition
)

type token struct {
	k tokKind
	s string
	n int // placeholder number or numeric value
}

func isWordRune(r rune) bool {
	return r == '_' || r == '.' || r == '#' || r == '@' || unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.IsMark(r)
}

func tokenize(sql string) (toks []token, err error) {
	rs := []rune(sql)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == ' ':
			i++
		case r == '\'':
			j := i + 1
			for j < len(rs) && (rs[j] != '\'' || j+1 < len(rs) && rs[j+1] == '\'') {
				if rs[j] == '\'' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unclosed literal at %d in %q", i, sql)
			}
			toks = append(toks, token{k: tLit, s: string(rs[i : j+1])})
			i = j + 1
		case r == '?':
			toks = append(toks, token{k: tQuest, s: "?"})
			i++
		case r == '$':
			j := i + 1
			for j < len(rs) && rs[j] >= '0' && rs[j] <= '9' {
				j++
			}
			if j == i+1 {
				return nil, fmt.Errorf("bare $ at %d in %q", i, sql)
			}
			n, e := strconv.Atoi(string(rs[i+1 : j]))
			if e != nil || n < 1 || rs[i+1] == '0' {
				return nil, fmt.Errorf("bad placeholder %q in %q", string(rs[i:j]), sql)
			}
			if j < len(rs) && isWordRune(rs[j]) {
				return nil, fmt.Errorf("placeholder glued to a word at %d in %q", j, sql)
			}
			toks = append(toks, token{k: tDollar, s: string(rs[i:j]), n: n})
			i = j
		case r == '<' || r == '>':
			if i+1 < len(rs) && rs[i+1] == '=' {
				toks = append(toks, token{k: tPunct, s: string(rs[i : i+2])})
				i += 2
			} else {
				toks = append(toks, token{k: tPunct, s: string(r)})
				i++
			}
		case strings.ContainsRune("(),=*", r):
			toks = append(toks, token{k: tPunct, s: string(r)})
			i++
		case isWordRune(r):
			j := i
			for j < len(rs) && (isWordRune(rs[j]) || rs[j] == '$') {
				j++
			}
			w := string(rs[i:j])
			// t.* projection
			if strings.HasSuffix(w, ".") && j < len(rs) && rs[j] == '*' {
				w += "*"
				j++
			}
			if n, e := strconv.Atoi(w); e == nil && allASCIIDigits(w) {
				toks = append(toks, token{k: tNum, s: w, n: n})
			} else {
				if strings.HasPrefix(w, ".") || strings.HasSuffix(w, ".") || strings.Contains(w, "..") {
					return nil, fmt.Errorf("bad reference %q in %q", w, sql)
				}
				toks = append(toks, token{k: tWord, s: w})
			}
			i = j
		default:
			return nil, fmt.Errorf("unexpected character %q at %d in %q", r, i, sql)
		}
	}
	return toks, nil
}

func allASCIIDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("SELECT FROM WHERE AND OR NOT IN IS NULL LIKE ILIKE BETWEEN AS ON JOIN INNER LEFT RIGHT FULL ORDER BY ASC DESC LIMIT OFFSET INSERT INTO VALUES UPDATE SET DELETE COUNT TRUE FALSE UNION HAVING GROUP DISTINCT CROSS OUTER USING") {
		keywords[k] = true
	}
}

func isKeyword(s string) bool { return keywords[strings.ToUpper(s)] }

// Operand of a predicate.
type Operand struct {
	Kind string // "ph", "num", "ref", "func", "lit"
	Pos  int    // ph: position among placeholders in text order, from 0
	Num  int    // num
	Ref  string // ref, func name
	Args []Operand
}

// Expr is a parsed boolean expression.
type Expr struct {
	Op   string // "and", "or", "not", "pred"
	Kids []*Expr
	// predicate
	Pred string // "=", "<", ..., "in", "like", "ilike", "isnull", "between", "func"
	Neg  bool   // f NOT IN, f IS NOT NULL, f NOT LIKE
	Args []Operand
}

type SelItem struct {
	Ref   string
	Alias string
	Count bool
}

type TabRef struct{ Name, Alias string }

type JoinRef struct {
	Type        string // INNER LEFT RIGHT FULL
	Table       TabRef
	Left, Right string
}

type OrderItem struct{ Ref, Dir string }

type Stmt struct {
	Kind        string // SELECT INSERT UPDATE DELETE
	Items       []SelItem
	From        TabRef
	Joins       []JoinRef
	Where       *Expr
	Order       []OrderItem
	Offset      *Operand
	Limit       *Operand
	LimitBefore bool      // LIMIT written before OFFSET
	Columns     []string  // INSERT columns or UPDATE set columns
	Vals        []Operand // INSERT values or UPDATE set values
	Phs         []token   // all placeholders in text order
}

type parser struct {
	src  string
	toks []token
	i    int
	nph  int
	phs  []token
}

type parseError struct{ error }

func (p *parser) fail(f string, a ...any) {
	panic(parseError{fmt.Errorf("%s at token %d of %q", fmt.Sprintf(f, a...), p.i, p.src)})
}

func (p *parser) eof() bool { return p.i >= len(p.toks) }
func (p *parser) peek() token {
	if p.eof() {
		return token{k: -1}
	}
	return p.toks[p.i]
}
func (p *parser) isKw(w string) bool {
	t := p.peek()
	return t.k == tWord && strings.EqualFold(t.s, w)
}
func (p *parser) kw(w string) {
	if !p.isKw(w) {
		p.fail("expected %s, got %q", w, p.peek().s)
	}
	p.i++
}
func (p *parser) tryKw(w string) bool {
	if p.isKw(w) {
		p.i++
		return true
	}
	return false
}
func (p *parser) isP(s string) bool { t := p.peek(); return t.k == tPunct && t.s == s }
func (p *parser) punct(s string) {
	if !p.isP(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
	p.i++
}
func (p *parser) tryP(s string) bool {
	if p.isP(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) name() string {
	t := p.peek()
	if t.k != tWord || isKeyword(t.s) {
		p.fail("expected a name, got %q", t.s)
	}
	p.i++
	return t.s
}

func (p *parser) operand() Operand {
	t := p.peek()
	switch t.k {
	case tDollar, tQuest:
		p.i++
		p.phs = append(p.phs, t)
		p.nph++
		return Operand{Kind: "ph", Pos: p.nph - 1}
	case tNum:
		p.i++
		return Operand{Kind: "num", Num: t.n}
	}
	n := p.name()
	if p.tryP("(") {
		o := Operand{Kind: "func", Ref: n}
		if p.tryP(")") {
			return o
		}
		for {
			if t := p.peek(); t.k == tLit && strings.HasPrefix(n, "fn_") {
				p.i++
				o.Args = append(o.Args, Operand{Kind: "lit", Ref: t.s})
			} else {
				o.Args = append(o.Args, p.operand())
			}
			if p.tryP(")") {
				return o
			}
			p.punct(",")
		}
	}
	return Operand{Kind: "ref", Ref: n}
}

func (p *parser) placeholder() Operand {
	t := p.peek()
	if t.k != tDollar && t.k != tQuest {
		p.fail("expected a placeholder, got %q", t.s)
	}
	return p.operand()
}

func (p *parser) expr() *Expr {
	kids := []*Expr{p.andExpr()}
	for p.tryKw("OR") {
		kids = append(kids, p.andExpr())
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &Expr{Op: "or", Kids: kids}
}

func (p *parser) andExpr() *Expr {
	kids := []*Expr{p.notExpr()}
	for p.tryKw("AND") {
		kids = append(kids, p.notExpr())
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &Expr{Op: "and", Kids: kids}
}

func (p *parser) notExpr() *Expr {
	if p.tryKw("NOT") {
		return &Expr{Op: "not", Kids: []*Expr{p.notExpr()}}
	}
	return p.primary()
}

func (p *parser) primary() *Expr {
	if p.tryP("(") {
		e := p.expr()
		p.punct(")")
		return e
	}
	l := p.operand()
	for _, op := range []string{"=", "<=", ">=", "<", ">"} {
		if p.tryP(op) {
			return &Expr{Op: "pred", Pred: op, Args: []Operand{l, p.operand()}}
		}
	}
	if p.tryKw("IS") {
		e := &Expr{Op: "pred", Pred: "isnull", Args: []Operand{l}}
		e.Neg = p.tryKw("NOT")
		p.kw("NULL")
		return e
	}
	neg := p.tryKw("NOT")
	switch {
	case p.tryKw("IN"):
		e := &Expr{Op: "pred", Pred: "in", Neg: neg, Args: []Operand{l}}
		p.punct("(")
		for {
			e.Args = append(e.Args, p.operand())
			if p.tryP(")") {
				return e
			}
			p.punct(",")
		}
	case p.tryKw("LIKE"):
		return &Expr{Op: "pred", Pred: "like", Neg: neg, Args: []Operand{l, p.operand()}}
	case p.tryKw("ILIKE"):
		return &Expr{Op: "pred", Pred: "ilike", Neg: neg, Args: []Operand{l, p.operand()}}
	case p.tryKw("BETWEEN"):
		a := p.operand()
		p.kw("AND")
		return &Expr{Op: "pred", Pred: "between", Neg: neg, Args: []Operand{l, a, p.operand()}}
	}
	if neg {
		p.fail("dangling NOT")
	}
	if l.Kind == "func" {
		return &Expr{Op: "pred", Pred: "func", Args: []Operand{l}}
	}
	p.fail("operand %q is not a predicate", l.Ref)
	return nil
}

func (p *parser) tabRef() TabRef {
	t := TabRef{Name: p.name()}
	if p.tryKw("AS") {
		t.Alias = p.name()
	}
	return t
}

func (p *parser) projRef() string {
	if p.tryP("*") {
		return "*"
	}
	return p.name()
}

func guardParse(src string, f func(p *parser)) (p *parser, err error) {
	toks, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	p = &parser{src: src, toks: toks}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = pe.error
				return
			}
			panic(r)
		}
	}()
	f(p)
	if !p.eof() {
		p.fail("trailing %q", p.peek().s)
	}
	return p, nil
}

// ParseExpr parses a complete boolean expression.
func ParseExpr(src string) (e *Expr, phs []token, err error) {
	p, err := guardParse(src, func(p *parser) { e = p.expr() })
	if err != nil {
		return nil, nil, err
	}
	return e, p.phs, nil
}

// ParseFrom parses text of a FROM clause: table and joins.
func ParseFrom(src string) (t TabRef, joins []JoinRef, err error) {
	_, err = guardParse(src, func(p *parser) { t = p.tabRef(); joins = p.joins() })
	return
}

// ParseJoin parses a single join clause.
func ParseJoin(src string) (j JoinRef, err error) {
	_, err = guardParse(src, func(p *parser) {
		js := p.joins()
		if len(js) != 1 {
			p.fail("expected one join, got %d", len(js))
		}
		j = js[0]
	})
	return
}

// ParseLimiter parses text of limiter clause, which may be empty.
func ParseLimiter(src string) (st *Stmt, err error) {
	st = &Stmt{}
	p, err := guardParse(src, func(p *parser) { p.pagination(st) })
	if err != nil {
		return nil, err
	}
	st.Phs = p.phs
	return st, nil
}

func (p *parser) joins() (res []JoinRef) {
	for {
		j := JoinRef{}
		switch {
		case p.tryKw("INNER"):
			j.Type = "INNER"
		case p.tryKw("LEFT"):
			j.Type = "LEFT"
		case p.tryKw("RIGHT"):
			j.Type = "RIGHT"
		case p.tryKw("FULL"):
			j.Type = "FULL"
		default:
			return res
		}
		p.kw("JOIN")
		j.Table = p.tabRef()
		p.kw("ON")
		j.Left = p.name()
		p.punct("=")
		j.Right = p.name()
		res = append(res, j)
	}
}

func (p *parser) pagination(st *Stmt) {
	for {
		switch {
		case st.Offset == nil && p.tryKw("OFFSET"):
			o := p.operand()
			st.Offset = &o
		case st.Limit == nil && p.tryKw("LIMIT"):
			o := p.operand()
			st.Limit = &o
			st.LimitBefore = st.Offset == nil
		default:
			return
		}
	}
}

// ParseStmt parses a complete statement.
func ParseStmt(src string) (st *Stmt, err error) {
	st = &Stmt{}
	p, err := guardParse(src, func(p *parser) {
		switch {
		case p.tryKw("SELECT"):
			st.Kind = "SELECT"
			for {
				it := SelItem{}
				if p.isKw("COUNT") && p.i+1 < len(p.toks) && p.toks[p.i+1].s == "(" {
					p.i += 2
					it.Count = true
					it.Ref = p.projRef()
					p.punct(")")
				} else {
					it.Ref = p.projRef()
				}
				if p.tryKw("AS") {
					it.Alias = p.name()
				}
				st.Items = append(st.Items, it)
				if !p.tryP(",") {
					break
				}
			}
			p.kw("FROM")
			st.From = p.tabRef()
			st.Joins = p.joins()
			if p.tryKw("WHERE") {
				st.Where = p.expr()
			}
			if p.tryKw("ORDER") {
				p.kw("BY")
				for {
					it := OrderItem{Ref: p.name()}
					switch {
					case p.tryKw("ASC"):
						it.Dir = "ASC"
					case p.tryKw("DESC"):
						it.Dir = "DESC"
					}
					st.Order = append(st.Order, it)
					if !p.tryP(",") {
						break
					}
				}
			}
			p.pagination(st)
		case p.tryKw("INSERT"):
			st.Kind = "INSERT"
			p.kw("INTO")
			st.From = TabRef{Name: p.name()}
			p.punct("(")
			for {
				st.Columns = append(st.Columns, p.name())
				if p.tryP(")") {
					break
				}
				p.punct(",")
			}
			p.kw("VALUES")
			p.punct("(")
			for {
				st.Vals = append(st.Vals, p.placeholder())
				if p.tryP(")") {
					break
				}
				p.punct(",")
			}
			if len(st.Vals) != len(st.Columns) {
				p.fail("%d columns but %d values", len(st.Columns), len(st.Vals))
			}
		case p.tryKw("UPDATE"):
			st.Kind = "UPDATE"
			st.From = TabRef{Name: p.name()}
			p.kw("SET")
			for {
				st.Columns = append(st.Columns, p.name())
				p.punct("=")
				st.Vals = append(st.Vals, p.placeholder())
				if !p.tryP(",") {
					break
				}
			}
			if p.tryKw("WHERE") {
				st.Where = p.expr()
			}
		case p.tryKw("DELETE"):
			st.Kind = "DELETE"
			p.kw("FROM")
			st.From = TabRef{Name: p.name()}
			if p.tryKw("WHERE") {
				st.Where = p.expr()
			}
		default:
			p.fail("unknown statement")
		}
	})
	if err != nil {
		return nil, err
	}
	st.Phs = p.phs
	return st, nil
}

// checkDollars checks that placeholders are numbered base+1..base+n in text order.
func checkDollars(phs []token, base int, n int) error {
	if len(phs) != n {
		return fmt.Errorf("%d placeholders for %d values", len(phs), n)
	}
	for i, t := range phs {
		if t.k != tDollar || t.n != base+i+1 {
			return fmt.Errorf("placeholder #%d is %s, expected $%d", i, t.s, base+i+1)
		}
	}
	return nil
}

func checkQuests(phs []token, n int) error {
	if len(phs) != n {
		return fmt.Errorf("%d placeholders for %d values", len(phs), n)
	}
	for i, t := range phs {
		if t.k != tQuest {
			return fmt.Errorf("placeholder #%d is %s, expected ?", i, t.s)
		}
	}
	return nil
}
