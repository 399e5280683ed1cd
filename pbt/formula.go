package main

// Boolean formulas over opaque atoms: the meaning of conditions.
// Both sides of every comparison, model and parsed SQL, are brought to this form.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
)

// Formula is nil for "no condition".
type Formula struct {
	Op   string // "atom", "and", "or", "not", "true", "false"
	Kids []*Formula
	Atom string // canonical text of an atom, values included
}

func fAtom(s string) *Formula  { return &Formula{Op: "atom", Atom: s} }
func fNot(f *Formula) *Formula { return &Formula{Op: "not", Kids: []*Formula{f}} }

// fJoin joins non-nil formulas with op, nil when there are none.
func fJoin(op string, fs ...*Formula) *Formula {
	var kids []*Formula
	for _, f := range fs {
		if f != nil {
			kids = append(kids, f)
		}
	}
	switch len(kids) {
	case 0:
		return nil
	case 1:
		return kids[0]
	}
	return &Formula{Op: op, Kids: kids}
}

// fSeq joins a flat sequence, each element with its own join type, AND binding tighter than OR.
func fSeq(fs []*Formula, ops []string) *Formula {
	var ors []*Formula
	var cur []*Formula
	for i, f := range fs {
		if f == nil {
			continue
		}
		if len(cur) > 0 && ops[i] == "or" {
			ors = append(ors, fJoin("and", cur...))
			cur = nil
		}
		cur = append(cur, f)
	}
	if len(cur) > 0 {
		ors = append(ors, fJoin("and", cur...))
	}
	return fJoin("or", ors...)
}

// canon gives negation normal form, flattened, with sorted members.
// For formulas where every atom occurs once, equal meaning implies equal canonical text.
func canon(f *Formula) string { return canonN(f, false) }

func canonN(f *Formula, neg bool) string {
	if f == nil {
		return "<none>"
	}
	switch f.Op {
	case "true", "false":
		if (f.Op == "true") != neg {
			return "TRUE"
		}
		return "FALSE"
	case "atom":
		if neg {
			return "!" + f.Atom
		}
		return f.Atom
	case "not":
		return canonN(f.Kids[0], !neg)
	}
	op := f.Op
	if neg {
		if op == "and" {
			op = "or"
		} else {
			op = "and"
		}
	}
	var parts []string
	var walk func(g *Formula, n bool)
	walk = func(g *Formula, n bool) {
		for g.Op == "not" {
			g, n = g.Kids[0], !n
		}
		gop := g.Op
		if n && gop == "and" {
			gop = "or"
		} else if n && gop == "or" {
			gop = "and"
		}
		if gop == op {
			for _, k := range g.Kids {
				walk(k, n)
			}
			return
		}
		parts = append(parts, canonN(g, n))
	}
	walk(f, neg)
	sort.Strings(parts)
	return op + "(" + strings.Join(parts, " ; ") + ")"
}

func atomsOf(f *Formula, m map[string]int) {
	if f == nil {
		return
	}
	if f.Op == "atom" {
		m[f.Atom]++
	}
	for _, k := range f.Kids {
		atomsOf(k, m)
	}
}

// Kleene logic: -1 unknown, 0 false, 1 true.
func evalF(f *Formula, env map[string]int8) int8 {
	switch f.Op {
	case "true":
		return 1
	case "false":
		return 0
	case "atom":
		return env[f.Atom]
	case "not":
		return not3(evalF(f.Kids[0], env))
	}
	r := evalF(f.Kids[0], env)
	for _, k := range f.Kids[1:] {
		if f.Op == "and" {
			r = and3(r, evalF(k, env))
		} else {
			r = or3(r, evalF(k, env))
		}
	}
	return r
}

func not3(a int8) int8 {
	if a < 0 {
		return a
	}
	return 1 - a
}
func and3(a, b int8) int8 {
	if a == 0 || b == 0 {
		return 0
	}
	if a < 0 || b < 0 {
		return -1
	}
	return 1
}
func or3(a, b int8) int8 { return not3(and3(not3(a), not3(b))) }

// equivalent decides whether two formulas select the same rows. An answer of false always comes with
// a reason: the set of atoms differs, or a truth assignment distinguishes them.
func equivalent(want, got *Formula) error {
	if want == nil || got == nil {
		if want == nil && got == nil {
			return nil
		}
		return fmt.Errorf("condition expected %s, got %s", canon(want), canon(got))
	}
	cw, cg := canon(want), canon(got)
	if cw == cg {
		return nil
	}
	aw, ag := map[string]int{}, map[string]int{}
	atomsOf(want, aw)
	atomsOf(got, ag)
	once := true
	var names []string
	for a, n := range aw {
		names = append(names, a)
		if ag[a] == 0 {
			return fmt.Errorf("predicate %s was requested but is missing: expected %s, got %s", a, cw, cg)
		}
		if n > 1 {
			once = false
		}
	}
	for a, n := range ag {
		if aw[a] == 0 {
			return fmt.Errorf("predicate %s was not requested: expected %s, got %s", a, cw, cg)
		}
		if n > 1 {
			once = false
		}
	}
	if strings.Contains(cw, "TRUE") || strings.Contains(cw, "FALSE") || strings.Contains(cg, "TRUE") || strings.Contains(cg, "FALSE") {
		once = false
	}
	if once {
		// read-once formulas over the same atoms with different normal forms differ
		return fmt.Errorf("meaning differs: expected %s, got %s", cw, cg)
	}
	sort.Strings(names)
	h := fnv.New64a()
	h.Write([]byte(cw + "\x00" + cg))
	rnd := rand.New(rand.NewSource(int64(h.Sum64())))
	env := map[string]int8{}
	try := func() error {
		if a, b := evalF(want, env), evalF(got, env); a != b {
			var s []string
			for _, n := range names {
				s = append(s, fmt.Sprintf("%s=%d", n, env[n]))
			}
			return fmt.Errorf("meaning differs when %s: expected %d, got %d; expected %s, got %s", strings.Join(s, ", "), a, b, cw, cg)
		}
		return nil
	}
	if len(names) <= 8 {
		total := 1
		for range names {
			total *= 3
		}
		for c := 0; c < total; c++ {
			x := c
			for _, n := range names {
				env[n] = int8(x%3) - 1
				x /= 3
			}
			if err := try(); err != nil {
				return err
			}
		}
		return nil
	}
	for c := 0; c < 6000; c++ {
		p := rnd.Float64()
		for _, n := range names {
			switch {
			case rnd.Float64() < 0.02:
				env[n] = -1
			case rnd.Float64() < p:
				env[n] = 1
			default:
				env[n] = 0
			}
		}
		if err := try(); err != nil {
			return err
		}
	}
	return nil
}

// exprFormula converts parsed SQL to a formula, substituting values of placeholders into atoms.
func exprFormula(e *Expr, params []any) *Formula {
	if e == nil {
		return nil
	}
	switch e.Op {
	case "not":
		return fNot(exprFormula(e.Kids[0], params))
	case "and", "or":
		kids := make([]*Formula, len(e.Kids))
		for i, k := range e.Kids {
			kids[i] = exprFormula(k, params)
		}
		return &Formula{Op: e.Op, Kids: kids}
	}
	if e.Pred == "=" && e.Args[0].Kind == "num" && e.Args[1].Kind == "num" {
		if e.Args[0].Num == e.Args[1].Num {
			return &Formula{Op: "true"}
		}
		return &Formula{Op: "false"}
	}
	args := make([]string, len(e.Args))
	for i, a := range e.Args {
		args[i] = operandText(a, params)
	}
	f := fAtom(e.Pred + "[" + strings.Join(args, ",") + "]")
	if e.Neg {
		return fNot(f)
	}
	return f
}

func operandText(a Operand, params []any) string {
	switch a.Kind {
	case "ph":
		if a.Pos < 0 || a.Pos >= len(params) {
			return fmt.Sprintf("MISSING-PARAM-%d", a.Pos+1)
		}
		return valText(params[a.Pos])
	case "num":
		return fmt.Sprint(a.Num)
	case "func":
		parts := make([]string, len(a.Args))
		for i, x := range a.Args {
			parts[i] = operandText(x, params)
		}
		return a.Ref + "(" + strings.Join(parts, ",") + ")"
	}
	return a.Ref
}
