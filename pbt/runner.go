package main

// The runner: drives parts of a property with rapid or by enumeration, records what was explored,
// shrinks the first failure and saves it as a replay file.

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a case was: labels for the distribution and whether it was non-trivial.
type Obs struct {
	nontrivial bool
	labels     []string
}

func (o *Obs) label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	o.labels = append(o.labels, format)
}

func (o *Obs) labelIf(c bool, l string) {
	if c {
		o.label(l)
	}
}

// Part is one executable check of a property.
type Part interface {
	name() string
	counts() (quick, thorough int) // 0 for an enumeration
	draw(t *rapid.T) any
	enum(shard, shards int, tier string, yield func(any) bool)
	decode(raw json.RawMessage) (any, error)
	check(c any, o *Obs) error
}

// part implements Part for cases of type C.
type part[C any] struct {
	Name     string
	Quick    int // cases per run, all shards together
	Thorough int
	Gen      func(t *rapid.T) *C
	Enum     func(tier string, yield func(*C) bool)
	Check    func(c *C, o *Obs) error
}

func (p *part[C]) name() string        { return p.Name }
func (p *part[C]) counts() (int, int)  { return p.Quick, p.Thorough }
func (p *part[C]) draw(t *rapid.T) any { return p.Gen(t) }
func (p *part[C]) enum(shard, shards int, tier string, yield func(any) bool) {
	if p.Enum == nil {
		return
	}
	i := 0
	p.Enum(tier, func(c *C) bool {
		i++
		if i%shards != shard {
			return true
		}
		return yield(c)
	})
}
func (p *part[C]) decode(raw json.RawMessage) (any, error) {
	c := new(C)
	return c, json.Unmarshal(raw, c)
}
func (p *part[C]) check(c any, o *Obs) error { return p.Check(c.(*C), o) }

// Property is a listed property with the parts that decide it.
type Property struct {
	ID      string
	Rule    string
	Parts   []Part
	Assume  []string
	Known   func() []string // known findings that still fail
	KnownID []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// Failure is a saved replay.
type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Replay   string          `json:"replay_cmd,omitempty"`
}

// ShardResult is what a shard reports to its parent.
type ShardResult struct {
	Evaluations int
	PartEvals   map[string]int
	Labels      map[string]int
	Samples     map[string][]json.RawMessage
	Hashes      []uint64 // of distinct non-trivial cases
	Failure     *Failure
	Error       string
}

type shard struct {
	prop  *Property
	res   ShardResult
	seen  map[uint64]bool
	trace string    // file the current case is written to before it runs
	until time.Time // no case starts after it; far beyond what a run takes

	current atomic.Pointer[running]
	hung    func(*Failure) // reports a case that does not end
	once    sync.Once
}

type running struct {
	part string
	raw  []byte
}

// caseLimit is far above what any case takes (they are measured in microseconds).
const caseLimit = 120 * time.Second

// watch ends the process with a failure when one case runs longer than caseLimit.
func (s *shard) watch(p Part, raw []byte) {
	s.current.Store(&running{p.name(), raw})
	s.once.Do(func() {
		go func() {
			const step = caseLimit / 10
			var last *running
			n := 0
			for {
				time.Sleep(step)
				c := s.current.Load()
				if c == nil || c != last {
					last, n = c, 0
					continue
				}
				if n++; n >= 10 && s.hung != nil {
					s.hung(&Failure{Property: s.prop.ID, Part: c.part, Error: fmt.Sprintf("the case does not end in %s", caseLimit), Case: c.raw})
				}
			}
		}()
	})
}

type violationPanic struct{ err error }

// runCase executes a case with panics turned into errors.
func runCase(p Part, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	if slowCases {
		defer func(since time.Time) {
			if d := time.Since(since); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %s %.1fs\n", p.name(), d.Seconds())
			}
		}(time.Now())
	}
	return p.check(c, o)
}

// slowCases asks for a line for each case of more than a second.
var slowCases = os.Getenv("PBT_SLOW") != ""

func hashOf(part string, raw []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(part))
	h.Write(raw)
	return h.Sum64()
}

func (s *shard) observe(p Part, raw []byte, o *Obs) {
	s.res.Evaluations++
	s.res.PartEvals[p.name()]++
	for _, l := range o.labels {
		s.res.Labels[p.name()+": "+l]++
	}
	if !o.nontrivial {
		return
	}
	s.res.Labels[p.name()+": (non-trivial)"]++
	h := hashOf(p.name(), raw)
	if s.seen[h] || len(s.seen) > 1<<20 {
		return
	}
	s.seen[h] = true
	if len(s.res.Samples[p.name()]) < 3 && len(raw) < 1500 && s.res.PartEvals[p.name()]%7 == 0 {
		s.res.Samples[p.name()] = append(s.res.Samples[p.name()], append(json.RawMessage{}, raw...))
	}
}

func encode(c any) []byte {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("harness: case is not serialisable: %v", err))
	}
	return raw
}

// one runs a case and reports its failure.
func (s *shard) one(p Part, c any) *Failure {
	raw := encode(c)
	if s.trace != "" {
		_ = os.WriteFile(s.trace, encode(Failure{Property: s.prop.ID, Part: p.name(), Case: raw}), 0o644)
	}
	o := &Obs{}
	s.watch(p, raw)
	err := runCase(p, c, o)
	s.current.Store(nil)
	if errors.Is(err, errSkip) {
		return nil
	}
	s.observe(p, raw, o)
	if err == nil {
		return nil
	}
	return &Failure{Property: s.prop.ID, Part: p.name(), Error: err.Error(), Case: raw}
}

// quietTB satisfies rapid.TB outside of the testing package.
type quietTB struct {
	name   string
	failed bool
	last   string
}

type tbStop struct{}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return q.name }
func (q *quietTB) Logf(string, ...any)       {}
func (q *quietTB) Log(...any)                {}
func (q *quietTB) Skipf(string, ...any)      { panic(tbStop{}) }
func (q *quietTB) Skip(...any)               { panic(tbStop{}) }
func (q *quietTB) SkipNow()                  { panic(tbStop{}) }
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; q.last = fmt.Sprintf(f, a...) }
func (q *quietTB) Error(a ...any)            { q.failed = true; q.last = fmt.Sprint(a...) }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...); panic(tbStop{}) }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...); panic(tbStop{}) }
func (q *quietTB) FailNow()                  { q.failed = true; panic(tbStop{}) }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

// late tells whether the part has used its time, and notes it.
func (s *shard) late(p Part, limit time.Time) bool {
	if limit.IsZero() || time.Now().Before(limit) {
		return false
	}
	s.res.Labels[p.name()+": (cut short: out of time)"] = 1
	return true
}

// search runs the generated part; the smallest failing case seen is returned.
func (s *shard) search(p Part, limit time.Time, setup func()) (best *Failure, herr error) {
	setup()
	q := &quietTB{name: s.prop.ID + "-" + p.name()}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					herr = fmt.Errorf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(q, func(t *rapid.T) {
			if best == nil && s.late(p, limit) {
				return
			}
			c := p.draw(t)
			if f := s.one(p, c); f != nil {
				if best == nil || len(f.Case) <= len(best.Case) {
					best = f
				}
				t.Fatalf("violation")
			}
		})
	}()
	if herr == nil && q.failed && best == nil {
		herr = errors.New(q.last)
	}
	return best, herr
}

func topLabels(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
