package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Known is the committed file of findings.
type KnownFinding struct {
	Property string
	Probe    string
	Text     string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt run|shard|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	if cmd == "batch" {
		os.Exit(batchMain(os.Args[2]))
	}
	if cmd == "conc" {
		os.Exit(concMain())
	}
	testing.Init()
	fs := flag.CommandLine
	var (
		id      = fs.String("prop", "", "property")
		tier    = fs.String("tier", "quick", "quick or thorough")
		seed    = fs.Int64("seed", 1, "seed")
		shardNo = fs.Int("shard", 0, "shard")
		shards  = fs.Int("shards", 8, "number of shards")
		out     = fs.String("out", "", "output file")
		trace   = fs.String("trace", "", "write every case here before it runs")
		verif   = fs.String("verif", "/verif", "directory of the framework")
		work    = fs.String("work", "", "scratch directory")
		scale   = fs.Float64("scale", 1, "multiplier of case counts")
		until   = fs.Int64("until", 0, "start no case after this unix time")
		only    = fs.String("part", "", "only this part")
		fuzzOut = fs.String("fuzzfail", "", "failure found by the native fuzzer, if any")
		fuzzLog = fs.Int("fuzzexecs", 0, "executions of the native fuzzer")
	)
	_ = fs.Parse(os.Args[2:])
	debug.SetMaxStack(64 << 20)
	switch cmd {
	case "list":
		var ks []string
		for k := range properties {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "shard":
		runShard(*id, *tier, *seed, *shardNo, *shards, *out, *trace, *scale, *only, *until)
	case "run":
		os.Exit(runAll(*id, *tier, *seed, *shards, *verif, *work, *scale, *only, *fuzzOut, *fuzzLog))
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func seedFor(seed int64, id, part string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, part, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func runShard(id, tier string, seed int64, no, shards int, out, trace string, scale float64, only string, until int64) {
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	s := &shard{prop: p, seen: map[uint64]bool{}, trace: trace}
	if until > 0 {
		s.until = time.Unix(until, 0)
	}
	s.res.PartEvals, s.res.Labels, s.res.Samples = map[string]int{}, map[string]int{}, map[string][]json.RawMessage{}
	s.hung = func(f *Failure) { // nothing else of s is touched: the main goroutine still runs
		raw, _ := json.Marshal(ShardResult{Evaluations: 1, Failure: f})
		_ = os.WriteFile(out, raw, 0o644)
		os.Exit(0)
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")
parts:
	for _, pt := range p.Parts {
		if only != "" && pt.name() != only {
			continue
		}
		stop := false
		limit := s.until // a part takes at most half of the time that is left
		if !limit.IsZero() {
			limit = time.Now().Add(time.Until(s.until) / 2)
		}
		pt.enum(no, shards, tier, func(c any) bool {
			if f := s.one(pt, c); f != nil {
				s.res.Failure = f
				stop = true
			}
			return !stop && !s.late(pt, limit)
		})
		if stop {
			break parts
		}
		quick, thorough := pt.counts()
		n := 5 * quick
		if tier == "thorough" {
			n = 8 * thorough
		}
		n = int(float64(n) * scale)
		n = (n + shards - 1 - no) / shards
		if n <= 0 {
			continue
		}
		f, err := s.search(pt, limit, func() {
			set("rapid.checks", strconv.Itoa(n))
			set("rapid.seed", strconv.FormatUint(seedFor(seed, id, pt.name(), no), 10))
		})
		if err != nil {
			s.res.Error = fmt.Sprintf("part %s: %v", pt.name(), err)
			break
		}
		if f != nil {
			s.res.Failure = f
			break
		}
	}
	for h := range s.seen {
		s.res.Hashes = append(s.res.Hashes, h)
	}
	raw, err := json.Marshal(s.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, raw, 0o644); err != nil {
		panic(err)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// softLimit is when a run stops making cases, on machines much slower than usual; check.sh's own limit is higher.
var softLimit = map[string]time.Duration{"quick": 600 * time.Second, "thorough": 6000 * time.Second}

func runAll(id, tier string, seed int64, shards int, verif, work string, scale float64, only, fuzzFail string, fuzzExecs int) int {
	start := time.Now()
	until := start.Add(softLimit[tier]).Unix()
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	known, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	results := make([]ShardResult, shards)
	errs := make([]error, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("shard%d.json", i))
			args := []string{"shard", "-prop", id, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", out, "-scale", strconv.FormatFloat(scale, 'f', -1, 64), "-part", only, "-until", strconv.FormatInt(until, 10)}
			run := func(extra ...string) (string, error) {
				c := exec.Command(os.Args[0], append(append([]string{}, args...), extra...)...)
				c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400", "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(work, fmt.Sprintf("race%d", i)))
				b, err := c.CombinedOutput()
				return string(b), err
			}
			txt, err := run()
			if err != nil && crashed(txt) {
				// the process itself died (stack exhaustion, race report, concurrent map use): repeat with every case written down
				tr := filepath.Join(work, fmt.Sprintf("trace%d.json", i))
				txt2, err2 := run("-trace", tr)
				raw, rerr := os.ReadFile(tr)
				if err2 != nil && crashed(txt2) {
					txt = txt2
				}
				f := &Failure{}
				if rerr == nil && json.Unmarshal(raw, f) == nil {
					f.Error = "the process crashed: " + tail(txt, 4000)
					results[i].Failure = f
					return
				}
			}
			if err != nil {
				errs[i] = fmt.Errorf("shard %d: %v\n%s", i, err, tail(txt, 4000))
				return
			}
			raw, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(raw, &results[i])
			}
			if err == nil && results[i].Error != "" {
				err = fmt.Errorf("shard %d: %s", i, results[i].Error)
			}
			errs[i] = err
		}(i)
	}
	wg.Wait()

	total, labels, partEvals := 0, map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	samples := []any{}
	perPart := map[string]int{}
	var fail *Failure
	for i := range results {
		r := &results[i]
		total += r.Evaluations
		for k, v := range r.Labels {
			labels[k] += v
		}
		for k, v := range r.PartEvals {
			partEvals[k] += v
		}
		for _, h := range r.Hashes {
			distinct[h] = true
		}
		for _, pt := range p.Parts {
			for _, sm := range r.Samples[pt.name()] {
				if perPart[pt.name()] < 3 {
					perPart[pt.name()]++
					samples = append(samples, map[string]any{"part": pt.name(), "case": sm})
				}
			}
		}
		if r.Failure != nil && (fail == nil || len(r.Failure.Case) < len(fail.Case)) {
			fail = r.Failure
		}
	}
	if fuzzFail != "" {
		if raw, err := os.ReadFile(fuzzFail); err == nil {
			f := &Failure{}
			if json.Unmarshal(raw, f) == nil && fail == nil {
				fail = f
			}
		}
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	cov := map[string]any{
		"evaluations": total, "distinct_nontrivial": len(distinct), "rule": p.Rule, "samples": samples,
		"evaluations_per_part": partEvals, "labels": labels, "shards": shards,
	}
	if fuzzExecs > 0 {
		cov["native_fuzz_executions"] = fuzzExecs
	}
	exit := 0
	for i, e := range errs {
		if e != nil && fail == nil {
			fmt.Fprintf(os.Stderr, "harness error in shard %d: %v\n", i, e)
			exit = 2
		}
	}
	// Known findings are probed one by one.
	probed := []string{}
	for _, k := range known {
		if k.Property != id {
			continue
		}
		err := probeKnown(k)
		if err != nil {
			probed = append(probed, k.Probe)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
		}
	}
	cov["known_findings_reproduced"] = probed
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(raw, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if fail != nil {
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, fail.Part, hashOf(fail.Part, fail.Case)))
		fail.Replay = "bash /verif/replay.sh " + path
		raw, _ := json.MarshalIndent(fail, "", " ")
		if err := os.WriteFile(path, append(raw, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("part %s: %s\n", fail.Part, tail(fail.Error, 3000))
		fmt.Printf("case: %s\n", tail(string(fail.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if exit == 0 {
		fmt.Printf("%s %s: held on %d cases, %d distinct non-trivial, %.1fs\n", id, tier, total, len(distinct), time.Since(start).Seconds())
	}
	return exit
}

func crashed(out string) bool {
	for _, m := range []string{"fatal error: concurrent map", "fatal error: stack overflow", "goroutine stack exceeds", "fatal error: all goroutines are asleep"} {
		if strings.Contains(out, m) {
			return true
		}
	}
	return false
}

func replay(path string) int {
	raw, err := os.ReadFile(path)
	f := &Failure{}
	if err == nil {
		err = json.Unmarshal(raw, f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := properties[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	for _, pt := range p.Parts {
		if pt.name() != f.Part {
			continue
		}
		c, err := pt.decode(f.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := runCase(pt, c, &Obs{}); err != nil {
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		fmt.Println("the property holds on this case")
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown part", f.Part)
	return 2
}

// readKnown reads lines "finding: property=<id> probe=<name> <text>"; "fixed:" lines suppress nothing.
func readKnown(path string) (res []KnownFinding, err error) {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := KnownFinding{Text: strings.TrimPrefix(l, "finding: ")}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok && k.Property == "" {
				k.Property = v
			}
			if v, ok := strings.CutPrefix(w, "probe="); ok && k.Probe == "" {
				k.Probe = v
			}
		}
		_, k.Text, _ = strings.Cut(k.Text, "probe="+k.Probe+" ")
		if probes[k.Probe] == nil {
			return nil, fmt.Errorf("no probe %q", k.Probe)
		}
		res = append(res, k)
	}
	return res, nil
}

var probes = map[string]func() error{}

func probeKnown(k KnownFinding) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return probes[k.Probe]()
}
