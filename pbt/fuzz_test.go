package main

// Coverage-guided fuzzing of the same generators and checks: the fuzzer's bytes are rapid's random choices.

import (
	"errors"
	"os"
	"testing"

	"pgregory.net/rapid"
)

func FuzzPart(f *testing.F) {
	p := properties[os.Getenv("PBT_PROP")]
	if p == nil {
		f.Skip("no property given")
	}
	f.Add([]byte{})
	f.Add(make([]byte, 4096))
	var parts []Part
	for _, pt := range p.Parts {
		if q, _ := pt.counts(); q > 0 {
			parts = append(parts, pt)
		}
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		pt := parts[0]
		if len(parts) > 1 {
			pt = parts[rapid.IntRange(0, len(parts)-1).Draw(t, "part")]
		}
		c := pt.draw(t)
		err := runCase(pt, c, &Obs{})
		if err == nil || errors.Is(err, errSkip) {
			return
		}
		raw := encode(Failure{Property: p.ID, Part: pt.name(), Error: err.Error(), Case: encode(c)})
		path := os.Getenv("PBT_FUZZFAIL")
		if old, e := os.ReadFile(path); e != nil || len(raw) < len(old) {
			_ = os.WriteFile(path, raw, 0o644)
		}
		t.Fatalf("violation: %v", err)
	}))
}
