package zzverif

// Coverage-guided stage of the thorough tier: the generators of a property are
// driven by the bytes that the fuzzing engine of the Go toolchain comes up with.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// fuzz is the fuzz target of a property. Failures are kept as replay files in
// the directory the environment names.
func fuzz[C any](f *testing.F, p Prop[C]) {
	dir := os.Getenv("VERIF_FUZZ_OUT")
	// the generators need that many bytes to get anywhere.
	rnd := rand.New(rand.NewSource(*seedFlag))
	for i := 0; i < 64; i++ {
		b := make([]byte, 512<<(i%6))
		rnd.Read(b)
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
		c := p.Gen(rt)
		if err := safely(func() error { return p.Run(c, new(Info)) }); err != nil {
			fl := p.fail(c, err.Error())
			if dir != "" {
				path := filepath.Join(dir, fmt.Sprintf("failure-%08d-%d.json", len(fl.Case), os.Getpid()))
				writeJSON(path, fl)
			}
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	}))
}

var execsRE = regexp.MustCompile(`execs: (\d+)`)
var interestingRE = regexp.MustCompile(`new interesting: (\d+)`)

// guided runs the coverage-guided stage.
func (p Prop[C]) guided(tmp string) (*failure, string, error) {
	out := filepath.Join(tmp, "fuzz")
	cache := filepath.Join(tmp, "corpus")
	for _, d := range []string{out, cache} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, "", err
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), *fuzzTimeFlag+3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, *fuzzBinFlag, "-test.run", "^$", "-test.fuzz", "^Fuzz"+p.ID+"$",
		"-test.fuzztime", fuzzTimeFlag.String(), "-test.fuzzcachedir", cache, "-test.parallel", "8", "-test.fuzzminimizetime", "0x", "-verif.seed", strconv.FormatInt(*seedFlag, 10))
	cmd.Dir = out
	cmd.Env = append(os.Environ(), "VERIF_FUZZ_OUT="+out)
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	files, _ := filepath.Glob(filepath.Join(out, "failure-*.json"))
	if len(files) > 0 { // sorted, so the smallest comes first
		b, err := os.ReadFile(files[0])
		if err != nil {
			return nil, "", err
		}
		var f failure
		return &f, "failed", json.Unmarshal(b, &f)
	}
	if err != nil {
		return nil, "", fmt.Errorf("coverage-guided stage: %v\n%s", err, headOf(log.String(), 4000))
	}
	last := func(re *regexp.Regexp) string {
		if m := re.FindAllStringSubmatch(log.String(), -1); len(m) > 0 {
			return m[len(m)-1][1]
		}
		return "0"
	}
	return nil, fmt.Sprintf("%s executions, %s inputs that reached new coverage", last(execsRE), last(interestingRE)), nil
}
