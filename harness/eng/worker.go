package eng

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of worker and eval processes.
const (
	exitOK       = 0
	exitViolated = 77 // eval: the case fails
	exitHarness  = 78
)

type tb struct {
	failed bool
	msg    string
}

func (t *tb) Helper()              {}
func (t *tb) Name() string         { return "verif" }
func (t *tb) Logf(string, ...any)  {}
func (t *tb) Log(...any)           {}
func (t *tb) Skipf(string, ...any) {}
func (t *tb) Skip(...any)          {}
func (t *tb) SkipNow()             {}
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	t.msg = fmt.Sprintf(f, a...)
}
func (t *tb) Error(...any) { t.failed = true }
func (t *tb) Fatalf(f string, a ...any) {
	t.failed = true
	t.msg = fmt.Sprintf(f, a...)
	runtime.Goexit()
}
func (t *tb) Fatal(...any) { t.failed = true; runtime.Goexit() }
func (t *tb) FailNow()     { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()        { t.failed = true }
func (t *tb) Failed() bool { return t.failed }

// journal records the case being evaluated so that the parent can attribute a
// process-fatal outcome to it.
type journal struct {
	f   *os.File
	buf []byte
}

func (j *journal) write(idx int, raw []byte) {
	j.buf = j.buf[:0]
	j.buf = binary.LittleEndian.AppendUint64(j.buf, uint64(idx))
	j.buf = binary.LittleEndian.AppendUint64(j.buf, uint64(time.Now().UnixNano()))
	j.buf = binary.LittleEndian.AppendUint32(j.buf, uint32(len(raw)))
	j.buf = append(j.buf, raw...)
	if _, err := j.f.WriteAt(j.buf, 0); err != nil {
		fmt.Fprintln(os.Stderr, "harness: journal:", err)
		os.Exit(exitHarness)
	}
}

func readJournal(path string) (idx int, stamp int64, raw []byte, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 20 {
		return 0, 0, nil, false
	}
	idx = int(binary.LittleEndian.Uint64(b))
	stamp = int64(binary.LittleEndian.Uint64(b[8:]))
	n := int(binary.LittleEndian.Uint32(b[16:]))
	if len(b) < 20+n {
		return 0, 0, nil, false
	}
	return idx, stamp, b[20 : 20+n], true
}

type workerArgs struct {
	Prop, Sub   string
	Seed        uint64
	Checks      int
	Dir         string
	IsolateFrom int // -1: evaluate in-process
	HangIsBad   bool
	DeadlineSec int
	ShrinkSec   int
	Verif       string
}

// Worker is the entry of a worker process.
func Worker(args []string) {
	var a workerArgs
	if err := json.Unmarshal([]byte(args[0]), &a); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(exitHarness)
	}
	s := Find(a.Prop, a.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown sub", a.Prop, a.Sub)
		os.Exit(exitHarness)
	}
	known, err := loadKnown(a.Verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(exitHarness)
	}
	must(flag.Set("rapid.checks", strconv.Itoa(a.Checks)))
	seed := a.Seed
	if seed == 0 {
		seed = 0x9E3779B97F4A7C15
	}
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", fmt.Sprintf("%ds", max(1, a.ShrinkSec))))

	jf, err := os.OpenFile(filepath.Join(a.Dir, "journal"), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	j := &journal{f: jf}
	res := &result{Labels: map[string]int{}, Excluded: map[string]int{}}
	seen := map[uint64]struct{}{}
	deadline := time.Now().Add(time.Duration(a.DeadlineSec) * time.Second)

	idx := -1
	failing := false
	var best *Violation
	var harnessErr string
	scratch := filepath.Join(a.Dir, "scratch")
	must(os.MkdirAll(scratch, 0o755))

	prop := func(t *rapid.T) {
		if !failing && time.Now().After(deadline) {
			res.TimedOut = true
			return
		}
		if !failing {
			idx++
		}
		cs := s.gen(t)
		raw, err := json.Marshal(cs)
		if err != nil {
			harnessErr = "encode case: " + err.Error()
			t.Fatalf("harness")
		}
		if a.IsolateFrom >= 0 && idx < a.IsolateFrom {
			return
		}
		var kind, msg string
		ctx := &Ctx{Shrinking: failing, Scratch: scratch}
		if a.IsolateFrom >= 0 {
			kind, msg = evalIsolated(a.Prop, a.Sub, raw, a.Dir, a.Verif, a.HangIsBad)
			if kind == "harness" {
				harnessErr = msg
				t.Fatalf("harness")
			}
		} else {
			j.write(idx, raw)
			if err := s.safeEval(ctx, raw); err != nil {
				kind, msg = "failure", err.Error()
				var k *Known
				if errors.As(err, &k) {
					if _, ok := known[a.Prop+"/"+k.Key]; ok {
						res.Excluded[k.Key]++
						kind, msg = "", ""
					}
				}
				if strings.HasPrefix(msg, "harness:") {
					harnessErr = msg
					t.Fatalf("harness")
				}
			}
		}
		if !failing {
			res.Evals++
			for _, l := range ctx.labels {
				res.Labels[l]++
			}
			if ctx.nontrivial {
				h := hash(raw)
				if _, ok := seen[h]; !ok {
					seen[h] = struct{}{}
					if len(res.Samples) < 3 && len(raw) < 1500 {
						res.Samples = append(res.Samples, string(raw))
					}
				}
			}
		}
		if kind != "" {
			failing = true
			best = &Violation{Property: a.Prop, Sub: a.Sub, Seed: a.Seed, Kind: kind, Message: msg, Case: raw}
			t.Fatalf("violation")
		}
	}
	done := make(chan struct{})
	t := &tb{}
	// rapid's FailNow ends the goroutine; run it in one of its own. The main
	// goroutine only blocks on the channel, so that Go's deadlock detector
	// still fires when the code under test blocks forever.
	go func() {
		defer close(done)
		rapid.Check(t, prop)
	}()
	<-done
	res.Violation = best
	res.HarnessErr = harnessErr
	if t.failed && best == nil && harnessErr == "" && !res.TimedOut {
		res.HarnessErr = "rapid reported a failure without a failing case (generator problem): " + t.msg
	}
	for h := range seen {
		res.NonTrivial = append(res.NonTrivial, h)
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(filepath.Join(a.Dir, "result.json"), b, 0o644))
	os.Exit(exitOK)
}

// Eval is the entry of an eval process: it evaluates one case.
func Eval(args []string) {
	prop, sub, file, verif := args[0], args[1], args[2], args[3]
	s := Find(prop, sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown sub", prop, sub)
		os.Exit(exitHarness)
	}
	raw, err := os.ReadFile(file)
	must(err)
	known, err := loadKnown(verif)
	must(err)
	dir, err := os.MkdirTemp("", "vpeval")
	must(err)
	err = s.safeEval(&Ctx{Shrinking: true, Scratch: dir}, raw)
	os.RemoveAll(dir)
	if err != nil {
		var k *Known
		if errors.As(err, &k) {
			if _, ok := known[prop+"/"+k.Key]; ok {
				fmt.Println("known finding:", k.Key)
				os.Exit(exitOK)
			}
		}
		fmt.Println(err)
		if strings.HasPrefix(err.Error(), "harness:") {
			os.Exit(exitHarness)
		}
		os.Exit(exitViolated)
	}
	os.Exit(exitOK)
}

// hangLimit is how long a single case (normally milliseconds) may take before
// the process is taken to hang; a hang only counts once it was confirmed in a
// second, fresh process.
const hangLimit = 75 * time.Second

// evalIsolated evaluates a case in a fresh process. kind is "" if it passes.
func evalIsolated(prop, sub string, raw []byte, dir, verif string, hangIsBad bool) (kind, msg string) {
	f := filepath.Join(dir, "case.json")
	must(os.WriteFile(f, raw, 0o644))
	limit := hangLimit
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "eval", prop, sub, f, verif)
	cmd.Env = append(os.Environ(), "TMPDIR="+dir) // removed with dir even if the process dies
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if ctx.Err() != nil {
		if hangIsBad {
			return "hang", fmt.Sprintf("the case did not finish within %v", limit)
		}
		return "", ""
	}
	if err == nil {
		return "", ""
	}
	return classify(err, out.String())
}

// classify maps the end of an eval or worker process to a kind of violation,
// or to "harness" if it says nothing about the code under test.
func classify(err error, out string) (kind, msg string) {
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		return "harness", err.Error()
	}
	tail := out
	if len(tail) > 6000 {
		tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
	}
	code := ee.ExitCode()
	switch {
	case code == exitViolated:
		return "failure", tail
	case code == exitHarness:
		return "harness", tail
	case code == -1: // killed by a signal
		return "harness", "killed: " + ee.String() + "\n" + tail
	case strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory") ||
		strings.Contains(out, "failed to create new OS thread") || strings.Contains(out, "harness:"):
		return "harness", tail
	case strings.Contains(out, "WARNING: DATA RACE"):
		return "race", tail
	case strings.Contains(out, "all goroutines are asleep"):
		return "deadlock", tail
	case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
		return "crash", tail
	case code == 1:
		return "fatal", "the process was ended by log.Fatal: " + tail
	}
	return "harness", fmt.Sprintf("exit code %d: %s", code, tail)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(exitHarness)
	}
}
