package eng

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type job struct {
	sub    *Sub
	shard  int
	checks int
	seed   uint64
	dir    string
	bin    string
	res    *result
	viol   *Violation
	err    string
}

// Run executes all subs of a property and returns the exit code.
func Run(verif, prop, tier, raceBin string) int {
	start := time.Now()
	seed, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = hash([]byte(os.Getenv("VERIF_SEED")))
	}
	list := Of(prop)
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no checks registered for", prop)
		return 3
	}
	if only := os.Getenv("VERIF_SUB"); only != "" {
		var l []*Sub
		for _, s := range list {
			if s.Name == only {
				l = append(l, s)
			}
		}
		list = l
	}
	scratch, err := os.MkdirTemp("", "vp-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)

	deadline := 420
	if tier == "thorough" {
		deadline = 2400
	}
	if d, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE")); err == nil {
		deadline = d
	}
	self, _ := os.Executable()

	var viols []*Violation
	var harness []string
	excluded := map[string]int{}
	corpusN := 0

	// 1. Regression corpus: saved minimal cases, without the library.
	for _, s := range list {
		files, _ := filepath.Glob(filepath.Join(verif, "corpus", prop, s.Name, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			raw, err := os.ReadFile(f)
			if err != nil {
				harness = append(harness, err.Error())
				continue
			}
			corpusN++
			kind, msg := evalWith(binFor(s, self, raceBin), prop, s.Name, raw, scratch, verif)
			switch kind {
			case "":
			case "harness":
				harness = append(harness, f+": "+msg)
			default:
				viols = append(viols, &Violation{Property: prop, Sub: s.Name, Seed: seed, Kind: kind, Message: msg, Case: raw})
			}
		}
	}

	// 2. Generated cases in parallel worker processes.
	var jobs []*job
	for _, s := range list {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		if m, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
			n = max(1, int(float64(n)*m))
		}
		shards := min(s.MaxShards, max(1, n/50))
		if tier == "thorough" && s.MaxShards > 1 {
			shards = min(max(s.MaxShards, 8), max(1, n/50))
		}
		for k := 0; k < shards; k++ {
			c := n / shards
			if k < n%shards {
				c++
			}
			if c == 0 {
				continue
			}
			jb := &job{sub: s, shard: k, checks: c, bin: binFor(s, self, raceBin),
				seed: hash([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, s.Name, k)))>>1 | 1,
				dir:  filepath.Join(scratch, fmt.Sprintf("%s-%d", s.Name, k))}
			jobs = append(jobs, jb)
		}
	}
	if len(viols) == 0 {
		sem := make(chan struct{}, max(2, runtime.NumCPU()))
		var wg sync.WaitGroup
		var mu sync.Mutex
		stop := false
		for _, jb := range jobs {
			mu.Lock()
			st := stop
			mu.Unlock()
			if st {
				break
			}
			sem <- struct{}{}
			wg.Add(1)
			go func(jb *job) {
				defer wg.Done()
				defer func() { <-sem }()
				mu.Lock()
				st := stop
				mu.Unlock()
				if st {
					return
				}
				jb.run(verif, max(20, deadline-int(time.Since(start).Seconds())))
				if jb.viol != nil {
					mu.Lock()
					stop = true
					mu.Unlock()
				}
			}(jb)
		}
		wg.Wait()
	}

	// 3. Verdict and evidence.
	evals := corpusN
	type agg struct {
		Evals, NonTrivial int
		Labels            map[string]int `json:",omitempty"`
		Rule              string
	}
	per := map[string]*agg{}
	distinct := map[string]map[uint64]struct{}{}
	var samples []any
	perSubSamples := map[string]int{}
	timedOut := 0
	for _, jb := range jobs {
		if jb.err != "" {
			harness = append(harness, fmt.Sprintf("%s shard %d: %s", jb.sub.Name, jb.shard, jb.err))
		}
		if jb.viol != nil {
			viols = append(viols, jb.viol)
		}
		r := jb.res
		if r == nil {
			continue
		}
		if r.TimedOut {
			timedOut++
		}
		p := per[jb.sub.Name]
		if p == nil {
			p = &agg{Labels: map[string]int{}, Rule: jb.sub.Rule}
			per[jb.sub.Name] = p
			distinct[jb.sub.Name] = map[uint64]struct{}{}
		}
		p.Evals += r.Evals
		evals += r.Evals
		for l, n := range r.Labels {
			p.Labels[l] += n
		}
		for k, n := range r.Excluded {
			excluded[k] += n
		}
		for _, h := range r.NonTrivial {
			distinct[jb.sub.Name][h] = struct{}{}
		}
		for _, s := range r.Samples {
			if perSubSamples[jb.sub.Name] < 2 {
				perSubSamples[jb.sub.Name]++
				samples = append(samples, map[string]any{"sub": jb.sub.Name, "case": json.RawMessage(s)})
			}
		}
	}
	nt := 0
	for n, d := range distinct {
		per[n].NonTrivial = len(d)
		nt += len(d)
	}

	known, kerr := loadKnown(verif)
	if kerr != nil {
		harness = append(harness, kerr.Error())
	}
	for k, desc := range known {
		if strings.HasPrefix(k, prop+"/") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, desc)
		}
	}

	rules := []string{}
	for _, s := range list {
		rules = append(rules, s.Name+": "+s.Rule)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed & (1<<62 - 1)), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": nt,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"per_sub":             per,
			"corpus_cases":        corpusN,
			"excluded_known":      excluded,
			"shards_cut_by_time":  timedOut,
		},
		"assumptions": []string{
			"exploration: finds violations in generated cases, does not prove their absence",
			"the oracles in /verif/harness (reference models in float64) are the trusted base",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viols),
	}
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644))

	if len(viols) > 0 {
		must(os.MkdirAll(filepath.Join(verif, "replays"), 0o755))
		for _, v := range viols {
			p := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%016x.json", prop, v.Sub, hash(v.Case)))
			v.Replay = "/verif/check.sh replay " + p
			b, _ := json.MarshalIndent(v, "", " ")
			must(os.WriteFile(p, append(b, '\n'), 0o644))
			msg := v.Message
			if len(msg) > 700 {
				msg = msg[:700] + "..."
			}
			cs := string(v.Case)
			if len(cs) > 1500 {
				cs = cs[:1500] + "..."
			}
			fmt.Printf("--- %s/%s (%s)\n%s\ncase: %s\n", prop, v.Sub, v.Kind, msg, cs)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h)
		}
		return 3
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", prop, tier, evals, nt, time.Since(start).Seconds())
	return 0
}

func binFor(s *Sub, self, raceBin string) string {
	switch {
	case s.Race && raceBin != "":
		return raceBin
	case s.Flavour != "":
		bin := os.Getenv("VERIF_BIN_" + s.Flavour)
		if bin == "" {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: no %s build of the harness\n", s.Flavour)
			os.Exit(3)
		}
		return bin
	}
	return self
}

func evalWith(bin, prop, sub string, raw []byte, dir, verif string) (kind, msg string) {
	f := filepath.Join(dir, "corpus-case.json")
	must(os.WriteFile(f, raw, 0o644))
	cmd := exec.Command(bin, "eval", prop, sub, f, verif)
	cmd.Env = append(childEnv(prop, sub), "TMPDIR="+dir) // removed with dir even if the process dies
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "harness", err.Error()
	}
	timer := time.AfterFunc(hangLimit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		return "hang", fmt.Sprintf("the case did not finish within %v", hangLimit)
	}
	if err == nil {
		return "", ""
	}
	return classify(err, out.String())
}

func childEnv(prop, sub string) []string {
	env := os.Environ()
	if s := Find(prop, sub); s != nil {
		env = append(env, s.Env...)
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
}

// run executes the worker process of a job and interprets its end.
func (jb *job) run(verif string, deadline int) {
	must(os.MkdirAll(jb.dir, 0o755))
	res, out, err, hang := jb.spawn(verif, -1, false, deadline)
	if err == nil && res != nil {
		jb.res = res
		jb.viol = res.Violation
		jb.err = res.HarnessErr
		return
	}
	idx, _, raw, ok := readJournal(filepath.Join(jb.dir, "journal"))
	if !ok {
		_, msg := classify(err, out)
		jb.err = "worker died before the first case: " + msg
		return
	}
	raw = append([]byte(nil), raw...)
	var kind, msg string
	if hang {
		kind, msg = evalWith(jb.bin, jb.sub.Prop, jb.sub.Name, raw, jb.dir, verif)
		if kind == "" || kind == "harness" {
			jb.err = "a case exceeded the time limit but finished when repeated: inconclusive; " + msg
			return
		}
	} else {
		kind, msg = classify(err, out)
		if kind == "harness" {
			jb.err = msg
			return
		}
	}
	jb.viol = &Violation{Property: jb.sub.Prop, Sub: jb.sub.Name, Seed: jb.seed, Kind: kind, Message: msg, Case: raw}
	jb.res = &result{Evals: idx + 1}
	// Minimise with every evaluation in its own process.
	if kind == "hang" {
		return
	}
	again, _ := evalWith(jb.bin, jb.sub.Prop, jb.sub.Name, raw, jb.dir, verif)
	if again == "" || again == "harness" {
		jb.viol.Message = "(not reproduced by one repetition of the case alone; schedule-dependent) " + msg
		return
	}
	res, _, err, _ = jb.spawn(verif, idx, false, 60)
	if err == nil && res != nil && res.Violation != nil {
		jb.viol = res.Violation
	}
}

func (jb *job) spawn(verif string, isolateFrom int, hangIsBad bool, deadline int) (*result, string, error, bool) {
	a := workerArgs{Prop: jb.sub.Prop, Sub: jb.sub.Name, Seed: jb.seed, Checks: jb.checks, Dir: jb.dir,
		IsolateFrom: isolateFrom, HangIsBad: hangIsBad, DeadlineSec: deadline, ShrinkSec: 20, Verif: verif}
	b, err := json.Marshal(a)
	must(err)
	os.Remove(filepath.Join(jb.dir, "result.json"))
	logf, err := os.Create(filepath.Join(jb.dir, "log"))
	must(err)
	cmd := exec.Command(jb.bin, "worker", string(b))
	cmd.Env = childEnv(jb.sub.Prop, jb.sub.Name)
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hang := false
	jpath := filepath.Join(jb.dir, "journal")
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	var lastStamp int64
	last := time.Now()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			if isolateFrom >= 0 {
				continue
			}
			if _, st, _, ok := readJournal(jpath); ok && st != lastStamp {
				lastStamp = st
				last = time.Now()
			}
			if time.Since(last) > hangLimit {
				hang = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				cmd.Process.Kill()
			}
		}
	}
	logf.Close()
	lb, _ := os.ReadFile(filepath.Join(jb.dir, "log"))
	var res *result
	if rb, e := os.ReadFile(filepath.Join(jb.dir, "result.json")); e == nil && err == nil {
		res = &result{}
		if e := json.Unmarshal(rb, res); e != nil {
			err = e
			res = nil
		}
	}
	if err == nil && res == nil {
		err = fmt.Errorf("worker ended without a result")
	}
	return res, string(lb), err, hang
}

// Replay evaluates a replay file and reports.
func Replay(verif, file, raceBin string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	s := Find(v.Property, v.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub")
		return 3
	}
	dir, err := os.MkdirTemp("", "vp-replay-")
	must(err)
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	n := 1
	if v.Kind != "failure" {
		n = 20
	}
	for i := 0; i < n; i++ {
		kind, msg := evalWith(binFor(s, self, raceBin), v.Property, v.Sub, v.Case, dir, verif)
		if kind == "harness" {
			fmt.Fprintln(os.Stderr, msg)
			return 3
		}
		if kind != "" {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", kind, msg, v.Property, file)
			return 1
		}
	}
	fmt.Println("the case passes")
	return 0
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
