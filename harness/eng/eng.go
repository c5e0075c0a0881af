// Package eng is the property-based testing engine: it registers generated
// checks ("subs") per property, runs them with pgregory.net/rapid in worker
// processes, survives process-fatal outcomes of the code under test (log.Fatal,
// runtime deadlock, panics in its goroutines, data races), shrinks failures and
// writes replay and evidence files.
package eng

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Ctx collects what one evaluation wants to report.
type Ctx struct {
	nontrivial bool
	labels     []string
	// Shrinking reports that the evaluation replays or shrinks a failure.
	Shrinking bool
	// Scratch is a directory private to the worker, for file effects.
	Scratch string
}

// NT marks the case as non-trivial by the rule of its sub.
func (c *Ctx) NT() { c.nontrivial = true }

// NTIf marks the case as non-trivial if cond holds.
func (c *Ctx) NTIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Label counts the case in a class.
func (c *Ctx) Label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	c.labels = append(c.labels, format)
}

// Sub is one generated check of a property.
type Sub struct {
	Prop, Name      string
	Quick, Thorough int
	Race            bool
	Flavour         string   // other build of the harness: "pure" (no assembly), "word32" (32-bit)
	Env             []string // environment of the processes that evaluate cases
	MaxShards       int
	Rule            string
	gen             func(t *rapid.T) any
	eval            func(c *Ctx, raw []byte) error
}

var subs []*Sub

// Opt changes a Sub.
type Opt func(*Sub)

// Race makes the sub run in the binary built with the race detector.
func Race() Opt { return func(s *Sub) { s.Race = true } }

// Build makes the sub run in another build of the harness: "pure" (build tags
// that exclude all assembly) or "word32" (GOARCH=386).
func Build(flavour string) Opt { return func(s *Sub) { s.Flavour = flavour } }

// Env sets environment variables (K=V) of the processes that evaluate cases.
func Env(kv ...string) Opt { return func(s *Sub) { s.Env = append(s.Env, kv...) } }

// Again registers the cases and the oracle of a sub for another property, to be
// run in another environment.
func Again(prop, name, ofProp, ofName string, quick, thorough int, opts ...Opt) {
	of := Find(ofProp, ofName)
	if of == nil || Find(prop, name) != nil {
		panic("harness: Again " + ofProp + "/" + ofName)
	}
	s := &Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: of.Rule, MaxShards: 4, gen: of.gen, eval: of.eval}
	for _, o := range opts {
		o(s)
	}
	subs = append(subs, s)
}

// Shards bounds the number of worker processes for the sub.
func Shards(n int) Opt { return func(s *Sub) { s.MaxShards = n } }

// Register adds a generated check. rule says how cases are made and what makes
// one non-trivial. quick and thorough are numbers of cases.
func Register[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, eval func(*Ctx, C) error, opts ...Opt) {
	s := &Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule, MaxShards: 4,
		gen: func(t *rapid.T) any { return gen(t) },
		eval: func(c *Ctx, raw []byte) error {
			var cs C
			if err := json.Unmarshal(raw, &cs); err != nil {
				return fmt.Errorf("harness: cannot decode case: %w", err)
			}
			return eval(c, cs)
		},
	}
	for _, o := range opts {
		o(s)
	}
	for _, x := range subs {
		if x.Prop == prop && x.Name == name {
			panic("duplicate sub " + prop + "/" + name)
		}
	}
	subs = append(subs, s)
}

// Find returns the registered sub.
func Find(prop, name string) *Sub {
	for _, s := range subs {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Of returns all subs of a property.
func Of(prop string) []*Sub {
	var out []*Sub
	for _, s := range subs {
		if s.Prop == prop {
			out = append(out, s)
		}
	}
	return out
}

// Props lists the registered properties.
func Props() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range subs {
		if !seen[s.Prop] {
			seen[s.Prop] = true
			out = append(out, s.Prop)
		}
	}
	sort.Strings(out)
	return out
}

// Known marks a failure as an instance of a listed finding.
type Known struct {
	Key string
	Msg string
}

func (k *Known) Error() string { return "[" + k.Key + "] " + k.Msg }

// safeEval evaluates a case, turning a panic into an error.
func (s *Sub) safeEval(c *Ctx, raw []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return s.eval(c, raw)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if i := indexPrefix(lines, "panic("); i >= 0 {
		lines = lines[i:]
	}
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

func indexPrefix(l []string, p string) int {
	for i, x := range l {
		if strings.HasPrefix(x, p) {
			return i
		}
	}
	return -1
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Violation is a confirmed failure; it is also the replay file's content.
type Violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Seed     uint64          `json:"seed"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Replay   string          `json:"how_to_replay"`
}

// result is what a worker writes when it ends normally.
type result struct {
	Evals      int            `json:"evals"`
	NonTrivial []uint64       `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Excluded   map[string]int `json:"excluded"`
	Violation  *Violation     `json:"violation"`
	HarnessErr string         `json:"harness_err"`
	TimedOut   bool           `json:"timed_out"`
}

func loadKnown(verif string) (keys map[string]string, err error) {
	keys = map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		if errors.Is(err, os.ErrNotExist) {
			return keys, nil
		}
		return nil, err
	}
	for _, line := range strings.Split(string(b), "\n") {
		// finding: property=C01 key=K description
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		f := strings.Fields(line)
		var prop, key string
		for _, x := range f {
			if strings.HasPrefix(x, "property=") {
				prop = strings.TrimPrefix(x, "property=")
			}
			if strings.HasPrefix(x, "key=") {
				key = strings.TrimPrefix(x, "key=")
			}
		}
		if prop != "" && key != "" {
			keys[prop+"/"+key] = strings.TrimPrefix(line, "finding: ")
		}
	}
	return keys, nil
}
