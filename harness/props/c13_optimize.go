package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/optimizers"
)

// stepCase is one optimisation step with a scripted strategy.
type stepCase struct {
	N      int   // parameters
	Grad   []int // parameter i has a gradient iff Grad[i%len] > 0
	Delay  []int // per parameter: 0 none, 1 yield, >1 sleep in 10us
	Fail   []int // parameter i fails iff Fail[i%len] > 0
	Source int   // 0 stream, 1 model, 2 model with shared parameters, 3 slow channel, 4 buffered channel
	Procs  int
	Rounds int
	Frozen []int // parameter i no longer requires gradients when it is optimised iff Frozen[i%len] > 0
	LastN  bool  // only the last failing parameter fails
	Err    int   `json:",omitempty"` // what a failing update returns: see failures
}

// failures are the errors a strategy may return, besides one of its own.
var failures = []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrNotExist, errSlice{"no", "way"}}

// errSlice is an error that can't be compared.
type errSlice []string

func (e errSlice) Error() string { return e[0] + " " + e[1] }

func (e errSlice) Is(err error) bool { _, ok := err.(errSlice); return ok }

// scripted is the strategy: it records every call.
type scripted struct {
	c       stepCase
	idx     map[*nn.Param]int
	mu      sync.Mutex
	calls   map[int]int
	running atomic.Int64
	total   atomic.Int64
	errs    map[int]error
	failing func(i int) bool
}

// OptimizeParams adds one to every element, after the scripted delay.
func (s *scripted) OptimizeParams(p *nn.Param) error {
	s.running.Add(1)
	defer s.running.Add(-1)
	s.total.Add(1)
	s.mu.Lock()
	i, ok := s.idx[p]
	if !ok {
		i = -1
	}
	s.calls[i]++
	s.mu.Unlock()
	switch d := s.c.Delay[max(i, 0)%len(s.c.Delay)]; {
	case d == 1:
		for k := 0; k < 3; k++ {
			runtime.Gosched()
		}
	case d > 1:
		time.Sleep(time.Duration(d) * 10 * time.Microsecond)
	}
	if s.failing(i) {
		return s.errs[i]
	}
	p.State = s // as the real strategies do
	p.AddScalarInPlace(1)
	p.ZeroGrad()
	return nil
}

func genStep(t *rapid.T) stepCase {
	c := stepCase{N: gen.U(t, 12), Source: gen.U(t, 5), Procs: gen.Pick(t, 8, 1, 2, 4), Rounds: gen.UInt(t, 1, 3), Err: gen.Pick(t, 0, 0, 0, 1, 2, 3, 4, 5)}
	if gen.Chance(t, 35) {
		c.N = gen.U(t, 150)
	}
	if gen.Large(t) {
		c.N = gen.UInt(t, 150, 1200)
	}
	c.Grad = gen.List(t, 1, 5, func(t *rapid.T) int { return gen.Pick(t, 1, 1, 0) })
	c.Delay = gen.List(t, 1, 7, func(t *rapid.T) int { return gen.Pick(t, 0, 1, 1, 2, 20, 5) })
	c.Frozen = []int{0}
	if gen.Chance(t, 20) {
		c.Frozen = gen.List(t, 1, 5, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 1) })
	}
	c.Fail = []int{0}
	if gen.Chance(t, 60) {
		c.Fail = gen.List(t, 1, 9, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 1) })
		c.LastN = gen.Chance(t, 35)
	}
	return c
}

// tied is a model in which parameters are reachable several times.
type tied struct {
	nn.Module
	A, B, C nn.Model
	Ps      []*nn.Param
}

func evalStep(ctx *eng.Ctx, c stepCase) error {
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	s := &scripted{c: c, idx: map[*nn.Param]int{}, errs: map[int]error{}}
	var ps []*nn.Param
	n := c.N
	if c.Source == 1 || c.Source == 2 {
		n += n % 2 // layers hold two
	}
	for i := 0; i < n; i++ {
		p := nn.NewParam(mat.NewDense[float64](mat.WithShape(1, 2)))
		ps = append(ps, p)
		s.idx[p] = i
		s.errs[i] = fmt.Errorf("failure of parameter %d", i)
		if e := failures[mod(c.Err, len(failures))]; e != nil && i%3 < 2 {
			s.errs[i] = e
		} else if e != nil {
			s.errs[i] = fmt.Errorf("failure of parameter %d: %w", i, e)
		}
	}
	hasGrad := func(i int) bool { return c.Grad[i%len(c.Grad)] > 0 }
	last := -1
	for i := range ps {
		if hasGrad(i) && c.Fail[i%len(c.Fail)] > 0 {
			last = i
		}
	}
	s.failing = func(i int) bool {
		if c.LastN {
			return i == last
		}
		return i >= 0 && c.Fail[i%len(c.Fail)] > 0
	}
	var params nn.ParamChannelFunc
	srcDone := make(chan struct{}, c.Rounds+1)
	switch c.Source {
	case 0:
		params = nn.StreamParams(ps)
	case 1, 2:
		m := &tied{}
		st := &Stack{}
		for i := 0; i+1 < n; i += 2 {
			l := linear.New[float64](1, 1)
			l.W, l.B = ps[i], ps[i+1]
			st.Layers = append(st.Layers, l)
		}
		m.A = st
		if c.Source == 2 {
			m.B, m.C, m.Ps = st, st, ps
		}
		params = nn.Parameters(m)
	default:
		params = func(cx context.Context) <-chan *nn.Param {
			ch := make(chan *nn.Param, (c.Source-3)*3)
			go func() {
				defer func() { close(ch); srcDone <- struct{}{} }()
				for i, p := range ps {
					if i%5 == 4 {
						runtime.Gosched()
					}
					select {
					case <-cx.Done():
						return
					case ch <- p:
					}
				}
			}()
			return ch
		}
	}
	o := optimizers.New(params, s)
	for r := 0; r < c.Rounds; r++ {
		s.calls = map[int]int{}
		s.total.Store(0)
		anyGrad := false
		before := make([]float64, n)
		for i, p := range ps {
			p.ZeroGrad()
			p.SetRequiresGrad(true)
			if hasGrad(i) {
				anyGrad = true
				p.AccGrad(mat.NewDense[float64](mat.WithShape(1, 2), mat.WithBacking([]float64{1, 2})))
			}
			if len(c.Frozen) > 0 && c.Frozen[i%len(c.Frozen)] > 0 {
				p.SetRequiresGrad(false) // a gradient it has already is still applied
			}
			before[i] = vals(p)[0]
		}
		type result struct {
			err error
			p   any
		}
		done := make(chan result, 1)
		go func() {
			var res result
			res.p = catch(func() { res.err = o.Optimize() })
			// state at the moment of return
			if k := s.running.Load(); k != 0 && res.p == nil {
				res.p = fmt.Sprintf("%d updates are still running when Optimize returns", k)
			}
			done <- res
		}()
		var res result
		select {
		case res = <-done:
		case <-time.After(60 * time.Second):
			return errf("round %d: Optimize does not return", r)
		}
		if res.p != nil {
			return errf("round %d: %v", r, res.p)
		}
		total := s.total.Load()
		err := res.err
		expect := last >= 0
		if expect && err == nil {
			return errf("round %d: parameter %d failed but Optimize returned no error", r, last)
		}
		if !expect && err != nil {
			return errf("round %d: unexpected error %v", r, err)
		}
		if err != nil {
			known := false
			for i := range ps {
				if errors.Is(err, s.errs[i]) && s.calls[i] > 0 && s.failing(i) {
					known = true
				}
			}
			if !known {
				return errf("round %d: the error %q is not one of a failed parameter", r, err)
			}
		}
		if s.calls[-1] > 0 {
			return errf("round %d: a parameter that does not belong to the model was updated", r)
		}
		for i, p := range ps {
			k := s.calls[i]
			switch {
			case !hasGrad(i) && k > 0:
				return errf("round %d: parameter %d of %d has no gradient but was updated", r, i, n)
			case hasGrad(i) && k > 1:
				return errf("round %d: parameter %d of %d was updated %d times", r, i, n, k)
			case hasGrad(i) && err == nil && k != 1:
				return errf("round %d: parameter %d of %d was updated %d times", r, i, n, k)
			}
			d := 0.0
			if k == 1 && !s.failing(i) {
				d = 1
			}
			if v := vals(p)[0] - before[i]; v != d {
				return errf("round %d: parameter %d of %d changed by %v, want %v", r, i, n, v, d)
			}
			if wg := hasGrad(i) && d == 0; p.HasGrad() != wg {
				return errf("round %d: parameter %d of %d: HasGrad is %v", r, i, n, p.HasGrad())
			}
		}
		runtime.Gosched()
		if t2 := s.total.Load(); t2 != total {
			return errf("round %d: %d updates were started after Optimize had returned", r, t2-total)
		}
		ctx.NTIf(anyGrad && n > 1)
		if expect {
			ctx.Label("fails")
		}
		if c.Source >= 3 {
			select {
			case <-srcDone:
			case <-time.After(60 * time.Second):
				return errf("round %d: the stream of parameters is neither drained nor cancelled", r)
			}
		}
	}
	return nil
}

func init() {
	rule := "at least two parameters and one with a gradient"
	eng.Register("C13", "step", rule, 6000, 120000, genStep, evalStep)
	eng.Register("C13", "race", rule, 800, 8000, genStep, evalStep, eng.Race())
}
