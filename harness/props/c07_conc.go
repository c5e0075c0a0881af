package props

import (
	"math"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// delayFn is the identity with scheduling noise before each pass.
type delayFn struct {
	x mat.Tensor
	n int
}

func noise(n int) {
	switch {
	case n <= 0:
	case n > 12:
		time.Sleep(time.Duration(n-12) * 20 * time.Microsecond)
	default:
		for ; n > 0; n-- {
			runtime.Gosched()
		}
	}
}

func (d *delayFn) Forward() (mat.Tensor, error) {
	noise(d.n)
	return d.x.Value().(mat.Matrix).Clone(), nil
}

func (d *delayFn) Backward(gy mat.Tensor) error {
	noise(d.n)
	if d.x.RequiresGrad() {
		d.x.AccGrad(gy)
	}
	return nil
}

func (d *delayFn) Operands() []mat.Tensor { return []mat.Tensor{d.x} }

// runStep executes one step, followed by a delay operator if asked.
func (p *plan) runStep(k int, nodes []mat.Tensor, delays []int) mat.Tensor {
	s := p.steps[k]
	xs := make([]mat.Tensor, len(s.args))
	for i, a := range s.args {
		xs[i] = nodes[a]
	}
	y := progOps[s.op].real(xs, s.i)
	if len(delays) > 0 && s.op != "Stop" {
		switch d := delays[k%len(delays)]; {
		case d > 0:
			y = ag.NewOperator(&delayFn{y, d}).Run(true)
		case d < 0:
			y = ag.NewOperator(&delayFn{y, -d}).Run()
		}
	}
	return y
}

// forwardDelayed builds the graph with delay operators mixed in.
func (p *plan) forwardDelayed(leaves []mat.Tensor, delays []int) []mat.Tensor {
	nodes := append([]mat.Tensor(nil), leaves...)
	for k := range p.steps {
		nodes = append(nodes, p.runStep(k, nodes, delays))
	}
	return nodes
}

// forwardParallel builds every node in its own goroutine as soon as its
// operands exist.
func (p *plan) forwardParallel(leaves []mat.Tensor, delays []int) []mat.Tensor {
	nodes := make([]mat.Tensor, len(p.nodes))
	copy(nodes, leaves)
	done := make([]chan struct{}, len(p.nodes))
	for i := range done {
		done[i] = make(chan struct{})
		if i < p.nLeaf {
			close(done[i])
		}
	}
	var wg sync.WaitGroup
	for k := range p.steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, a := range p.steps[k].args {
				<-done[a]
			}
			y := p.runStep(k, nodes, delays)
			nodes[p.nLeaf+k] = y
			close(done[p.nLeaf+k])
			noise(1)
			y.RequiresGrad()
			y.Value()
		}()
	}
	wg.Wait()
	return nodes
}

type concCase struct {
	G      graphCase
	Delays []int
	Procs  int
	Par    bool
}

func moderate(p *plan) bool {
	for _, n := range p.nodes {
		for _, v := range n.D {
			if math.IsNaN(v.X()) || math.Abs(v.X()) > 1e6 {
				return false
			}
		}
	}
	return true
}

func evalConc(ctx *eng.Ctx, cs concCase) error {
	g := cs.G
	p := makePlan(g.P, g.DT)
	roots, preset := rootsOf(p, g.Roots)
	if len(roots) == 0 {
		return nil
	}
	// sequential reference run on the library itself
	ag.SetForceSyncExecution(true)
	l0 := g.P.leaves(g.DT)
	n0 := p.forward(l0)
	ag.SetForceSyncExecution(false)
	outs, seeds, ts := seedRoots(g.DT, p, n0, roots, preset, g.Gy)
	if err := ag.Backward(ts...); err != nil {
		return errf("sequential Backward: %v", err)
	}
	gr := p.tp.Backward(outs, seeds)
	compare := p.tp.Kink > 2e-3 && moderate(p)

	old := runtime.GOMAXPROCS(max(1, cs.Procs))
	defer runtime.GOMAXPROCS(old)
	rounds := 2
	if ctx.Shrinking {
		rounds = 60
	}
	for r := 0; r < rounds; r++ {
		l1 := g.P.leaves(g.DT)
		var n1 []mat.Tensor
		if cs.Par {
			n1 = p.forwardParallel(l1, cs.Delays)
		} else {
			n1 = p.forwardDelayed(l1, cs.Delays)
		}
		for i := range n1 {
			if err := snapOf(n0[i].Value()).same(n1[i].Value()); err != nil {
				return errf("forward value of node %d differs from sequential execution: %v", i, err)
			}
		}
		_, _, ts := seedRoots(g.DT, p, n1, roots, preset, g.Gy)
		if err := ag.Backward(ts...); err != nil {
			return errf("concurrent Backward: %v", err)
		}
		if err := checkGrads(g.DT, p, n1, roots, gr, compare); err != nil {
			return errf("concurrent execution: %v", err)
		}
	}
	ctx.NTIf(compare && len(p.steps) >= 4)
	if cs.Par {
		ctx.Label("nodes-built-concurrently")
	}
	ctx.Label("procs-%d", cs.Procs)
	return nil
}

type sharedCase struct {
	DT     int
	Leaves []progLeaf
	Graphs []sharedGraph
	Gy     []F
	Procs  int
	Sync   bool
}

type sharedGraph struct {
	Ins    []instr
	Roots  []rootPick
	Delays []int
	Rounds int
}

func evalShared(ctx *eng.Ctx, cs sharedCase) error {
	if len(cs.Leaves) == 0 {
		return nil
	}
	type job struct {
		p      *plan
		roots  []int
		preset []bool
		g      sharedGraph
	}
	var jobs []job
	rounds := 1
	if ctx.Shrinking {
		rounds = 40
	}
	old := runtime.GOMAXPROCS(max(1, cs.Procs))
	defer runtime.GOMAXPROCS(old)
	total := make([][]float64, len(cs.Leaves))
	scale := make([][]float64, len(cs.Leaves))
	reached := make([]bool, len(cs.Leaves))
	for i, l := range cs.Leaves {
		total[i] = make([]float64, len(l.M.D))
		scale[i] = make([]float64, len(l.M.D))
	}
	compare := true
	for _, g := range cs.Graphs {
		p := makePlan(prog{Leaves: cs.Leaves, Ins: g.Ins}, cs.DT)
		roots, preset := rootsOf(p, g.Roots)
		if len(roots) == 0 {
			continue
		}
		g.Rounds = max(1, min(g.Rounds, 3))
		jobs = append(jobs, job{p, roots, preset, g})
		var outs []ref.V
		var seeds []float64
		for k, n := range roots {
			gy := gyOf(cs.DT, p.nodes[n].R, p.nodes[n].C, cs.Gy, k)
			if !preset[k] {
				gy.D[0] = 1
			}
			for i, v := range p.nodes[n].D {
				outs, seeds = append(outs, v), append(seeds, float64(gy.D[i]))
			}
		}
		gr := p.tp.Backward(outs, seeds)
		compare = compare && p.tp.Kink > 2e-3 && moderate(p)
		reach := p.reach(roots)
		for i := range cs.Leaves {
			reached[i] = reached[i] || reach[i]
			for k, v := range p.nodes[i].D {
				if reach[i] {
					total[i][k] += gr.Of(v) * float64(g.Rounds)
					scale[i][k] += gr.AbsOf(v) * float64(g.Rounds)
				}
			}
		}
	}
	if len(jobs) == 0 {
		return nil
	}
	ag.SetForceSyncExecution(cs.Sync)
	defer ag.SetForceSyncExecution(false)
	for r := 0; r < rounds; r++ {
		leaves := prog{Leaves: cs.Leaves}.leaves(cs.DT)
		start := make(chan struct{})
		errs := make([]error, len(jobs))
		var wg sync.WaitGroup
		for k, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < j.g.Rounds; n++ {
					nodes := j.p.forwardDelayed(leaves, j.g.Delays)
					_, _, ts := seedRoots(cs.DT, j.p, nodes, j.roots, j.preset, cs.Gy)
					if err := ag.Backward(ts...); err != nil {
						errs[k] = err
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return errf("Backward: %v", err)
			}
		}
		for i, l := range leaves {
			if !reached[i] {
				if l.HasGrad() {
					return errf("shared leaf %d received a gradient nothing contributes to", i)
				}
				continue
			}
			if !compare {
				continue
			}
			got := make([]float64, len(total[i])) // no gradient means zero
			if l.HasGrad() {
				got = vals(l.Grad())
			}
			for k, v := range got {
				if !(math.Abs(v-total[i][k]) <= gradTol(cs.DT)*5*(1e-3+scale[i][k])) {
					return errf("gradient of shared leaf %d, element %d: %v, want %v (sum of %d concurrent graphs)", i, k, v, total[i][k], len(jobs))
				}
			}
		}
	}
	ctx.NTIf(compare && len(jobs) >= 2)
	ctx.Label("graphs-%d", len(jobs))
	return nil
}

func genDelays(t *rapid.T) []int {
	return gen.List(t, 0, 6, func(t *rapid.T) int {
		if gen.Chance(t, 40) {
			return 0
		}
		v := gen.Pick(t, 1, 1, 2, 5, 12, 13, 15)
		if gen.Chance(t, 30) {
			return -v
		}
		return v
	})
}

// hammerCase: direct concurrent use of one tensor's gradient.
type hammerCase struct {
	DT, R, C int
	Workers  int
	N        int
	Kind     int // 0 matrix, 1 parameter, 2 operator
	Procs    int
}

func evalHammer(ctx *eng.Ctx, cs hammerCase) error {
	old := runtime.GOMAXPROCS(max(1, cs.Procs))
	defer runtime.GOMAXPROCS(old)
	z := gen.Mat{R: cs.R, C: cs.C, D: make([]F, cs.R*cs.C)}
	lf := prog{Leaves: []progLeaf{{M: z, Req: 1 + cs.Kind%2}}}.leaves(cs.DT)[0]
	x := lf
	if cs.Kind == 2 {
		x = ag.Copy(lf)
	}
	var wg sync.WaitGroup
	for w := 0; w < cs.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := gen.Mat{R: cs.R, C: cs.C, D: make([]F, cs.R*cs.C)}
			for i := range g.D {
				g.D[i] = F(w + 1 + i)
			}
			gm := mk(cs.DT, g, false)
			for k := 0; k < cs.N; k++ {
				x.AccGrad(gm)
				x.HasGrad()
				if k%3 == w%3 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	if !x.HasGrad() {
		return errf("no gradient after %d concurrent accumulations", cs.Workers*cs.N)
	}
	for i, v := range vals(x.Grad()) {
		want := float64(cs.N) * (float64(cs.Workers*(cs.Workers+1))/2 + float64(i*cs.Workers))
		if v != want {
			return errf("element %d of the gradient is %v after concurrent accumulation, want %v", i, v, want)
		}
	}
	ctx.NTIf(cs.Workers > 1)
	return nil
}

func init() {
	genConc := func(t *rapid.T) concCase {
		return concCase{G: genGraph(12)(t), Delays: genDelays(t), Procs: gen.Pick(t, 8, 1, 2, 4), Par: gen.Bool(t)}
	}
	genShared := func(t *rapid.T) sharedCase {
		b := genProg(t, 1)
		cs := sharedCase{DT: gen.Pick(t, 64, 32), Leaves: b.Leaves, Procs: gen.Pick(t, 8, 1, 2, 4), Sync: gen.Chance(t, 30)}
		cs.Graphs = gen.List(t, 1, 6, func(t *rapid.T) sharedGraph {
			return sharedGraph{Ins: genProg(t, 8).Ins, Delays: genDelays(t), Rounds: gen.UInt(t, 1, 3),
				Roots: gen.List(t, 1, 2, func(t *rapid.T) rootPick { return rootPick{N: gen.U(t, 4), Preset: gen.Bool(t)} })}
		})
		for i := 0; i < 7; i++ {
			cs.Gy = append(cs.Gy, F(gen.Spread(t, -2, 2)))
		}
		return cs
	}
	genHammer := func(t *rapid.T) hammerCase {
		return hammerCase{DT: gen.DT(t), R: gen.UInt(t, 1, 4), C: gen.UInt(t, 1, 40), Workers: gen.UInt(t, 1, 8), N: gen.UInt(t, 1, 30), Kind: gen.U(t, 3), Procs: gen.Pick(t, 8, 2, 4)}
	}
	const rs = "random graph of at least four operators run sequentially and then concurrently with delay operators, GOMAXPROCS 1-8 and one goroutine per node"
	eng.Register("C07", "schedules", rs, 12000, 500000, genConc, evalConc)
	eng.Register("C07", "schedules-race", rs+", under the race detector", 2500, 80000, genConc, evalConc, eng.Race())
	const rg = "at least two graphs evaluated and differentiated by concurrent goroutines over the same leaves"
	eng.Register("C07", "shared", rg, 12000, 500000, genShared, evalShared)
	eng.Register("C07", "shared-race", rg+", under the race detector", 2500, 80000, genShared, evalShared, eng.Race())
	eng.Register("C07", "accumulate", "at least two goroutines accumulating into one tensor", 3000, 100000, genHammer, evalHammer)
	eng.Register("C07", "accumulate-race", "at least two goroutines accumulating into one tensor, under the race detector", 600, 20000, genHammer, evalHammer, eng.Race())
}
