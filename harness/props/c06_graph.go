package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

type rootPick struct {
	N      int
	Preset bool
}

type graphCase struct {
	DT    int
	P     prog
	Roots []rootPick
	Extra bool // also pass leaves and non-requiring tensors to Backward
	Gy    []F
	Dup   int `json:",omitempty"` // >0: an output with a preset gradient is passed once more
}

// rootsOf resolves the picked outputs.
func rootsOf(p *plan, picks []rootPick) (roots []int, preset []bool) {
	outs := p.outputs()
	if len(outs) == 0 {
		return nil, nil
	}
	for _, r := range picks {
		n := outs[len(outs)-1-mod(r.N, len(outs))]
		dup := false
		for _, o := range roots {
			dup = dup || o == n
		}
		if dup {
			continue
		}
		roots = append(roots, n)
		preset = append(preset, r.Preset || len(p.nodes[n].D) > 1)
	}
	return
}

// seedRoots presets the output gradients and returns the reference seeds.
func seedRoots(dt int, p *plan, nodes []mat.Tensor, roots []int, preset []bool, gy []F) (outs []ref.V, seeds []float64, ts []mat.Tensor) {
	for k, n := range roots {
		m := p.nodes[n]
		g := gyOf(dt, m.R, m.C, gy, k)
		if preset[k] {
			nodes[n].AccGrad(mk(dt, g, false))
		} else {
			g.D[0] = 1
		}
		ts = append(ts, nodes[n])
		for i, v := range m.D {
			outs = append(outs, v)
			seeds = append(seeds, float64(g.D[i]))
		}
	}
	return
}

// checkGrads compares the gradients of every node with the reference.
func checkGrads(dt int, p *plan, nodes []mat.Tensor, roots []int, gr *ref.Grads, compare bool) error {
	reach := p.reach(roots)
	isRoot := map[int]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	for i, t := range nodes {
		what := "leaf"
		if i >= p.nLeaf {
			what = "node " + p.steps[i-p.nLeaf].op
		}
		if t.RequiresGrad() != p.req[i] {
			return errf("%s %d: RequiresGrad is %v, want %v", what, i, t.RequiresGrad(), p.req[i])
		}
		if !reach[i] {
			if t.HasGrad() {
				return errf("%s %d is not reached by any gradient (requires gradients: %v) but has one", what, i, p.req[i])
			}
			continue
		}
		if !compare {
			continue
		}
		if err := expectGrad(errf("%s %d", what, i).Error(), t, dt, p.nodes[i], gr, gradTol(dt)*5); err != nil {
			return err
		}
	}
	return nil
}

func evalGraph(ctx *eng.Ctx, cs graphCase) error {
	p := makePlan(cs.P, cs.DT)
	roots, preset := rootsOf(p, cs.Roots)
	leaves := cs.P.leaves(cs.DT)
	nodes := p.forward(leaves)
	for i, t := range nodes {
		if p.tp.Kink < 1e-5 {
			break // rounding may choose the other side of a jump
		}
		if err := expectRef(errf("node %d", i).Error(), t.Value(), cs.DT, p.nodes[i], 40); err != nil {
			return err
		}
	}
	if len(roots) == 0 {
		return nil
	}
	snaps := make([]snap, len(nodes))
	for i, t := range nodes {
		snaps[i] = snapOf(t.Value())
	}
	outs, seeds, ts := seedRoots(cs.DT, p, nodes, roots, preset, cs.Gy)
	if cs.Extra {
		for i := range leaves {
			ts = append(ts, leaves[i])
		}
	}
	if k := cs.Dup - 1; k >= 0 && preset[k%len(roots)] {
		ts = append(ts[:k%len(roots):k%len(roots)], append([]mat.Tensor{nodes[roots[k%len(roots)]]}, ts[k%len(roots):]...)...)
		ctx.Label("repeated-output")
	}
	if err := ag.Backward(ts...); err != nil {
		return errf("Backward: %v", err)
	}
	for i, t := range nodes {
		if err := snaps[i].same(t.Value()); err != nil {
			return errf("Backward changed the value of node %d: %v", i, err)
		}
	}
	gr := p.tp.Backward(outs, seeds)
	compare := p.tp.Kink > 2e-3
	for _, v := range outs {
		if math.Abs(v.X()) > 1e8 {
			compare = false
		}
	}
	shared, multi := false, len(roots) > 1
	uses := make([]int, len(p.nodes))
	for _, s := range p.steps {
		for _, a := range s.args {
			uses[a]++
			if uses[a] > 1 && p.isOp[a] && p.req[a] {
				shared = true
			}
		}
	}
	ctx.NTIf(compare && len(p.steps) >= 3 && (shared || multi))
	if shared {
		ctx.Label("shared-intermediate")
	}
	if multi {
		ctx.Label("several-outputs")
	}
	for _, s := range p.steps {
		if s.op == "Stop" {
			ctx.Label("gradient-stop")
			break
		}
	}
	reach := p.reach(nil)
	_ = reach
	for _, r := range roots {
		for _, q := range roots {
			if q != r && p.reach([]int{q})[r] {
				ctx.Label("output-is-ancestor-of-output")
			}
		}
	}
	return checkGrads(cs.DT, p, nodes, roots, gr, compare)
}

func genGraph(maxIns int) func(t *rapid.T) graphCase {
	return func(t *rapid.T) graphCase {
		cs := graphCase{DT: gen.Pick(t, 64, 64, 32), P: genProg(t, maxIns), Extra: gen.Chance(t, 20)}
		cs.Roots = gen.List(t, 1, 4, func(t *rapid.T) rootPick {
			return rootPick{N: gen.Pick(t, 0, 0, 1, 2, 3, 5, 8, 11), Preset: gen.Bool(t)}
		})
		if gen.Chance(t, 4) {
			cs.Dup = gen.UInt(t, 1, 4)
		}
		for i := 0; i < 7; i++ {
			g := gen.Spread(t, -2, 2)
			if gen.Chance(t, 10) {
				g = 0
			}
			cs.Gy = append(cs.Gy, F(g))
		}
		return cs
	}
}

func init() {
	eng.Register("C06", "graph",
		"random graph with at least three operators in which an intermediate result is used more than once or several outputs are differentiated, away from non-differentiable points",
		240000, 6000000, genGraph(14), evalGraph)
	eng.Register("C06", "deepgraph",
		"as graph, with up to 60 (now and then 300) operators",
		30000, 800000, func(t *rapid.T) graphCase {
			if gen.Large(t) {
				return genGraph(300)(t)
			}
			return genGraph(60)(t)
		}, evalGraph)
}
