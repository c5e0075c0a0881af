package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// A lifecycle history works on shared leaves, graphs and gradients.
type lifeCase struct {
	DT     int
	Leaves []progLeaf
	Steps  []lifeStep
	Gy     []F
}

type lifeStep struct {
	Op     string // graph, acc, zero, zeroall, again, presetmid
	Ins    []instr
	Roots  []rootPick
	Reject bool // call Backward first without the gradient of non-scalar outputs
	Poke   int  // what to do to the nodes after the rejection
	K      int
	DT     int // element type of an accumulated gradient
	M      []F
}

type lifeModel struct {
	dt     int
	leaves []mat.Tensor
	sum    [][]float64
	abs    [][]float64
	has    []int // 0 no, 1 maybe (zero), 2 yes
	shape  []gen.Mat
}

func (m *lifeModel) add(i, k int, v, a float64) {
	m.sum[i][k] += v
	m.abs[i][k] += math.Abs(v) + a
}

func (m *lifeModel) zero(i int) {
	for k := range m.sum[i] {
		m.sum[i][k], m.abs[i][k] = 0, 0
	}
	m.has[i] = 0
}

func (m *lifeModel) check(what string) error {
	for i, l := range m.leaves {
		if v, ok := l.Value().(mat.Matrix); ok {
			for k, r := range []mat.Matrix{v.Clone(), v.ZerosLike(), v.T(), v.Flatten(), v.AddScalar(1)} {
				if r.HasGrad() || r.RequiresGrad() || r.Grad() != nil {
					return errf("%s: leaf %d: a new matrix made from it (%d: Clone, ZerosLike, T, Flatten, AddScalar) has or requires gradients of its own", what, i, k)
				}
			}
		}
		if m.has[i] == 0 {
			if l.HasGrad() {
				return errf("%s: leaf %d has a gradient although it was zeroed or never received one", what, i)
			}
			if g := l.Grad(); g != nil {
				return errf("%s: leaf %d: Grad() is not nil without gradient (%T)", what, i, g)
			}
			continue
		}
		if !l.HasGrad() {
			if m.has[i] == 2 {
				return errf("%s: leaf %d lost its gradient", what, i)
			}
			continue
		}
		g := l.Grad()
		if dtOf(g) != m.dt {
			return errf("%s: leaf %d: gradient of %d bits, want %d", what, i, dtOf(g), m.dt)
		}
		if !shapeIs(g, m.shape[i].R, m.shape[i].C) {
			return errf("%s: leaf %d: gradient shape %v, want [%d %d]", what, i, g.Shape(), m.shape[i].R, m.shape[i].C)
		}
		for k, v := range vals(g) {
			if !(math.Abs(v-m.sum[i][k]) <= 5*gradTol(m.dt)*(1e-3+m.abs[i][k])) {
				return errf("%s: leaf %d: accumulated gradient element %d is %v, want %v", what, i, k, v, m.sum[i][k])
			}
		}
	}
	return nil
}

func evalLife(ctx *eng.Ctx, cs lifeCase) error {
	if len(cs.Leaves) == 0 {
		return nil
	}
	m := &lifeModel{dt: cs.DT, leaves: prog{Leaves: cs.Leaves}.leaves(cs.DT), has: make([]int, len(cs.Leaves))}
	for _, l := range cs.Leaves {
		m.sum = append(m.sum, make([]float64, len(l.M.D)))
		m.abs = append(m.abs, make([]float64, len(l.M.D)))
		m.shape = append(m.shape, l.M)
	}
	zeroable := func(i int) bool { return cs.Leaves[i].Req != 3 }
	graphs, rejected, mixed, zeros := 0, 0, 0, 0
	for n, st := range cs.Steps {
		what := errf("step %d (%s)", n, st.Op).Error()
		switch st.Op {
		case "zero":
			i := mod(st.K, len(m.leaves))
			m.leaves[i].ZeroGrad()
			m.zero(i)
			zeros++
		case "zeroall":
			for i := range m.leaves {
				m.leaves[i].ZeroGrad()
				m.zero(i)
			}
			zeros++
		case "acc":
			i := mod(st.K, len(m.leaves))
			if !zeroable(i) || len(st.M) == 0 {
				continue
			}
			g := gyOf(st.DT, m.shape[i].R, m.shape[i].C, st.M, n)
			gm := mk(st.DT, g, false)
			s := snapOf(gm)
			m.leaves[i].AccGrad(gm)
			if err := s.same(gm); err != nil {
				return errf("%s: AccGrad changed the tensor passed in: %v", what, err)
			}
			for k := range g.D {
				m.add(i, k, roundTo(cs.DT, float64(g.D[k])), 0)
			}
			m.has[i] = 2
			// the caller reuses its tensor
			gm.ProdScalarInPlace(-7)
			gm.AddScalarInPlace(3)
			if st.DT != cs.DT {
				mixed++
			}
			if err := m.check(what + ", after reusing the tensor passed to AccGrad"); err != nil {
				return err
			}
			// a later accumulation must not write into the caller's tensor
			s = snapOf(gm)
			m.leaves[i].AccGrad(mk(st.DT, g, false))
			for k := range g.D {
				m.add(i, k, roundTo(cs.DT, float64(g.D[k])), 0)
			}
			if err := s.same(gm); err != nil {
				return errf("%s: a later AccGrad changed a tensor accumulated before: %v", what, err)
			}
		case "graph":
			p := makePlan(prog{Leaves: cs.Leaves, Ins: st.Ins}, cs.DT)
			roots, preset := rootsOf(p, st.Roots)
			if len(roots) == 0 || p.tp.Kink < 2e-3 || !moderate(p) {
				continue
			}
			nodes := p.forward(m.leaves)
			var plain []mat.Tensor
			bad := false
			for k, r := range roots {
				plain = append(plain, nodes[r])
				if preset[k] && len(p.nodes[r].D) > 1 {
					bad = true
				}
			}
			if st.Reject && bad {
				rejected++
				err := ag.Backward(plain...)
				if err == nil {
					return errf("%s: Backward of a non-scalar output without gradient returned no error", what)
				}
				if err := m.check(what + ", after the rejected Backward"); err != nil {
					return err
				}
				for i := p.nLeaf; i < len(nodes); i++ {
					if st.Poke&1 != 0 {
						if nodes[i].HasGrad() {
							return errf("%s: node %d has a gradient after the rejected Backward", what, i)
						}
						if g := nodes[i].Grad(); g != nil {
							return errf("%s: node %d: Grad() is not nil after the rejected Backward", what, i)
						}
					}
					if st.Poke&2 != 0 {
						nodes[i].ZeroGrad()
					}
				}
				if st.Poke&4 != 0 {
					if err := ag.Backward(plain...); err == nil {
						return errf("%s: repeated Backward without gradient returned no error", what)
					}
				}
			}
			rounds := 1
			if st.K%3 == 1 {
				rounds = 2
			}
			for round := 0; round < rounds; round++ {
				outs, seeds, ts := seedRoots(cs.DT, p, nodes, roots, preset, cs.Gy)
				mid := -1
				if st.K%2 == 1 {
					// a gradient preset on an intermediate result adds to it
					for i := p.nLeaf; i < len(nodes); i++ {
						isRoot := false
						for _, r := range roots {
							isRoot = isRoot || r == i
						}
						if p.isOp[i] && p.req[i] && !isRoot && p.reach(roots)[i] {
							mid = i
						}
					}
					if mid >= 0 {
						g := gyOf(cs.DT, p.nodes[mid].R, p.nodes[mid].C, cs.Gy, 5)
						nodes[mid].AccGrad(mk(cs.DT, g, false))
						for k, v := range p.nodes[mid].D {
							outs, seeds = append(outs, v), append(seeds, float64(g.D[k]))
						}
						ctx.Label("preset-intermediate")
					}
				}
				if err := ag.Backward(ts...); err != nil {
					return errf("%s: Backward: %v", what, err)
				}
				gr := p.tp.Backward(outs, seeds)
				reach := p.reach(roots)
				for i := range m.leaves {
					if !reach[i] {
						continue
					}
					if m.has[i] == 0 {
						m.has[i] = 1
					}
					for k, v := range p.nodes[i].D {
						m.add(i, k, gr.Of(v), gr.AbsOf(v))
						if math.Abs(gr.Of(v)) > 1e-6 {
							m.has[i] = 2
						}
					}
				}
				if err := checkNodes(cs.DT, p, nodes, roots, gr); err != nil {
					return errf("%s: %v", what, err)
				}
				// the same graph can be used again once its gradients are zeroed
				for i := p.nLeaf; i < len(nodes); i++ {
					zeroOps(nodes[i])
					if nodes[i].HasGrad() {
						return errf("%s: node %d has a gradient after ZeroGrad", what, i)
					}
					if nodes[i].Grad() != nil {
						return errf("%s: node %d: Grad() is not nil after ZeroGrad", what, i)
					}
				}
				if round > 0 {
					ctx.Label("graph-reused")
				}
			}
			graphs++
		}
		if err := m.check(what); err != nil {
			return err
		}
	}
	ctx.NTIf(graphs >= 2 || rejected > 0)
	if rejected > 0 {
		ctx.Label("rejected-backward")
	}
	if mixed > 0 {
		ctx.Label("mixed-types")
	}
	if zeros > 0 && graphs > 0 {
		ctx.Label("zeroed")
	}
	if graphs >= 2 {
		ctx.Label("several-graphs")
	}
	return nil
}

// checkNodes compares the gradients of the non-leaf nodes.
func checkNodes(dt int, p *plan, nodes []mat.Tensor, roots []int, gr *ref.Grads) error {
	reach := p.reach(roots)
	for i := p.nLeaf; i < len(nodes); i++ {
		if !reach[i] {
			if nodes[i].HasGrad() {
				return errf("node %d is not reached by any gradient but has one", i)
			}
			continue
		}
		if err := expectGrad(errf("node %d (%s)", i, p.steps[i-p.nLeaf].op).Error(), nodes[i], dt, p.nodes[i], gr, gradTol(dt)*5); err != nil {
			return err
		}
	}
	return nil
}

// zeroOps zeroes the gradients of an operator and of those it is built on,
// including the hidden ones of composed functions.
func zeroOps(t mat.Tensor) {
	if o, ok := t.(*ag.Operator); ok {
		o.ZeroGrad()
		for _, x := range o.Operands() {
			zeroOps(x)
		}
	}
}

// plain outputs that require no gradients at all
type constRootCase struct {
	DT     int
	M      gen.Mat
	Preset bool
	With   bool // together with a requiring scalar output
}

func evalConstRoot(ctx *eng.Ctx, cs constRootCase) error {
	c := mk(cs.DT, cs.M.Round(cs.DT), false)
	y := ag.Tanh(c)
	x := mk(cs.DT, gen.Mat{R: 1, C: 1, D: []F{2}}, true)
	z := ag.Square(x)
	if y.RequiresGrad() {
		return errf("operator over a constant requires gradients")
	}
	scalar := len(cs.M.D) == 1
	if cs.Preset {
		y.AccGrad(mk(cs.DT, cs.M.Round(cs.DT), false))
	}
	rs := []mat.Tensor{y}
	if cs.With {
		rs = append(rs, z)
	}
	err := ag.Backward(rs...)
	if err != nil && (scalar || cs.Preset) {
		return errf("Backward: %v", err)
	}
	if c.HasGrad() {
		return errf("a constant received a gradient")
	}
	if err == nil && cs.With {
		if !x.HasGrad() || vals(x.Grad())[0] != 4 {
			return errf("gradient of the requiring output's leaf is %v, want 4", x.Grad())
		}
	}
	if err != nil && x.HasGrad() {
		return errf("a rejected Backward propagated gradients")
	}
	if err != nil && cs.With {
		if err := ag.Backward(z); err != nil {
			return errf("Backward after rejection: %v", err)
		}
		if !x.HasGrad() || vals(x.Grad())[0] != 4 {
			return errf("gradient after a rejected and an accepted Backward is %v, want 4", x.Grad())
		}
	}
	// values remain readable and the nodes usable
	y.ZeroGrad()
	y.HasGrad()
	ctx.NTIf(cs.With)
	return nil
}

func init() {
	eng.Register("C08", "history",
		"history over shared leaves with at least two differentiated graphs or a rejected Backward, followed by recovery",
		150000, 4000000,
		func(t *rapid.T) lifeCase {
			cs := lifeCase{DT: gen.Pick(t, 64, 64, 32), Leaves: genProg(t, 1).Leaves}
			cs.Steps = gen.List(t, 1, 8, func(t *rapid.T) lifeStep {
				st := lifeStep{Op: gen.Pick(t, "graph", "graph", "graph", "acc", "zero", "graph", "zeroall", "acc"), K: gen.U(t, 12), DT: gen.DT(t)}
				switch st.Op {
				case "graph":
					st.Ins = genProg(t, 7).Ins
					st.Roots = gen.List(t, 1, 3, func(t *rapid.T) rootPick { return rootPick{N: gen.U(t, 5), Preset: gen.Bool(t)} })
					st.Reject, st.Poke = gen.Bool(t), gen.U(t, 8)
				case "acc":
					st.M = gen.List(t, 1, 5, func(t *rapid.T) F { return F(gen.Val(t)) })
				}
				return st
			})
			for i := 0; i < 7; i++ {
				cs.Gy = append(cs.Gy, F(gen.Spread(t, -2, 2)))
			}
			return cs
		}, evalLife)
	eng.Register("C08", "constant-outputs", "an output that requires no gradients is differentiated together with one that does", 4000, 60000,
		func(t *rapid.T) constRootCase {
			r, c := shape2(t, &opCase{})
			return constRootCase{DT: gen.DT(t), M: gen.GenericMat(t, r, c, 2), Preset: gen.Bool(t), With: gen.Bool(t)}
		}, evalConstRoot)
}
