package props

import (
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// linStep is one step of a history of linear graphs over tensors of any size.
// All values are small integers: everything is exact.
type linStep struct {
	Op   int
	A, B int
	K    int
	DT   int
}

type linCase struct {
	DT    int
	R, C  int
	Kinds []int // leaves: 0 matrix, 1 parameter
	Seed  uint64
	Steps []linStep
}

func evalLin(ctx *eng.Ctx, c linCase) error {
	n := c.R * c.C
	draw := func(obj int) gen.Mat {
		m := gen.Mat{R: c.R, C: c.C, D: make([]F, n)}
		for i := range m.D {
			m.D[i] = F(int(hval(c.Seed, obj, i) * 9))
		}
		return m
	}
	var leaves []mat.Tensor
	var want [][]float64
	for i, k := range c.Kinds {
		var l mat.Tensor = mk(c.DT, draw(i), true)
		if k == 1 {
			l = nn.NewParam(l.(mat.Matrix))
		}
		leaves = append(leaves, l)
		want = append(want, nil)
	}
	acc := func(i int, g gen.Mat, k float64) {
		if want[i] == nil {
			want[i] = make([]float64, n)
		}
		for j := range g.D {
			want[i][j] += k * float64(g.D[j])
		}
	}
	// every tensor handed to AccGrad, with what it must keep holding
	type given struct {
		m mat.Matrix
		s snap
	}
	var gs []given
	give := func(dt, obj int) (mat.Matrix, gen.Mat) {
		g := draw(obj)
		m := mk(dt, g, false)
		gs = append(gs, given{m, snapOf(m)})
		return m, g
	}
	graphs, turned := 0, false
	for k, st := range c.Steps {
		a, b := mod(st.A, len(leaves)), mod(st.B, len(leaves))
		what := errf("step %d", k).Error()
		switch st.Op {
		case 0: // direct accumulation
			m, g := give(st.DT, 50+k)
			if (c.R == 1 || c.C == 1) && st.K%4 == 3 { // a vector fits in either orientation
				turned = true
				m.ReshapeInPlace(c.C, c.R)
				gs[len(gs)-1].s = snapOf(m)
			}
			leaves[a].AccGrad(m)
			acc(a, g, 1)
		case 1: // the same tensor given to two leaves
			m, g := give(st.DT, 50+k)
			leaves[a].AccGrad(m)
			leaves[b].AccGrad(m)
			acc(a, g, 1)
			acc(b, g, 1)
		case 7: // a leaf is given its own gradient
			if want[a] != nil {
				leaves[a].AccGrad(leaves[a].Grad())
				for j := range want[a] {
					want[a][j] *= 2
				}
			}
		case 2:
			leaves[a].ZeroGrad()
			want[a] = nil
		case 3: // what was handed in may be reused by its owner
			if len(gs) > 0 {
				i := mod(st.K, len(gs))
				gs[i].m.ProdScalarInPlace(-3)
				gs[i].s = snapOf(gs[i].m)
			}
		default: // a graph of linear operators, differentiated with a preset gradient
			x, y := leaves[a], leaves[b]
			ga, gb := 1.0, 1.0
			var o mat.Tensor
			switch st.K % 6 {
			case 0:
				o = ag.Add(x, y)
			case 1:
				o, gb = ag.Sub(x, y), -1
			case 2:
				o = ag.Add(x, ag.Add(y, x))
				ga = 2
			case 3:
				o, gb = ag.Add(ag.Copy(x), ag.Neg(y)), -1
			case 4:
				o = ag.Sum(x, y, x)
				ga = 2
			default:
				o = ag.AddScalar(ag.Add(x, y), x.Value().(mat.Matrix).NewScalar(2))
			}
			m, g := give(c.DT, 50+k)
			o.AccGrad(m)
			if st.DT == 32 { // in two contributions
				m2, g2 := give(c.DT, 100+k)
				o.AccGrad(m2)
				acc(a, g2, ga)
				acc(b, g2, gb)
			}
			if err := ag.Backward(o); err != nil {
				return errf("%s: Backward: %v", what, err)
			}
			acc(a, g, ga)
			acc(b, g, gb)
			graphs++
		}
		for i, g := range gs {
			if err := g.s.same(g.m); err != nil {
				return errf("%s: the %d-th tensor passed to AccGrad changed: %v", what, i, err)
			}
		}
		for i, l := range leaves {
			if l.HasGrad() != (want[i] != nil) {
				return errf("%s: leaf %d: HasGrad is %v", what, i, l.HasGrad())
			}
			if want[i] == nil {
				continue
			}
			if !shapeIs(l.Grad(), c.R, c.C) && !(turned && shapeIs(l.Grad(), c.C, c.R)) {
				return errf("%s: leaf %d: gradient of shape %v", what, i, l.Grad().Shape())
			}
			for j, v := range vals(l.Grad()) {
				if v != want[i][j] {
					return errf("%s: leaf %d: gradient element %d is %v, want %v", what, i, j, v, want[i][j])
				}
			}
			for j, v := range vals(l.Value()) {
				if v != float64(draw(i).D[j]) {
					return errf("%s: leaf %d: element %d became %v", what, i, j, v)
				}
			}
		}
	}
	ctx.NTIf(graphs > 0 && len(c.Steps) > 1)
	return nil
}

func init() {
	eng.Register("C08", "linear",
		"history of accumulations and linear graphs over tensors of 1 to 400 elements, exact: every leaf's gradient and every tensor handed in after every step; non-trivial with a graph and another step",
		15000, 300000,
		func(t *rapid.T) linCase {
			c := linCase{DT: gen.DT(t), R: gen.Ext(t, 1, 6, 130), C: 1, Seed: uint64(gen.U(t, 1<<30))}
			if gen.Bool(t) {
				c.R, c.C = gen.Ext(t, 1, 4, 20), gen.Ext(t, 1, 4, 20)
			}
			if gen.Chance(t, 25) {
				c.R = gen.UInt(t, 10, 200/c.C+10)
			}
			c.Kinds = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.U(t, 2) })
			c.Steps = gen.List(t, 1, 8, func(t *rapid.T) linStep {
				return linStep{Op: gen.U(t, 8), A: gen.U(t, 4), B: gen.U(t, 4), K: gen.U(t, 12), DT: gen.DT(t)}
			})
			return c
		}, evalLin)
}
