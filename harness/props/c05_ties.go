package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// tieCase takes extrema of operands with many equal values.
type tieCase struct {
	Op   string
	DT   int
	R, C int
	N    int   // operands
	V    []int // the values, used cyclically
	Al   []int // operand i is leaf Al[i%len] mod (number of leaves)
	Req  []int // per leaf: 0 constant, 1 leaf, 2 result of an operator
	WR   int
	WC   int
	Inf  int // >0: this value stands for -Inf
	Gy   []F
}

var tieOps = []string{"Max", "Min", "Maximum", "Minimum", "ReduceMax", "ScalarMax", "MaxPooling"}

func genTie(t *rapid.T) tieCase {
	c := tieCase{Op: gen.Pick(t, tieOps...), DT: gen.DT(t), R: gen.UInt(t, 1, 5), C: gen.UInt(t, 1, 5), N: gen.UInt(t, 1, 6), WR: gen.UInt(t, 1, 3), WC: gen.UInt(t, 1, 3)}
	hi := gen.Pick(t, 0, 1, 1, 2, 4)
	c.V = gen.List(t, 1, 16, func(t *rapid.T) int { return gen.UInt(t, -4, 4) % (hi + 1) })
	c.Al = gen.List(t, 1, 7, func(t *rapid.T) int { return gen.U(t, 7) })
	c.Req = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Pick(t, 1, 1, 2, 0) })
	if gen.Chance(t, 20) {
		c.Inf = 1
	}
	for i := 0; i < 5; i++ {
		c.Gy = append(c.Gy, F(gen.Pick(t, gen.Spread(t, -2, 2), 1, -1)))
	}
	return c
}

// evalTie checks that the gradients of an extremum are a subgradient: the
// variables that attain it share the output's gradient, and all the others
// receive none.
func evalTie(ctx *eng.Ctx, c tieCase) error {
	ctx.Label("%s", c.Op)
	r, cc, n := c.R, c.C, c.N
	switch c.Op {
	case "Max", "Min":
		n = 2
	case "ReduceMax":
		n, r = 1, r*cc
		cc = 1
		if c.N%2 == 0 {
			r, cc = cc, r
		}
	case "MaxPooling":
		n, r, cc = 1, r*c.WR, cc*c.WC
	case "ScalarMax":
		r, cc = 1, 1
	}
	var leaves []mat.Matrix
	var nodes []mat.Tensor
	var vs [][]float64
	k := 0
	for i := 0; i < n; i++ {
		m := gen.Mat{R: r, C: cc, D: make([]F, r*cc)}
		for j := range m.D {
			m.D[j] = F(c.V[k%len(c.V)])
			if c.Inf > 0 && c.V[k%len(c.V)] <= 0 {
				m.D[j] = F(math.Inf(-1))
			}
			k += 1 + k/len(c.V)%2
		}
		l := mk(c.DT, m, c.Req[i%len(c.Req)] > 0)
		leaves, vs = append(leaves, l), append(vs, m.Floats())
		nodes = append(nodes, l)
		if c.Req[i%len(c.Req)] == 2 {
			nodes[i] = ag.Copy(l)
		}
	}
	var xs []mat.Tensor
	var idx []int
	for i := 0; i < n; i++ {
		a := i
		if c.Al[i%len(c.Al)] > 3 {
			a = c.Al[i%len(c.Al)] % n
		}
		xs, idx = append(xs, nodes[a]), append(idx, a)
	}
	min := c.Op == "Min" || c.Op == "Minimum"
	var y mat.Tensor
	switch c.Op {
	case "Max":
		y = ag.Max(xs[0], xs[1])
	case "Min":
		y = ag.Min(xs[0], xs[1])
	case "Maximum":
		y = ag.Maximum(xs)
	case "Minimum":
		y = ag.Minimum(xs)
	case "ReduceMax":
		y = ag.ReduceMax(xs[0])
	case "ScalarMax":
		y = ag.ScalarMax(xs)
	case "MaxPooling":
		y = ag.MaxPooling(xs[0], c.WR, c.WC)
	}
	// the variables each output element is taken of
	type ref struct{ leaf, el int }
	yr, yc := r, cc
	of := func(e int) (o []ref) {
		seen := map[int]bool{}
		for _, a := range idx {
			if !seen[a] {
				seen[a] = true
				o = append(o, ref{a, e})
			}
		}
		return
	}
	switch c.Op {
	case "ReduceMax":
		yr, yc = 1, 1
		of = func(int) (o []ref) {
			for e := 0; e < r*cc; e++ {
				o = append(o, ref{0, e})
			}
			return
		}
	case "MaxPooling":
		yr, yc = r/c.WR, cc/c.WC
		of = func(e int) (o []ref) {
			for i := 0; i < c.WR; i++ {
				for j := 0; j < c.WC; j++ {
					o = append(o, ref{0, (e/yc*c.WR+i)*cc + e%yc*c.WC + j})
				}
			}
			return
		}
	}
	if !shapeIs(y.Value(), yr, yc) {
		return errf("ag.%s: shape %v, want %dx%d", c.Op, y.Value().Shape(), yr, yc)
	}
	yv := vals(y.Value())
	ext := make([]float64, yr*yc)
	for e := range ext {
		for k, q := range of(e) {
			v := vs[q.leaf][q.el]
			if k == 0 || (min && v < ext[e]) || (!min && v > ext[e]) {
				ext[e] = v
			}
		}
		if yv[e] != ext[e] {
			return errf("ag.%s: element %d is %v, want %v", c.Op, e, yv[e], ext[e])
		}
	}
	if !y.RequiresGrad() {
		return nil
	}
	g := gyOf(c.DT, yr, yc, c.Gy, 1)
	gy := g.Floats()
	if _, ok := y.(*ag.Operator); ok {
		y.AccGrad(mk(c.DT, g, false))
		if err := ag.Backward(y); err != nil {
			return errf("ag.%s: Backward: %v", c.Op, err)
		}
	} else { // the extremum of one tensor is the tensor
		y.AccGrad(mk(c.DT, g, false))
	}
	grads := make([][]float64, n)
	for i, l := range leaves {
		grads[i] = make([]float64, r*cc)
		used := false
		for _, a := range idx {
			used = used || a == i
		}
		if l.HasGrad() {
			if !l.RequiresGrad() || !used {
				return errf("ag.%s: tensor %d receives a gradient (requires gradients: %v, operand: %v)", c.Op, i, l.RequiresGrad(), used)
			}
			if !shapeIs(l.Grad(), r, cc) {
				return errf("ag.%s: tensor %d has a gradient of shape %v", c.Op, i, l.Grad().Shape())
			}
			grads[i] = vals(l.Grad())
		}
	}
	tol := 8 * epsOf(c.DT)
	for e := range ext {
		sum, ties, all := 0.0, 0, true
		for _, q := range of(e) {
			d := grads[q.leaf][q.el]
			if vs[q.leaf][q.el] != ext[e] {
				if d != 0 {
					return errf("ag.%s: element %d of operand %d receives the gradient %v although it is not the extremum (%v, not %v)", c.Op, q.el, q.leaf, d, vs[q.leaf][q.el], ext[e])
				}
				continue
			}
			ties++
			all = all && leaves[q.leaf].RequiresGrad()
			if lo, hi := math.Min(0, gy[e]), math.Max(0, gy[e]); d < lo-tol*4 || d > hi+tol*4 {
				return errf("ag.%s: element %d of operand %d receives the gradient %v of the output's %v", c.Op, q.el, q.leaf, d, gy[e])
			}
			sum += d
		}
		if ties > 1 {
			ctx.NT()
		}
		if all && math.Abs(sum-gy[e]) > tol*4 || math.Abs(sum) > math.Abs(gy[e])+tol*4 {
			return errf("ag.%s: the %d variables that attain the extremum of element %d receive %v of the output's gradient %v", c.Op, ties, e, sum, gy[e])
		}
	}
	return nil
}

func init() {
	eng.Register("C05", "ties", "several variables attain the extremum", 30000, 600000, genTie, evalTie)
}
