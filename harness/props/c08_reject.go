package props

import (
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// rejectCase differentiates many outputs together, some of which lack the
// gradient they need. Small integers: everything is exact.
type rejectCase struct {
	DT    int
	Kinds []int // per output: 0 scalar without gradient, 1 scalar with one, 2 vector with one, 3 vector without, 4 leaf, 5 constant operator
	Deep  []int // operators between the shared result and the output
	Leaf  bool  // the outputs depend on the leaf directly
}

func evalReject(ctx *eng.Ctx, c rejectCase) error {
	const d = 3
	col := func(x ...F) mat.Matrix { return mk(c.DT, gen.Mat{R: len(x), C: 1, D: x}, false) }
	x := col(1, 2, -1)
	x.SetRequiresGrad(true)
	var s mat.Tensor = x
	if !c.Leaf {
		s = ag.Copy(x)
	}
	var outs, all []mat.Tensor
	var missing []int
	want := make([]float64, d)
	for i, k := range c.Kinds {
		y := s
		sign := 1.0
		for n := 1 + mod(c.Deep[i%len(c.Deep)], 4); n > 0; n-- {
			y = ag.Neg(y)
			sign = -sign
			all = append(all, y)
		}
		var g [d]float64
		switch k {
		case 0, 1:
			y = ag.ReduceSum(y)
			all = append(all, y)
			q := 1.0
			if k == 1 {
				q = float64(i%3 + 2)
				y.AccGrad(col(F(q)))
			}
			g = [d]float64{q, q, q}
		case 2, 3:
			g = [d]float64{float64(i%2 + 1), 0, -2}
			if k == 2 {
				y.AccGrad(col(F(g[0]), F(g[1]), F(g[2])))
			} else {
				missing = append(missing, i)
			}
		case 4:
			y, sign = x, 0
		default:
			y, sign = ag.Neg(col(1, 2)), 0
			if y.RequiresGrad() {
				return errf("an operator of constants requires gradients")
			}
		}
		outs = append(outs, y)
		for j := range want {
			want[j] += sign * g[j]
		}
	}
	isOut := func(t mat.Tensor) bool {
		for i, o := range outs {
			if o == t && (c.Kinds[i] == 1 || c.Kinds[i] == 2) {
				return true
			}
		}
		return false
	}
	constVec := false // a non-scalar constant without a gradient may be rejected, too
	for _, k := range c.Kinds {
		constVec = constVec || k == 5
	}
	err := ag.Backward(outs...)
	if len(missing) > 0 {
		if err == nil {
			return errf("Backward of %d outputs: output %d has no gradient and is not a scalar, but no error is returned", len(outs), missing[0])
		}
		if x.HasGrad() || !c.Leaf && s.HasGrad() {
			return errf("a rejected Backward of %d outputs propagated a gradient", len(outs))
		}
		for i, t := range all {
			if t.HasGrad() != isOut(t) {
				return errf("after a rejected Backward of %d outputs: operator %d has a gradient: %v", len(outs), i, t.HasGrad())
			}
		}
		ctx.Label("rejected")
		for _, i := range missing {
			outs[i].AccGrad(col(F(i%2+1), 0, -2))
		}
		err = ag.Backward(outs...)
	}
	if err != nil {
		if constVec {
			ctx.Label("constant output rejected")
			return nil
		}
		return errf("Backward of %d outputs: %v", len(outs), err)
	}
	any := false
	for _, k := range c.Kinds {
		any = any || k < 4
	}
	if x.HasGrad() != any {
		return errf("the leaf has a gradient: %v", x.HasGrad())
	}
	if any {
		for j, v := range vals(x.Grad()) {
			if v != want[j] {
				return errf("Backward of %d outputs: gradient element %d is %v, want %v", len(outs), j, v, want[j])
			}
		}
	}
	ctx.NTIf(len(missing) > 0 && len(outs) > 1)
	return nil
}

func init() {
	eng.Register("C08", "reject",
		"up to 20 (now and then 100) outputs differentiated together, with and without the gradients they need: rejection leaves everything as it was and the graph usable, exact; non-trivial when one of several outputs lacks its gradient",
		20000, 400000,
		func(t *rapid.T) rejectCase {
			c := rejectCase{DT: gen.DT(t), Leaf: gen.Bool(t)}
			n := gen.UInt(t, 1, 20)
			if gen.Large(t) {
				n = gen.UInt(t, 20, 100)
			}
			for i := 0; i < n; i++ {
				c.Kinds = append(c.Kinds, gen.Pick(t, 0, 0, 1, 2, 2, 2, 4))
				c.Deep = append(c.Deep, gen.U(t, 4))
			}
			if gen.Chance(t, 70) {
				for k := gen.Pick(t, 1, 1, 2); k > 0; k-- {
					c.Kinds[gen.U(t, n)] = 3
				}
			}
			if gen.Chance(t, 10) {
				c.Kinds[gen.U(t, n)] = 5
			}
			return c
		}, evalReject)
}
