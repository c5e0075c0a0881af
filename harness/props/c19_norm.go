package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
)

// normCase is a normalisation layer on inputs of any magnitude.
type normCase struct {
	DT   int
	Spec modelSpec
	Seed uint64
	Xs   []gen.Mat
}

func genNormInput(t *rapid.T, n int) gen.Mat {
	k := math.Pow(10, gen.Spread(t, -4, 4)*gen.Pick(t, 1.0, 1, 2))
	switch gen.U(t, 5) {
	case 0: // constant
		v := gen.Pick(t, 0.0, 0, 1, -1, 0.1, gen.Val(t)*k)
		return gen.MatOf(t, n, 1, func(*rapid.T) float64 { return v })
	case 1: // one element stands out
		v, w := gen.Val(t), gen.Val(t)*k
		j := gen.U(t, n)
		m := gen.MatOf(t, n, 1, func(*rapid.T) float64 { return v })
		m.D[j] = F(w)
		return m
	case 2: // large offset
		v := gen.Val(t) * k
		return gen.MatOf(t, n, 1, func(t *rapid.T) float64 { return v + gen.Val(t) })
	}
	return gen.MatOf(t, n, 1, func(t *rapid.T) float64 { return k * gen.Val(t) })
}

func evalNorm(ctx *eng.Ctx, cs normCase) error {
	ctx.Label("%s", cs.Spec.Kind)
	m := cs.Spec.build(cs.DT)
	if err := checkBuilt(cs.DT, cs.Spec, m); err != nil {
		return err
	}
	fillParams(cs.DT, m, cs.Seed, 1.1)
	e := newRefEnv()
	var xs []mat.Tensor
	var rxs []ref.M
	for _, x := range cs.Xs {
		x = x.Round(cs.DT)
		xs = append(xs, mk(cs.DT, x, false))
		rxs = append(rxs, e.t.Leaf(x.R, x.C, x.Floats()))
	}
	want := e.model(m, rxs)
	ys := runModel(m, xs)
	if len(ys) != len(xs) {
		return errf("%s: %d outputs for %d inputs", cs.Spec.Kind, len(ys), len(xs))
	}
	var wAbs float64 = 1
	ps, _ := allParams(m)
	for _, p := range ps {
		for _, v := range vals(p) {
			wAbs = math.Max(wAbs, math.Abs(v))
		}
	}
	for i, y := range ys {
		n := float64(len(cs.Xs[i].D))
		bound := (math.Sqrt(n)+1)*wAbs + wAbs
		if cs.Spec.Kind == "adanorm" {
			k := math.Abs(float64(cs.Spec.Eps))
			bound = (math.Sqrt(n) + 1) * k * (1 + 0.1*(math.Sqrt(n)+1))
		}
		for j, v := range vals(y.Value()) {
			if !(math.Abs(v) <= bound*1.01) {
				return errf("%s: output %d element %d is %v for input %v, above the bound %v", cs.Spec.Kind, i, j, v, cs.Xs[i].D, bound)
			}
		}
		if rxs[i].R > 0 && condOK(cs.DT, want[i]) {
			ctx.NT()
			if err := expectRef(fmt.Sprintf("%s: output %d for %v", cs.Spec.Kind, i, cs.Xs[i].D), y.Value(), cs.DT, want[i], 8); err != nil {
				return err
			}
		}
	}
	return nil
}

func condOK(dt int, m ref.M) bool {
	for _, v := range m.D {
		if !(v.E()*epsOf(dt) < 0.05) {
			return false
		}
	}
	return true
}

// bnCase is a history of training and inference passes of a batch norm layer.
type bnCase struct {
	DT       int
	Size     int
	Momentum F
	Seed     uint64
	Steps    []bnStep
	Gy       []F
}

type bnStep struct {
	Train bool
	N     int
	Grad  bool
	Scale F
	Dup   int  `json:",omitempty"` // >0: every Dup-th input is the one before it
	Frz   bool `json:",omitempty"` // the parameters don't require gradients
}

func evalBN(ctx *eng.Ctx, cs bnCase) error {
	spec := modelSpec{Kind: "batchnorm", A: []int{cs.Size}, Eps: cs.Momentum}
	m := spec.build(cs.DT).(*batchnorm.Model)
	if cs.Momentum == 0.9 { // the default
		if cs.DT == 32 {
			m = batchnorm.New[float32](cs.Size)
		} else {
			m = batchnorm.New[float64](cs.Size)
		}
	}
	if err := checkBuilt(cs.DT, spec, m); err != nil {
		return err
	}
	fillParams(cs.DT, m, cs.Seed, 1.1)
	mom := roundTo(cs.DT, float64(cs.Momentum))
	mean, sd := make([]float64, cs.Size), make([]float64, cs.Size)
	ref0 := snapOf(m.W)
	trained, infer, scale := 0, 0, 0.0
	for s, st := range cs.Steps {
		what := fmt.Sprintf("batchnorm step %d (train=%v)", s, st.Train)
		req := []int{1}
		if st.Frz {
			req[0] = 0
		}
		m.W.SetRequiresGrad(!st.Frz)
		m.B.SetRequiresGrad(!st.Frz)
		mc := modelCase{DT: cs.DT, Spec: spec, N: st.N, Seed: cs.Seed + uint64(s)*7919, XS: st.Scale, Req: req, In: []int{1, 2, 0}, Gy: cs.Gy}
		r := &modelRun{cs: mc, m: m, e: newRefEnv(), what: what}
		r.ps, r.nms = allParams(m)
		for i := 0; i < st.N; i++ {
			if st.Dup > 0 && i > 0 && i%st.Dup == 0 {
				r.ins, r.xs, r.rxs = append(r.ins, r.ins[i-1]), append(r.xs, r.xs[i-1]), append(r.rxs, r.rxs[i-1])
				r.kind = append(r.kind, r.kind[i-1])
				continue
			}
			x := hmat(cs.DT, cs.Size, 1, mc.Seed, i, float64(st.Scale))
			l := mk(cs.DT, x, mc.In[i%3] > 0)
			r.ins, r.kind = append(r.ins, l), append(r.kind, mc.In[i%3])
			var xt mat.Tensor = l
			if mc.In[i%3] == 2 {
				xt = ag.Copy(l)
			}
			r.xs = append(r.xs, xt)
			r.rxs = append(r.rxs, r.e.t.Leaf(cs.Size, 1, x.Floats()))
		}
		var want []ref.M
		var ys []mat.Tensor
		if st.Train {
			rm, rs := r.e.batchStats(r.rxs)
			for _, v := range rs.D {
				v.Branch(v.X())
			}
			ys = m.ForwardT(r.xs...)
			want = r.e.batchNorm(m, r.rxs, rm, rs)
			for i := range mean {
				mean[i] = mom*mean[i] + (1-mom)*rm.D[i].X()
				sd[i] = mom*sd[i] + (1-mom)*rs.D[i].X()
			}
			trained++
		} else {
			ys = m.Forward(r.xs...)
			want = r.e.batchNorm(m, r.rxs, r.e.t.Leaf(cs.Size, 1, vals(m.Mean.Value())), r.e.t.Leaf(cs.Size, 1, vals(m.StdDev.Value())))
			infer++
		}
		if len(ys) != st.N {
			return errf("%s: %d outputs for %d inputs", what, len(ys), st.N)
		}
		for i, y := range ys {
			if !condOK(cs.DT, want[i]) {
				continue
			}
			if err := expectRef(fmt.Sprintf("%s: output %d", what, i), y.Value(), cs.DT, want[i], 8); err != nil {
				return err
			}
		}
		if len(m.ForwardT())+len(m.Forward()) != 0 { // must not touch the statistics, either
			return errf("%s: outputs for no inputs", what)
		}
		tol := 1e-9
		if cs.DT == 32 {
			tol = 2e-4
		}
		scale = math.Max(scale, float64(st.Scale)) // the statistics keep the rounding of earlier steps
		for i := range mean {
			for k, b := range []*[]float64{&mean, &sd} {
				got := vals([]mat.Tensor{m.Mean.Value(), m.StdDev.Value()}[k])[i]
				if !(math.Abs(got-(*b)[i]) <= tol*(scale+math.Abs((*b)[i]))+tol) {
					return errf("%s: running %s[%d] is %v, want %v", what, []string{"mean", "deviation"}[k], i, got, (*b)[i])
				}
			}
		}
		if st.Grad {
			if err := r.checkGrads(ctx, ys, want); err != nil {
				return err
			}
			m.W.ZeroGrad()
			m.B.ZeroGrad()
		}
		if m.Mean.RequiresGrad() || m.StdDev.RequiresGrad() || m.Mean.HasGrad() {
			return errf("%s: a running statistic takes part in gradients", what)
		}
	}
	if err := ref0.same(m.W); err != nil {
		return errf("batchnorm: W modified: %v", err)
	}
	ctx.NTIf(trained > 0 && infer > 0)
	return nil
}

func init() {
	registerModels("C19", "layers", 60000, 1500000, "adanorm", "layernorm", "layernormsimple", "rmsnorm", "scalenorm", "fixnorm", "batchnorm")
	eng.Register("C19", "magnitudes", "constant, zero, offset and spread inputs of magnitudes 1e-4 to 1e4: outputs are bounded by the definition and equal it; non-trivial when the rounding error bound of the definition is below 0.05",
		60000, 1500000,
		func(t *rapid.T) normCase {
			cs := normCase{DT: gen.Pick(t, 64, 32), Seed: uint64(gen.U(t, 1<<20))}
			cs.Spec = genSpec(t, gen.Pick(t, "adanorm", "layernorm", "layernormsimple", "rmsnorm", "scalenorm", "fixnorm"), 0)
			for i := gen.UInt(t, 1, 3); i > 0; i-- {
				cs.Xs = append(cs.Xs, genNormInput(t, cs.Spec.a(0)))
			}
			return cs
		}, evalNorm)
	eng.Register("C19", "batchnorm-history", "random histories of training and inference passes: outputs, gradients and running statistics against the model; non-trivial with both kinds of passes",
		15000, 400000,
		func(t *rapid.T) bnCase {
			cs := bnCase{DT: gen.Pick(t, 64, 64, 32), Size: gen.UInt(t, 1, 5), Momentum: F(gen.Pick(t, 0.9, 0.5, 0, gen.Unit(t))), Seed: uint64(gen.U(t, 1<<30))}
			cs.Steps = gen.List(t, 1, 6, func(t *rapid.T) bnStep {
				return bnStep{Train: gen.Bool(t), N: gen.Ext(t, 1, 5, 40), Grad: gen.Bool(t), Scale: F(gen.Pick(t, 1.0, 1, 2, 0.1, gen.LogPos(t, -4, 4))), Dup: gen.Pick(t, 0, 0, 0, 1, 2, 3), Frz: gen.Chance(t, 20)}
			})
			for i := 0; i < 11; i++ {
				cs.Gy = append(cs.Gy, F(gen.Val(t)))
			}
			return cs
		}, evalBN)
}
