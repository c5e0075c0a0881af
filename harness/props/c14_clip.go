package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
)

// clipCase clips the gradients of several parameters.
type clipCase struct {
	DT    int
	Ps    []clipParam
	Rep   int // the list of parameters is repeated so many times more
	Value F
	Norm  bool
	P     F // norm type
	Max   F // maximum norm, as a multiple of the total norm when Rel
	Rel   bool
	Model bool
}

type clipParam struct {
	R, C  int
	Has   bool
	Scale F
	G     []F // used cyclically
}

func genClip(t *rapid.T) clipCase {
	c := clipCase{DT: gen.DT(t), Norm: gen.Chance(t, 65), Model: gen.Bool(t)}
	c.Value = F(gen.Pick(t, 1, 0.5, 0, gen.LogPos(t, -4, 4)))
	c.P = F(gen.Pick(t, 2, 2, 3, 1.5, math.Inf(1), math.Inf(1), gen.Spread(t, 1.01, 8), gen.LogPos(t, 0.1, 3)))
	if gen.Chance(t, 4) {
		c.P = F(gen.Pick(t, 1, 0.5, 0, -2, math.Inf(-1)))
	}
	c.Max = F(gen.LogPos(t, -3, 3))
	if c.Rel = gen.Chance(t, 40); c.Rel {
		c.Max = F(gen.Pick(t, 1, 0.999, 1.001, 0.5, 2, 0.01))
	}
	sc := gen.LogPos(t, -3, 3)
	if gen.Chance(t, 15) {
		sc = gen.LogPos(t, -30, 30)
	}
	most := 6
	if gen.Large(t) {
		most = 150
	}
	c.Ps = gen.List(t, 0, most, func(t *rapid.T) clipParam {
		p := clipParam{R: gen.UInt(t, 1, 6), C: gen.Pick(t, 1, gen.UInt(t, 1, 6)), Has: gen.Chance(t, 75), Scale: F(sc)}
		if gen.Chance(t, 8) {
			p.R = gen.UInt(t, 20, gen.Pick(t, 200, 200, 200, 3000))
		}
		if gen.Chance(t, 30) {
			p.Scale = F(sc * gen.LogPos(t, -3, 3))
		}
		p.G = gen.List(t, 1, 8, func(t *rapid.T) F { return F(gen.Pick(t, gen.Spread(t, -2, 2), 0, 1, -1)) })
		return p
	})
	if len(c.Ps) > 0 && gen.Chance(t, 1) {
		c.Rep = gen.UInt(t, 1, 1500) / len(c.Ps)
	}
	return c
}

func evalClip(ctx *eng.Ctx, c clipCase) error {
	var ps []*nn.Param
	var orig [][]float64
	var sn []snap
	m := &tied{}
	cps := c.Ps
	for i := 0; i < c.Rep; i++ {
		cps = append(cps, c.Ps...)
	}
	for i, q := range cps {
		p := nn.NewParam(mk(c.DT, hmat(c.DT, q.R, q.C, 3, i, 1), false))
		var o []float64
		if q.Has {
			g := gen.Mat{R: q.R, C: q.C, D: make([]F, q.R*q.C)}
			for k := range g.D {
				g.D[k] = q.G[k%len(q.G)] * q.Scale
			}
			g = g.Round(c.DT)
			p.AccGrad(mk(c.DT, g, false))
			o = g.Floats()
		}
		ps, orig, sn = append(ps, p), append(orig, o), append(sn, snapOf(p))
	}
	m.Ps = ps
	params := nn.StreamParams(ps)
	if c.Model {
		if len(ps) > 0 {
			m.A = &tied{Ps: ps[:1]} // reachable twice
		}
		params = nn.Parameters(m)
	}
	mx := 0.0
	for _, o := range orig {
		for _, v := range o {
			mx = math.Max(mx, math.Abs(v))
		}
	}
	norm := mx
	p := float64(c.P)
	total := func(get func(i int) []float64) float64 {
		m := 0.0
		for i := range ps {
			for _, v := range get(i) {
				m = math.Max(m, math.Abs(v))
			}
		}
		if math.IsInf(p, 1) || m == 0 {
			return m
		}
		s := 0.0
		for i := range ps {
			for _, v := range get(i) {
				s += math.Pow(math.Abs(v)/m, p)
			}
		}
		return m * math.Pow(s, 1/p)
	}
	norm = total(func(i int) []float64 { return orig[i] })
	maxNorm := float64(c.Max)
	if c.Rel {
		maxNorm *= norm
	}
	ctx.NTIf(norm > 0)
	if c.Norm {
		ctx.Label("norm inf=%v clip=%v", math.IsInf(p, 1), norm > maxNorm)
		rejected := catch(func() { (&gradclipper.NormClipper{MaxNorm: maxNorm, NormType: p}).ClipGradients(params) })
		if (rejected != nil) != (p <= 1) {
			return errf("norm type %v: panic is %v", p, rejected)
		}
		if p <= 1 {
			for i, q := range ps {
				if err := sn[i].same(q); err != nil {
					return errf("the value of parameter %d changed: %v", i, err)
				}
				if q.HasGrad() != (orig[i] != nil) {
					return errf("parameter %d: HasGrad is %v after the rejected clipping", i, q.HasGrad())
				}
				if orig[i] != nil && !sameFloats(vals(q.Grad()), orig[i]) {
					return errf("parameter %d: the gradient changed to %v by the rejected clipping, was %v", i, vals(q.Grad()), orig[i])
				}
			}
			return nil
		}
	} else {
		ctx.Label("value")
		(&gradclipper.ValueClipper{Value: float64(c.Value)}).ClipGrads(params)
	}
	for i, q := range ps {
		if err := sn[i].same(q); err != nil {
			return errf("the value of parameter %d changed: %v", i, err)
		}
		if q.HasGrad() != (orig[i] != nil) {
			return errf("parameter %d: HasGrad is %v", i, q.HasGrad())
		}
		if orig[i] != nil && (!shapeIs(q.Grad(), cps[i].R, cps[i].C) || dtOf(q.Grad()) != c.DT) {
			return errf("parameter %d: the gradient has shape %v and %d bits", i, q.Grad().Shape(), dtOf(q.Grad()))
		}
	}
	grad := func(i int) []float64 {
		if orig[i] == nil {
			return nil
		}
		return vals(ps[i].Grad())
	}
	if !c.Norm {
		lim := roundTo(c.DT, float64(c.Value))
		for i := range ps {
			for k, g := range grad(i) {
				if w := math.Max(-lim, math.Min(lim, orig[i][k])); g != w {
					return errf("value %v: parameter %d, element %d is %v, want %v (was %v)", lim, i, k, g, w, orig[i][k])
				}
			}
		}
		return nil
	}
	// The documented coefficient is MaxNorm / (norm + 1e-7), if below 1.
	e := epsOf(c.DT)
	coeff := 1.0
	if norm+1e-7 > maxNorm {
		coeff = maxNorm / (norm + 1e-7)
	}
	slack := 1e-10 + 4*e
	for i := range ps {
		for k, g := range grad(i) {
			w := orig[i][k] * coeff
			if !(math.Abs(g-w) <= slack*math.Abs(w)+4*denormOf(c.DT)) {
				return errf("norm %v (p=%v), maximum %v: parameter %d, element %d is %v, want %v (was %v)", norm, p, maxNorm, i, k, g, w, orig[i][k])
			}
		}
	}
	if after := total(grad); after > maxNorm*(1+1e-6)+float64(len(ps)*300)*denormOf(c.DT) {
		return errf("norm %v after clipping exceeds %v", after, maxNorm)
	}
	if norm < maxNorm*(1-1e-6)-1e-6 {
		for i := range ps {
			for k, g := range grad(i) {
				if g != orig[i][k] {
					return errf("norm %v below the maximum %v: gradient element changed from %v to %v", norm, maxNorm, orig[i][k], g)
				}
			}
		}
	}
	return nil
}

func denormOf(dt int) float64 {
	if dt == 32 {
		return math.SmallestNonzeroFloat32
	}
	return math.SmallestNonzeroFloat64
}

func init() {
	eng.Register("C14", "clip", "the total norm of the gradients is positive", 80000, 1600000, genClip, evalClip)
}
