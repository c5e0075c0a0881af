package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// unaryFn describes an element-wise operator with scalar parameters.
type unaryFn struct {
	params func(t *rapid.T) []float64
	apply  func(x mat.Tensor, p []mat.Tensor, pv []float64) mat.Tensor
	// f returns the value and the derivative with respect to x.
	f func(x float64, p []float64) (y, d float64)
	// dp returns the derivatives with respect to the parameters.
	dp func(x float64, p []float64) []float64
	// kink returns the distance of x to the nearest non-differentiable point.
	kink func(x float64, p []float64) float64
	// domain tells where value and derivative are defined.
	domain func(x float64) bool
	// scale is the absolute magnitude, besides |y|, at which the value may be
	// rounded; dscale likewise for the derivative.
	scale, dscale func(x float64, p []float64) float64
	// lo and hi bound the value.
	bounds func(p []float64) (lo, hi float64)
	// anyInput: NaN and infinities have defined results too.
	anyInput bool
	// matFn is the matrix method, if any.
	matFn func(m mat.Matrix, p []float64) mat.Matrix
}

func konst(k float64) func(float64, []float64) float64 {
	return func(float64, []float64) float64 { return k }
}

func absP0(_ float64, p []float64) float64 { return math.Abs(p[0]) }

func sig(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

// dsig is sig(x)(1-sig(x)).
func dsig(x float64) float64 {
	e := math.Exp(-math.Abs(x))
	return e / ((1 + e) * (1 + e))
}

func softplus(x float64) float64 {
	return math.Max(x, 0) + math.Log1p(math.Exp(-math.Abs(x)))
}

func agU(f func(mat.Tensor) mat.Tensor) func(mat.Tensor, []mat.Tensor, []float64) mat.Tensor {
	return func(x mat.Tensor, _ []mat.Tensor, _ []float64) mat.Tensor { return f(x) }
}

func posParam(t *rapid.T) []float64 { return []float64{gen.Spread(t, 0.1, 2.5)} }

const geluC = 0.7978845608028654 // sqrt(2/pi)

var (
	anyDomain = func(float64) bool { return true }
	positive  = func(x float64) bool { return x > 0 }
	noKink    = konst(math.Inf(1))
	kinkAt0   = func(x float64, _ []float64) float64 { return math.Abs(x) }
	rangeAny  = func([]float64) (float64, float64) { return math.Inf(-1), math.Inf(1) }
	rangeOf   = func(lo, hi float64) func([]float64) (float64, float64) {
		return func([]float64) (float64, float64) { return lo, hi }
	}
)

func prodOrZero(a, b float64) float64 {
	if b == 0 {
		return 0
	}
	return a * b
}

var unaryFns = map[string]*unaryFn{
	"Exp": {apply: agU(ag.Exp), f: func(x float64, _ []float64) (float64, float64) { e := math.Exp(x); return e, e },
		bounds: rangeOf(0, math.Inf(1)), anyInput: true, matFn: func(m mat.Matrix, _ []float64) mat.Matrix { return m.Exp() }},
	"Log": {apply: agU(ag.Log), f: func(x float64, _ []float64) (float64, float64) { return math.Log(x), 1 / x },
		domain: positive, anyInput: true, matFn: func(m mat.Matrix, _ []float64) mat.Matrix { return m.Log() }},
	"Sqrt": {apply: agU(ag.Sqrt), f: func(x float64, _ []float64) (float64, float64) { y := math.Sqrt(x); return y, 0.5 / y },
		domain: positive, anyInput: true, matFn: func(m mat.Matrix, _ []float64) mat.Matrix { return m.Sqrt() }},
	"Sigmoid": {apply: agU(ag.Sigmoid), f: func(x float64, _ []float64) (float64, float64) { return sig(x), dsig(x) },
		dscale: konst(1), bounds: rangeOf(0, 1), anyInput: true, matFn: func(m mat.Matrix, _ []float64) mat.Matrix { return m.Sigmoid() }},
	"Pow": {params: func(t *rapid.T) []float64 {
		return []float64{gen.Pick(t, 2.0, 3, 1, 0.5, -1, -2, 1.5, 0, 4, -0.5, gen.Spread(t, -3, 4))}
	}, apply: func(x mat.Tensor, _ []mat.Tensor, pv []float64) mat.Tensor { return ag.Pow(x, pv[0]) },
		f: func(x float64, p []float64) (float64, float64) {
			d := p[0] * math.Pow(x, p[0]-1)
			if p[0] == 0 {
				d = 0
			}
			return math.Pow(x, p[0]), d
		}, domain: positive, anyInput: true, matFn: func(m mat.Matrix, p []float64) mat.Matrix { return m.Pow(p[0]) }},
	"Tan": {apply: agU(ag.Tan), f: func(x float64, _ []float64) (float64, float64) {
		c := math.Cos(x)
		return math.Tan(x), 1 / (c * c)
	}},
	"Sin":         {apply: agU(ag.Sin), f: func(x float64, _ []float64) (float64, float64) { return math.Sin(x), math.Cos(x) }, bounds: rangeOf(-1, 1)},
	"Cos":         {apply: agU(ag.Cos), f: func(x float64, _ []float64) (float64, float64) { return math.Cos(x), -math.Sin(x) }, bounds: rangeOf(-1, 1)},
	"Tanh":        {apply: agU(ag.Tanh), f: func(x float64, _ []float64) (float64, float64) { c := math.Cosh(x); return math.Tanh(x), 1 / c / c }, dscale: konst(1), bounds: rangeOf(-1, 1)},
	"Neg":         {apply: agU(ag.Neg), f: func(x float64, _ []float64) (float64, float64) { return -x, -1 }},
	"Abs":         {apply: agU(ag.Abs), f: func(x float64, _ []float64) (float64, float64) { return math.Abs(x), math.Copysign(1, x) }, kink: kinkAt0, bounds: rangeOf(0, math.Inf(1)), matFn: func(m mat.Matrix, _ []float64) mat.Matrix { return m.Abs() }},
	"Square":      {apply: agU(ag.Square), f: func(x float64, _ []float64) (float64, float64) { return x * x, 2 * x }, bounds: rangeOf(0, math.Inf(1))},
	"Reciprocal":  {apply: agU(ag.Reciprocal), f: func(x float64, _ []float64) (float64, float64) { return 1 / x, -1 / x / x }, domain: func(x float64) bool { return x != 0 }},
	"HardSigmoid": {apply: agU(ag.HardSigmoid), f: hardSig, kink: func(x float64, _ []float64) float64 { return math.Abs(math.Abs(x) - 2.5) }, scale: konst(1), bounds: rangeOf(0, 1)},
	"HardTanh": {apply: agU(ag.HardTanh), f: func(x float64, _ []float64) (float64, float64) {
		if math.Abs(x) > 1 {
			return math.Copysign(1, x), 0
		}
		return x, 1
	}, kink: func(x float64, _ []float64) float64 { return math.Abs(math.Abs(x) - 1) }, bounds: rangeOf(-1, 1)},
	"Softsign": {apply: agU(ag.Softsign), f: func(x float64, _ []float64) (float64, float64) {
		a := 1 + math.Abs(x)
		return x / a, 1 / a / a
	}, dscale: konst(1), bounds: rangeOf(-1, 1)},
	"ReLU": {apply: agU(ag.ReLU), f: func(x float64, _ []float64) (float64, float64) {
		if x > 0 {
			return x, 1
		}
		return 0, 0
	}, kink: kinkAt0, bounds: rangeOf(0, math.Inf(1))},
	"GELU": {apply: agU(ag.GELU), f: func(x float64, _ []float64) (float64, float64) {
		th := math.Tanh(geluC * (x + 0.044715*x*x*x))
		ch := math.Cosh(geluC * (x + 0.044715*x*x*x))
		s2 := 1 / ch / ch
		return 0.5 * x * (1 + th), 0.5*(1+th) + 0.5*geluC*prodOrZero(x+3*0.044715*x*x*x, s2)
	}, scale: func(x float64, _ []float64) float64 { return math.Min(math.Abs(x), 10) }, dscale: konst(8)},
	"Mish": {apply: agU(ag.Mish), f: func(x float64, _ []float64) (float64, float64) {
		sp := softplus(x)
		th, ch := math.Tanh(sp), math.Cosh(sp)
		return x * th, th + prodOrZero(x*sig(x), 1/ch/ch)
	}, scale: func(x float64, _ []float64) float64 { return math.Min(math.Abs(x), 40) }, dscale: konst(40)},
	"Swish": {apply: agU(ag.Swish), f: swishF, dscale: swishScale},
	"SiLU":  {apply: agU(ag.SiLU), f: swishF, dscale: swishScale},
	"SwishB": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, -2.5, 2.5)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.SwishB(x, p[0]) },
		f: func(x float64, p []float64) (float64, float64) {
			b := p[0]
			return x * sig(b*x), sig(b*x) + prodOrZero(b*x, dsig(b*x))
		},
		dp:     func(x float64, p []float64) []float64 { return []float64{prodOrZero(x*x, dsig(p[0]*x))} },
		dscale: func(x float64, p []float64) float64 { return swishScale(p[0]*x, nil) }},
	"CELU": {params: posParam, apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.CELU(x, p[0]) },
		f: func(x float64, p []float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return p[0] * math.Expm1(x/p[0]), math.Exp(x / p[0])
		},
		dp: func(x float64, p []float64) []float64 {
			if x > 0 {
				return []float64{0}
			}
			z := x / p[0]
			return []float64{math.Expm1(z) - prodOrZero(z, math.Exp(z))}
		}, scale: absP0, kink: noKink},
	"ELU": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, -2, 2.5)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.ELU(x, p[0]) }, f: eluF,
		dp: func(x float64, p []float64) []float64 {
			if x > 0 {
				return []float64{0}
			}
			return []float64{math.Expm1(x)}
		}, scale: absP0, kink: kinkAt0},
	"PositiveELU": {apply: agU(ag.PositiveELU), f: func(x float64, _ []float64) (float64, float64) {
		y, d := eluF(x, []float64{1})
		return y + 1, d
	}, scale: konst(1), bounds: rangeOf(0, math.Inf(1))},
	"LeakyReLU": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, -1, 1)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.LeakyReLU(x, p[0]) },
		f: func(x float64, p []float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return p[0] * x, p[0]
		},
		dp: func(x float64, _ []float64) []float64 { return []float64{math.Min(x, 0)} }, kink: kinkAt0},
	"SELU": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, 0.1, 2.5), gen.Spread(t, 0.2, 2)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.SELU(x, p[0], p[1]) },
		f: func(x float64, p []float64) (float64, float64) {
			y, d := eluF(x, p)
			return y * p[1], d * p[1]
		},
		dp: func(x float64, p []float64) []float64 {
			if x > 0 {
				return []float64{0, x}
			}
			return []float64{p[1] * math.Expm1(x), p[0] * math.Expm1(x)}
		}, scale: func(_ float64, p []float64) float64 { return p[0] * p[1] }, kink: kinkAt0},
	"SoftPlus": {params: func(t *rapid.T) []float64 {
		return []float64{gen.Spread(t, 0.1, 3), gen.Pick(t, 20.0, 20, gen.Spread(t, -2, 5), 1000)}
	}, apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.SoftPlus(x, p[0], p[1]) },
		f: func(x float64, p []float64) (float64, float64) {
			if x > p[1] {
				return x, 1
			}
			return softplus(p[0]*x) / p[0], sig(p[0] * x)
		},
		dp: func(x float64, p []float64) []float64 {
			if x > p[1] {
				return []float64{0, 0}
			}
			b := p[0]
			return []float64{x*sig(b*x)/b - softplus(b*x)/b/b, 0}
		}, scale: func(_ float64, p []float64) float64 { return 1 / p[0] }, dscale: konst(1), kink: func(x float64, p []float64) float64 { return math.Abs(x - p[1]) }},
	"SoftShrink": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, 0.05, 1.5)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.SoftShrink(x, p[0]) },
		f: func(x float64, p []float64) (float64, float64) {
			if math.Abs(x) > p[0] {
				return x - math.Copysign(p[0], x), 1
			}
			return 0, 0
		},
		dp: func(x float64, p []float64) []float64 {
			if math.Abs(x) > p[0] {
				return []float64{-math.Copysign(1, x)}
			}
			return []float64{0}
		}, scale: absP0, kink: func(x float64, p []float64) float64 { return math.Abs(math.Abs(x) - p[0]) }},
	"Threshold": {params: func(t *rapid.T) []float64 { return []float64{gen.Spread(t, -1.5, 1.5), gen.Spread(t, -2, 2)} },
		apply: func(x mat.Tensor, p []mat.Tensor, _ []float64) mat.Tensor { return ag.Threshold(x, p[0], p[1]) },
		f: func(x float64, p []float64) (float64, float64) {
			if x > p[0] {
				return x, 1
			}
			return p[1], 0
		},
		dp: func(x float64, p []float64) []float64 {
			if x > p[0] {
				return []float64{0, 0}
			}
			return []float64{0, 1}
		}, kink: func(x float64, p []float64) float64 { return math.Abs(x - p[0]) }},
}

func hardSig(x float64, _ []float64) (float64, float64) {
	switch {
	case x > 2.5:
		return 1, 0
	case x < -2.5:
		return 0, 0
	}
	return 0.2*x + 0.5, 0.2
}

func swishF(x float64, _ []float64) (float64, float64) {
	return x * sig(x), sig(x) + prodOrZero(x, dsig(x))
}

// swishScale admits y + s*(1-y), with s the sigmoid.
func swishScale(x float64, _ []float64) float64 { return 2 + math.Max(x, 0) }

func eluF(x float64, p []float64) (float64, float64) {
	if x > 0 {
		return x, 1
	}
	return p[0] * math.Expm1(x), p[0] * math.Exp(x)
}

var unaryNames = func() []string {
	for _, u := range unaryFns {
		if u.kink == nil {
			u.kink = noKink
		}
		if u.domain == nil {
			u.domain = anyDomain
		}
		if u.scale == nil {
			u.scale = konst(0)
		}
		if u.dscale == nil {
			u.dscale = konst(0)
		}
		if u.bounds == nil {
			u.bounds = rangeAny
		}
	}
	return sortedKeys(unaryFns)
}()
