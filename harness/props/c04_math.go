package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// mathCase is one element-wise function on one matrix.
type mathCase struct {
	Fn   string
	DT   int
	X    gen.Mat
	P    []F
	Grad bool
}

// hardValue draws elements where numerical formulas break: any bit pattern,
// overflow and underflow thresholds, huge, tiny and moderate values.
func hardValue(t *rapid.T, dt int, special bool) float64 {
	for {
		var v float64
		switch gen.U(t, 8) {
		case 0, 1:
			v = gen.AnyBits(t, dt)
		case 2:
			b := gen.Pick(t, 88.3762626647949, 88.72283, 87.33655, 103.97, 709.782712893384, 745.1332191019411, 236.6, 354.9, 16.635532, 36.7, 17.3, 9.01, 20, 0.6931471805599453, 1, 2.5)
			v = b * (1 + gen.Spread(t, -1, 1)*gen.Pick(t, 1e-7, 1e-4, 1e-2))
			if gen.Bool(t) {
				v = -v
			}
		case 3:
			v = gen.LogUniform(t, -12, 3)
		case 4:
			v = gen.LogUniform(t, -38, 38)
		case 5:
			if special {
				v = gen.Special(t, dt)
			} else {
				v = gen.Pick(t, 0.0, math.Copysign(0, -1), tinyOf(dt), maxOf(dt), -maxOf(dt), 1, -1)
			}
		default:
			v = gen.Spread(t, -12, 12)
		}
		v = roundTo(dt, v)
		if special || !math.IsNaN(v) && !math.IsInf(v, 0) {
			return v
		}
		return 0.5
	}
}

// mathNear compares with relative tolerance rel on |want| plus abs.
func mathNear(dt int, got, want, tol float64) bool {
	big := maxOf(dt)
	switch {
	case math.IsNaN(want):
		return math.IsNaN(got)
	case math.IsNaN(got):
		return false
	case math.IsInf(got, 0):
		return math.Abs(want) > big*(1-1e-5) && math.Signbit(got) == math.Signbit(want)
	case math.Abs(want) > big:
		return math.Abs(got) > big*(1-1e-5) && math.Signbit(got) == math.Signbit(want) && math.Abs(want) < big*(1+1e-5)
	}
	return math.Abs(got-want) <= tol+tinyOf(dt)
}

const mathUlps = 6

func evalMath(ctx *eng.Ctx, cs mathCase) error {
	u := unaryFns[cs.Fn]
	if u == nil {
		return errf("harness: unknown function %q", cs.Fn)
	}
	ctx.Label("%s/%d/grad=%v", cs.Fn, cs.DT, cs.Grad)
	pv := make([]float64, len(cs.P))
	for i, p := range cs.P {
		pv[i] = roundTo(cs.DT, float64(p))
		if cs.Fn == "Pow" {
			pv[i] = float64(p)
		}
	}
	xs := cs.X.Floats()
	check := func(what string, t mat.Tensor) error {
		if dtOf(t) != cs.DT || !shapeIs(t, cs.X.R, cs.X.C) {
			return errf("%s: %d-bit result of shape %v, want %d bits [%d %d]", what, dtOf(t), t.Shape(), cs.DT, cs.X.R, cs.X.C)
		}
		lo, hi := u.bounds(pv)
		for i, g := range vals(t) {
			w, _ := u.f(xs[i], pv)
			tol := mathUlps * epsOf(cs.DT) * (math.Abs(w) + u.scale(xs[i], pv))
			if math.Abs(xs[i]) < 2000 {
				tol += tinyOf(cs.DT) * math.Abs(xs[i]) // underflow of an inner sigmoid
			}
			if !mathNear(cs.DT, g, w, tol) {
				return errf("%s: element %d of %d: f(%v) = %v, want %v", what, i, len(xs), xs[i], g, w)
			}
			if g < lo || g > hi {
				return errf("%s: element %d: f(%v) = %v outside [%v, %v]", what, i, xs[i], g, lo, hi)
			}
		}
		return nil
	}
	x := mk(cs.DT, cs.X, true)
	if u.matFn != nil {
		if err := check("Matrix."+cs.Fn, u.matFn(x, pv)); err != nil {
			return err
		}
	}
	ps := make([]mat.Tensor, len(pv))
	for i, p := range pv {
		ps[i] = mk(cs.DT, gen.Mat{R: 1, C: 1, D: []F{F(p)}}, false)
	}
	y := u.apply(x, ps, pv)
	if err := check("ag."+cs.Fn, y.Value()); err != nil {
		return err
	}
	ctx.NTIf(len(xs) > 0)
	if !cs.Grad || len(xs) == 0 {
		return nil
	}
	for _, v := range xs {
		if !u.domain(v) {
			return nil
		}
	}
	ones := gen.Mat{R: cs.X.R, C: cs.X.C, D: make([]F, len(xs))}
	for i := range ones.D {
		ones.D[i] = 1
	}
	y.AccGrad(mk(cs.DT, ones, false))
	if err := ag.Backward(y); err != nil {
		return errf("ag.%s: Backward: %v", cs.Fn, err)
	}
	if !x.HasGrad() {
		return errf("ag.%s: no gradient", cs.Fn)
	}
	gr := x.Grad()
	if dtOf(gr) != cs.DT || !shapeIs(gr, cs.X.R, cs.X.C) {
		return errf("ag.%s gradient: shape %v", cs.Fn, gr.Shape())
	}
	for i, g := range vals(gr) {
		if u.kink(xs[i], pv) == 0 {
			// between the derivatives on the two sides
			_, l := u.f(math.Nextafter(xs[i], math.Inf(-1)), pv)
			_, r := u.f(math.Nextafter(xs[i], math.Inf(1)), pv)
			tol := 4 * mathUlps * epsOf(cs.DT) * (1 + math.Abs(l) + math.Abs(r))
			if !(g >= math.Min(l, r)-tol && g <= math.Max(l, r)+tol) {
				return errf("ag.%s: element %d of %d: derivative at %v is %v, not between %v on its left and %v on its right", cs.Fn, i, len(xs), xs[i], g, l, r)
			}
			ctx.Label("kink/%s", cs.Fn)
			continue
		}
		_, w := u.f(xs[i], pv)
		// the derivative may be evaluated through intermediate results of the
		// element type
		tol := 4 * mathUlps * epsOf(cs.DT) * (math.Abs(w) + u.dscale(xs[i], pv))
		if cs.Fn == "Pow" {
			tol += math.Abs(pv[0]) * tinyOf(cs.DT)
			if math.IsInf(g, 0) && math.Abs(w)*8 > maxOf(cs.DT) && math.Signbit(g) == math.Signbit(w) {
				continue
			}
		}
		if !mathNear(cs.DT, g, w, tol) {
			return errf("ag.%s: element %d of %d: derivative at %v is %v, want %v", cs.Fn, i, len(xs), xs[i], g, w)
		}
	}
	return nil
}

type scalarMathCase struct {
	Fn   string
	DT   int
	X, Y F
}

func scalarFn[T float32 | float64](name string, x, y float64) (got, want float64) {
	a, b := T(x), T(y)
	g := func(v T, w float64) (float64, float64) { return float64(v), float64(T(w)) }
	fa, fb := float64(a), float64(b)
	switch name {
	case "Pow":
		return g(mat.Pow(a, b), math.Pow(fa, fb))
	case "Cos":
		return g(mat.Cos(a), math.Cos(fa))
	case "Sin":
		return g(mat.Sin(a), math.Sin(fa))
	case "Cosh":
		return g(mat.Cosh(a), math.Cosh(fa))
	case "Sinh":
		return g(mat.Sinh(a), math.Sinh(fa))
	case "Exp":
		return g(mat.Exp(a), math.Exp(fa))
	case "Abs":
		return g(mat.Abs(a), math.Abs(fa))
	case "Sqrt":
		return g(mat.Sqrt(a), math.Sqrt(fa))
	case "Log":
		return g(mat.Log(a), math.Log(fa))
	case "Tan":
		return g(mat.Tan(a), math.Tan(fa))
	case "Tanh":
		return g(mat.Tanh(a), math.Tanh(fa))
	case "Max":
		return g(mat.Max(a, b), math.Max(fa, fb))
	case "Ceil":
		return g(mat.Ceil(a), math.Ceil(fa))
	case "Floor":
		return g(mat.Floor(a), math.Floor(fa))
	case "Round":
		return g(mat.Round(a), math.Round(fa))
	case "Inf":
		sign := int(max(-3, min(3, fa)))
		if fa != fa {
			sign = 0
		}
		return g(mat.Inf[T](sign), math.Inf(sign))
	case "IsInf":
		sign := 0
		if fb > 0 {
			sign = 1
		} else if fb < 0 {
			sign = -1
		}
		if mat.IsInf(a, sign) != math.IsInf(fa, sign) {
			return 1, 0
		}
		return 0, 0
	case "consts":
		if v := mat.NaN[T](); v == v {
			return float64(v), math.NaN()
		}
		if v := mat.SmallestNonzero[T](); !(v > 0) || v/2 != 0 {
			return float64(v), 0
		}
		return g(mat.Pi[T](), math.Pi)
	}
	panic("harness: unknown scalar function " + name)
}

func init() {
	eng.Register("C04", "elementwise",
		"the matrix has at least one element; elements are drawn from all bit patterns, overflow/underflow thresholds, many decades and moderate values",
		240000, 8000000,
		func(t *rapid.T) mathCase {
			cs := mathCase{Fn: gen.Pick(t, unaryNames...), DT: gen.DT(t), Grad: gen.Chance(t, 60)}
			u := unaryFns[cs.Fn]
			if u.params != nil {
				for _, p := range u.params(t) {
					cs.P = append(cs.P, F(p))
				}
			}
			r, c := matShape(t, 0, 40, 80)
			if gen.Bool(t) {
				r, c = 1, gen.UInt(t, 1, 24)
			}
			special := u.anyInput && !cs.Grad
			dom := cs.Grad
			cs.X = gen.MatOf(t, r, c, func(t *rapid.T) float64 {
				v := hardValue(t, cs.DT, special)
				if len(cs.P) > 0 && cs.Fn != "Pow" && gen.Chance(t, 3) { // at the parameter
					v = roundTo(cs.DT, float64(cs.P[gen.U(t, len(cs.P))])*gen.Pick(t, 1.0, -1))
				}
				if dom && !u.domain(v) {
					v = -v
					if !u.domain(v) {
						v = 1
					}
				}
				return v
			})
			return cs
		}, evalMath)
	eng.Register("C04", "scalar",
		"every case evaluates one scalar function",
		80000, 3000000,
		func(t *rapid.T) scalarMathCase {
			dt := gen.DT(t)
			return scalarMathCase{Fn: gen.Pick(t, "Pow", "Cos", "Sin", "Cosh", "Sinh", "Exp", "Abs", "Sqrt", "Log", "Tan", "Tanh", "Max", "Ceil", "Floor", "Round", "Inf", "IsInf", "consts"),
				DT: dt, X: F(hardValue(t, dt, true)), Y: F(hardValue(t, dt, true))}
		},
		func(ctx *eng.Ctx, cs scalarMathCase) error {
			ctx.NT()
			ctx.Label("%s", cs.Fn)
			var got, want float64
			if cs.DT == 32 {
				got, want = scalarFn[float32](cs.Fn, float64(cs.X), float64(cs.Y))
			} else {
				got, want = scalarFn[float64](cs.Fn, float64(cs.X), float64(cs.Y))
			}
			if got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
				return errf("mat.%s(%v, %v) = %v, want %v", cs.Fn, cs.X, cs.Y, got, want)
			}
			return nil
		})
}
