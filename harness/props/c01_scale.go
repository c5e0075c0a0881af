package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
)

// scaleCase scales the operands of an operation by powers of two, which is
// exact as long as nothing overflows or becomes subnormal: the result must
// scale along. It reaches magnitudes that error bounds of the value model
// do not, and any threshold on them.
type scaleCase struct {
	Op     string
	DT     int
	A, B   gen.Mat
	N, N2  F
	KA, KB int
}

// scaleOps gives the exponent of the scale of the result.
var scaleOps = map[string]func(ka, kb int) int{
	"Add": nil, "AddInPlace": nil, "Sub": nil, "SubInPlace": nil, "Maximum": nil, "Minimum": nil, // same scale
	"AddScalar": nil, "AddScalarInPlace": nil, "SubScalar": nil, "SubScalarInPlace": nil, "ClipInPlace": nil,
	"Sum": nil, "CumSum": nil, "Max": nil, "Min": nil, "Abs": nil, "Norm": nil,
	"Normalize2": func(ka, kb int) int { return 0 },
	"Prod":       func(ka, kb int) int { return ka + kb }, "ProdInPlace": func(ka, kb int) int { return ka + kb },
	"ProdScalar": func(ka, kb int) int { return ka + kb }, "ProdScalarInPlace": func(ka, kb int) int { return ka + kb },
	"ProdMatrixScalarInPlace": func(ka, kb int) int { return ka + kb },
	"Mul":                     func(ka, kb int) int { return ka + kb }, "MulT": func(ka, kb int) int { return ka + kb },
	"DotUnitary": func(ka, kb int) int { return ka + kb },
	"Div":        func(ka, kb int) int { return ka - kb }, "DivInPlace": func(ka, kb int) int { return ka - kb },
}

var scaleNames = sortedKeys(scaleOps)

func genScale(t *rapid.T) scaleCase {
	cs := scaleCase{Op: gen.Pick(t, scaleNames...), DT: gen.DT(t)}
	op := arithOps[cs.Op]
	el := func(t *rapid.T) float64 {
		if gen.Chance(t, 10) {
			return 0
		}
		v := gen.Spread(t, 0.25, 16)
		if gen.Bool(t) {
			v = -v
		}
		return v
	}
	var r, c int
	if op.vecA {
		r, c = vecShape(t, 1, 90)
	} else {
		r, c = matShape(t, 1, 24, 400)
	}
	cs.A = gen.MatOf(t, r, c, el)
	switch op.b {
	case bSame, bVector:
		cs.B = gen.MatOf(t, r, c, el)
		if scaleOps[cs.Op] != nil && (cs.Op == "Div" || cs.Op == "DivInPlace") {
			for i, v := range cs.B.D {
				if v == 0 {
					cs.B.D[i] = 1.5
				}
			}
		}
	case bMul:
		cs.B = gen.MatOf(t, c, gen.Dim(t, 1, 12), el)
	case bMulT:
		cs.B = gen.MatOf(t, r, 1, el)
	}
	cs.A, cs.B = cs.A.Round(cs.DT), cs.B.Round(cs.DT)
	cs.A.Off, cs.B.Off = gen.U(t, 8), gen.U(t, 8)
	cs.N, cs.N2 = F(roundTo(cs.DT, el(t))), F(roundTo(cs.DT, el(t)))
	lim := 1010
	if cs.DT == 32 {
		lim = 110
	}
	k := func(m int) int { return gen.UInt(t, -m, m) }
	switch {
	case cs.Op == "Norm":
		cs.N = F(gen.Pick(t, 2, 2, 1, 3, 4, 2.5, 1.5, 0.5))
		cs.KA = k(int(float64(lim-40) / math.Max(1, float64(cs.N))))
		cs.KB = 0
	case cs.Op == "Normalize2":
		cs.KA = k((lim - 40) / 2)
	case scaleOps[cs.Op] == nil:
		cs.KA = k(lim - 10)
		cs.KB = cs.KA
	default:
		cs.KA = k(lim)
		d := k(lim - 30)
		if gen.Chance(t, 50) { // operands of opposite extremes
			cs.KA = gen.Pick(t, 1, -1) * (lim - gen.U(t, lim/6))
			d = k(20)
		}
		cs.KB = d - cs.KA
		if cs.Op == "Div" || cs.Op == "DivInPlace" {
			cs.KB = cs.KA - d
		}
		if cs.KB > lim || cs.KB < -lim {
			cs.KB = 0
			cs.KA = d
		}
	}
	return cs
}

func (cs scaleCase) apply(ka, kb int, abs bool) []float64 {
	op := arithOps[cs.Op]
	scale := func(m gen.Mat, k int) gen.Mat {
		o := gen.Mat{R: m.R, C: m.C, Off: m.Off, D: make([]F, len(m.D))}
		for i, v := range m.D {
			if abs {
				v = F(math.Abs(float64(v)))
			}
			o.D[i] = F(math.Ldexp(float64(v), k))
		}
		return o
	}
	a := mkGuarded(cs.DT, scale(cs.A, ka)).m
	var b mat.Matrix
	if op.b != bNone {
		b = mkGuarded(cs.DT, scale(cs.B, kb)).m
	}
	n, n2 := float64(cs.N), float64(cs.N2)
	if cs.Op != "Norm" {
		n, n2 = math.Ldexp(n, kb), math.Ldexp(n2, kb)
	}
	if cs.Op == "ProdMatrixScalarInPlace" {
		n = math.Ldexp(float64(cs.N), ka)
	}
	return vals(op.run(a, b, n, n2))
}

func evalScale(ctx *eng.Ctx, cs scaleCase) error {
	base := cs.apply(0, 0, false)
	got := cs.apply(cs.KA, cs.KB, false)
	k := cs.KA
	if f := scaleOps[cs.Op]; f != nil {
		k = f(cs.KA, cs.KB)
	}
	ctx.NTIf((cs.KA != 0 || cs.KB != 0) && len(cs.A.D) > 1)
	ctx.Label("op=%s", cs.Op)
	if len(got) != len(base) {
		return errf("%s: %d elements scaled, %d not", cs.Op, len(got), len(base))
	}
	tol := make([]float64, len(base))
	switch cs.Op {
	case "Mul", "MulT", "DotUnitary", "Sum", "CumSum", "Norm", "Normalize2":
		// an implementation may add in an order of its own
		e := 1e-15
		if cs.DT == 32 {
			e = 5e-7
		}
		if cs.Op == "Norm" { // powers of large and small numbers are less accurate
			e = math.Max(e, 1e-12)
		}
		for i, v := range cs.apply(0, 0, true) {
			tol[i] = e * float64(len(cs.A.D)+8) * math.Abs(v)
		}
	}
	for i, w := range base {
		g := math.Ldexp(got[i], -k)
		if !(math.Abs(g-w) <= tol[i]) {
			return errf("%s (float%d) of %dx%d: element %d is %v; with the operands scaled by 2^%d and 2^%d it is %v, that is 2^%d times %v",
				cs.Op, cs.DT, cs.A.R, cs.A.C, i, w, cs.KA, cs.KB, got[i], k, g)
		}
	}
	return nil
}

func init() {
	eng.Register("C01", "scale", "operands scaled by powers of two, over the whole exponent range short of overflow and underflow: the result scales along; non-trivial: more than one element and a scale other than one", 25000, 600000, genScale, evalScale)
}
