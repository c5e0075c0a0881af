package props

import (
	"fmt"
	"math"
	"sort"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/mat"
)

type arithCase struct {
	Op      string
	DT, DT2 int
	A, B    gen.Mat
	N, N2   F
}

// shape classes of operand B relative to A.
const (
	bNone = iota
	bSame
	bMul    // A.C x k
	bMulT   // A.R x 1
	bVector // same as A, A a vector
)

type arithOp struct {
	b        int
	vecA     bool // A must be a vector
	nonempty bool
	inplace  bool
	scalarN  bool
	run      func(a, b mat.Matrix, n, n2 float64) mat.Matrix
	want     func(t *ref.Tape, a, b ref.M, n, n2 float64) ref.M
}

func sc(t *ref.Tape, v ref.V) ref.M { return ref.M{R: 1, C: 1, D: []ref.V{v}} }

var arithOps = map[string]*arithOp{
	"Add": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Add(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Add(b) }},
	"AddInPlace": {b: bSame, inplace: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.AddInPlace(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Add(b) }},
	"Sub": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Sub(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Sub(b) }},
	"SubInPlace": {b: bSame, inplace: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.SubInPlace(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Sub(b) }},
	"Prod": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Prod(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Prod(b) }},
	"ProdInPlace": {b: bSame, inplace: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.ProdInPlace(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Prod(b) }},
	"Div": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Div(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Div(b) }},
	"DivInPlace": {b: bSame, inplace: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.DivInPlace(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Div(b) }},
	"AddScalar": {scalarN: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.AddScalar(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.AddV(t.C(n)) }},
	"AddScalarInPlace": {scalarN: true, inplace: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.AddScalarInPlace(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.AddV(t.C(n)) }},
	"SubScalar": {scalarN: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.SubScalar(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.SubV(t.C(n)) }},
	"SubScalarInPlace": {scalarN: true, inplace: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.SubScalarInPlace(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.SubV(t.C(n)) }},
	"ProdScalar": {scalarN: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.ProdScalar(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.Scale(n) }},
	"ProdScalarInPlace": {scalarN: true, inplace: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.ProdScalarInPlace(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return a.Scale(n) }},
	"ProdMatrixScalarInPlace": {b: bSame, scalarN: true, inplace: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.ProdMatrixScalarInPlace(b, n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M { return b.Scale(n) }},
	"Mul": {b: bMul, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Mul(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Mul(t, b) }},
	"MulT": {b: bMulT, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.MulT(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.T().Mul(t, b) }},
	"DotUnitary": {b: bVector, vecA: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.DotUnitary(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return sc(t, ref.Dot(t, a.D, b.D)) }},
	"Sum": {run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Sum() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return sc(t, a.Sum(t)) }},
	"Max": {nonempty: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Max() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			m := a.D[0]
			for _, v := range a.D {
				m = m.Max(v)
			}
			return sc(t, m)
		}},
	"Min": {nonempty: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Min() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			m := a.D[0]
			for _, v := range a.D {
				m = m.Min(v)
			}
			return sc(t, m)
		}},
	"ArgMax": {nonempty: true, vecA: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix {
		return mat.Scalar[float64](float64(a.ArgMax()))
	}, want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return sc(t, t.C(0)) }}, // special-cased
	"CumSum": {vecA: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.CumSum() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			o := ref.NewM(len(a.D), 1)
			for i := range a.D {
				if i == 0 {
					o.D[i] = a.D[i]
				} else {
					o.D[i] = o.D[i-1].Add(a.D[i])
				}
			}
			return o
		}},
	"Norm": {vecA: true, run: func(a, b mat.Matrix, n, _ float64) mat.Matrix { return a.Norm(n) },
		want: func(t *ref.Tape, a, b ref.M, n, _ float64) ref.M {
			var s float64
			for _, v := range a.D {
				s += math.Pow(math.Abs(v.X()), n)
			}
			return sc(t, t.C(0).Fn(math.Pow(s, 1/n), 0, math.Max(1, 1/n)*(4+float64(len(a.D)))))
		}},
	"Normalize2": {vecA: true, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Normalize2() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			var s float64
			for _, v := range a.D {
				s += v.X() * v.X()
			}
			s = math.Sqrt(s)
			return a.Map(func(v ref.V) ref.V {
				if s == 0 {
					return v
				}
				return v.Fn(v.X()/s, 1/s, 8)
			})
		}},
	"Maximum": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Maximum(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			o := ref.NewM(a.R, a.C)
			for i := range o.D {
				o.D[i] = a.D[i].Max(b.D[i])
			}
			return o
		}},
	"Minimum": {b: bSame, run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Minimum(b) },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M {
			o := ref.NewM(a.R, a.C)
			for i := range o.D {
				o.D[i] = a.D[i].Min(b.D[i])
			}
			return o
		}},
	"Abs": {run: func(a, b mat.Matrix, _, _ float64) mat.Matrix { return a.Abs() },
		want: func(t *ref.Tape, a, b ref.M, _, _ float64) ref.M { return a.Map(ref.V.Abs) }},
	"ClipInPlace": {scalarN: true, inplace: true, run: func(a, b mat.Matrix, n, n2 float64) mat.Matrix {
		return a.ClipInPlace(math.Min(n, n2), math.Max(n, n2))
	}, want: func(t *ref.Tape, a, b ref.M, n, n2 float64) ref.M {
		return a.Map(func(v ref.V) ref.V { return v.Max(t.C(math.Min(n, n2))).Min(t.C(math.Max(n, n2))) })
	}},
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

var arithNames = sortedKeys(arithOps)

// vecShape draws a row or column vector shape.
func vecShape(t *rapid.T, lo, hi int) (r, c int) {
	n := 0
	if gen.Large(t) {
		n = gen.Dim(t, lo, hi*40)
	} else {
		n = gen.Dim(t, lo, hi)
	}
	if gen.Bool(t) {
		return 1, n
	}
	return n, 1
}

func matShape(t *rapid.T, lo, hi, maxSize int) (r, c int) {
	switch gen.U(t, 4) {
	case 0:
		return vecShape(t, lo, min(maxSize, hi*6))
	default:
		if gen.Large(t) {
			hi, maxSize = hi*8, maxSize*20
			r, c = gen.UInt(t, lo, hi), gen.UInt(t, lo, hi)
		} else {
			r, c = gen.Dim(t, lo, hi), gen.Dim(t, lo, hi)
		}
		for r*c > maxSize {
			if r > c {
				r = r / 2
			} else {
				c = c / 2
			}
		}
		return r, c
	}
}

func genArith(t *rapid.T) arithCase {
	cs := arithCase{Op: gen.Pick(t, arithNames...), DT: gen.DT(t)}
	cs.DT2 = cs.DT
	if gen.Chance(t, 25) {
		cs.DT2 = gen.DT(t)
	}
	op := arithOps[cs.Op]
	lo := 0
	if op.nonempty {
		lo = 1
	}
	var r, c int
	if op.vecA {
		r, c = vecShape(t, lo, 300)
	} else {
		r, c = matShape(t, lo, 70, 3000)
	}
	return fillArith(t, cs, r, c)
}

// longShape draws the shape of a matrix of 400 to 20000 elements.
func longShape(t *rapid.T, vec bool) (r, c int) {
	n := int(gen.LogPos(t, 2.6, 4.3))
	if gen.Chance(t, 30) {
		n = gen.Pick(t, 512, 1024, 2048, 4096, 8192, 16384) + gen.UInt(t, -2, 2)
	}
	r = 1
	if !vec && gen.Chance(t, 50) {
		r = gen.Pick(t, 2, 3, 5, 8, 17, 32, 64, 100, 129)
	}
	c = n / r
	if gen.Bool(t) {
		return c, r
	}
	return r, c
}

func genLong(t *rapid.T) arithCase {
	cs := arithCase{Op: gen.Pick(t, arithNames...), DT: gen.DT(t)}
	cs.DT2 = cs.DT
	if gen.Chance(t, 25) {
		cs.DT2 = gen.DT(t)
	}
	r, c := longShape(t, arithOps[cs.Op].vecA)
	return fillArith(t, cs, r, c)
}

func fillArith(t *rapid.T, cs arithCase, r, c int) arithCase {
	op := arithOps[cs.Op]
	el := gen.Val
	cs.A = gen.MatOf(t, r, c, el)
	switch op.b {
	case bSame, bVector:
		cs.B = gen.MatOf(t, r, c, el)
		if cs.Op == "Div" || cs.Op == "DivInPlace" {
			for i, v := range cs.B.D {
				if v == 0 {
					cs.B.D[i] = 1.5
				}
			}
		}
	case bMul:
		k := 1
		if !gen.Chance(t, 30) {
			k = gen.Dim(t, 0, 40)
		}
		if r*c*k > 200000 {
			k = 1
		}
		cs.B = gen.MatOf(t, c, k, el)
	case bMulT:
		cs.B = gen.MatOf(t, r, 1, el)
	}
	cs.A.Off, cs.B.Off = gen.U(t, 8), gen.U(t, 8)
	if op.scalarN {
		cs.N, cs.N2 = F(gen.Val(t)), F(gen.Val(t))
	}
	if cs.Op == "Norm" {
		cs.N = F(gen.Pick(t, 2, 2, 1, 3, 4, 2.5, 1.5, 0.5))
	}
	return cs
}

func evalArith(ctx *eng.Ctx, cs arithCase) error {
	op := arithOps[cs.Op]
	a, b := cs.A.Round(cs.DT), cs.B.Round(cs.DT2)
	ga := mkGuarded(cs.DT, a)
	var gb *guarded
	var bm mat.Matrix
	if op.b != bNone {
		gb = mkGuarded(cs.DT2, b)
		bm = gb.m
	}
	n, n2 := float64(cs.N), float64(cs.N2)
	got := op.run(ga.m, bm, n, n2)
	tp := ref.NewTape()
	br := b.Round(cs.DT) // operands are converted to the receiver's type
	ra := tp.Leaf(a.R, a.C, a.Floats())
	rb := tp.Leaf(br.R, br.C, br.Floats())
	rn, rn2 := n, n2
	if op.scalarN {
		rn, rn2 = roundTo(cs.DT, n), roundTo(cs.DT, n2)
	}
	ctx.NTIf(len(a.D) > 1)
	ctx.Label("op=%s", cs.Op)
	ctx.Label("size=%s", sizeClass(len(a.D)))
	if cs.DT != cs.DT2 && op.b != bNone {
		ctx.Label("mixed-types")
	}
	if cs.Op == "ArgMax" {
		i := int(got.Item().F64())
		if i < 0 || i >= len(a.D) {
			return errf("ArgMax: index %d of %d elements", i, len(a.D))
		}
		for _, v := range a.D {
			if v > a.D[i] {
				return errf("ArgMax: element %d = %v is smaller than %v", i, a.D[i], v)
			}
		}
		return nil
	}
	w := op.want(tp, ra, rb, rn, rn2)
	if err := expectRef(cs.Op, got, cs.DT, w, 4); err != nil {
		return err
	}
	if op.inplace {
		if got != ga.m {
			return errf("%s: did not return its receiver", cs.Op)
		}
	}
	if err := ga.intact(); err != nil {
		return errf("%s: receiver: %v", cs.Op, err)
	}
	if gb != nil {
		if err := gb.intact(); err != nil {
			return errf("%s: argument: %v", cs.Op, err)
		}
	}
	return nil
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 4:
		return "2-3"
	case n < 16:
		return "4-15"
	case n < 64:
		return "16-63"
	case n < 512:
		return "64-511"
	}
	return "512+"
}

// --- IEEE specials for the element-wise operations -------------------------

var ieeeNames = []string{"Add", "AddInPlace", "Sub", "SubInPlace", "Prod", "ProdInPlace", "Div", "DivInPlace",
	"AddScalar", "AddScalarInPlace", "SubScalar", "SubScalarInPlace", "ProdScalar", "ProdScalarInPlace", "ProdMatrixScalarInPlace"}

func genIEEE(t *rapid.T) arithCase {
	cs := arithCase{Op: gen.Pick(t, ieeeNames...), DT: gen.DT(t)}
	cs.DT2 = cs.DT
	r, c := matShape(t, 1, 20, 120)
	el := func(t *rapid.T) float64 { return gen.Special(t, cs.DT) }
	cs.A = gen.MatOf(t, r, c, el)
	if arithOps[cs.Op].b != bNone {
		cs.B = gen.MatOf(t, r, c, el)
	}
	if arithOps[cs.Op].scalarN {
		cs.N = F(roundTo(cs.DT, gen.Special(t, cs.DT)))
	}
	cs.A.Off, cs.B.Off = gen.U(t, 8), gen.U(t, 8)
	return cs
}

func evalIEEE(ctx *eng.Ctx, cs arithCase) error {
	op := arithOps[cs.Op]
	a, b := cs.A.Round(cs.DT), cs.B.Round(cs.DT)
	ga, gb := mkGuarded(cs.DT, a), (*guarded)(nil)
	var bm mat.Matrix
	if op.b != bNone {
		gb = mkGuarded(cs.DT, b)
		bm = gb.m
	}
	n := float64(cs.N)
	got := vals(op.run(ga.m, bm, n, 0))
	special := false
	for i := range a.D {
		x := float64(a.D[i])
		y := n
		if op.b != bNone && !op.scalarN {
			y = float64(b.D[i])
		}
		if cs.Op == "ProdMatrixScalarInPlace" {
			x = float64(b.D[i])
		}
		var w float64
		if cs.DT == 32 {
			w = float64(ieee32(cs.Op, float32(x), float32(y)))
		} else {
			w = ieee64(cs.Op, x, y)
		}
		if math.IsNaN(w) || math.IsInf(w, 0) || (w != 0 && math.Abs(w) < tinyOf(cs.DT)) {
			special = true
		}
		if math.IsNaN(w) != math.IsNaN(got[i]) ||
			(!math.IsNaN(w) && !ulpsClose(cs.DT, got[i], w, 2)) {
			return errf("%s (float%d) of %v and %v at element %d of %dx%d is %v, want %v", cs.Op, cs.DT, x, y, i, a.R, a.C, got[i], w)
		}
	}
	ctx.NTIf(special)
	ctx.Label("op=%s", cs.Op)
	if err := ga.intact(); err != nil {
		return err
	}
	if gb != nil {
		return gb.intact()
	}
	return nil
}

// ulpsClose allows k ulps (absolute steps of the type), also across overflow.
func ulpsClose(dt int, a, b float64, k int64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) == math.IsNaN(b)
	}
	return math.Abs(float64(ord(dt, a)-ord(dt, b))) <= float64(k)
}

func ord(dt int, v float64) int64 {
	if dt == 32 {
		b := int64(int32(math.Float32bits(float32(v))))
		if b < 0 {
			b = math.MinInt32 - b
		}
		return b
	}
	b := int64(math.Float64bits(v))
	if b < 0 {
		b = math.MinInt64 - b
	}
	return b
}

func ieee32(op string, x, y float32) float32 {
	switch op[:3] {
	case "Add":
		return x + y
	case "Sub":
		return x - y
	case "Div":
		return x / y
	}
	return x * y
}

func ieee64(op string, x, y float64) float64 {
	switch op[:3] {
	case "Add":
		return x + y
	case "Sub":
		return x - y
	case "Div":
		return x / y
	}
	return x * y
}

// --- special values in reductions and products -------------------------------

type redCase struct {
	Op   string
	DT   int
	A, B gen.Mat
}

// infVal draws a small integer or, now and then, an infinity or a NaN.
func infVal(nan bool) func(t *rapid.T) float64 {
	return func(t *rapid.T) float64 {
		if gen.U(t, 16) == 15 {
			if k := gen.U(t, 3); k == 2 && nan {
				return math.NaN()
			} else {
				return math.Inf(1 - 2*(k&1))
			}
		}
		return float64(gen.UInt(t, -4, 4))
	}
}

func genRed(t *rapid.T) redCase {
	cs := redCase{Op: gen.Pick(t, "Sum", "CumSum", "DotUnitary", "Mul", "MulT", "Max", "Min", "Clip", "Abs", "Maximum", "Minimum", "ArgMax"), DT: gen.DT(t)}
	nan := true
	switch cs.Op {
	case "Max", "Min", "Clip", "Maximum", "Minimum", "ArgMax": // NaN has no order
		nan = false
	}
	el := infVal(nan)
	switch cs.Op {
	case "Mul", "MulT":
		r, c := gen.Dim(t, 1, 12), gen.Dim(t, 1, 40)
		cs.A = gen.MatOf(t, r, c, el)
		if cs.Op == "Mul" {
			cs.B = gen.MatOf(t, c, gen.Pick(t, 1, gen.Dim(t, 1, 12)), el)
		} else {
			cs.B = gen.MatOf(t, r, 1, el)
		}
	default:
		r, c := vecShape(t, 1, 80)
		if (cs.Op == "Sum" || cs.Op == "Max" || cs.Op == "Min") && gen.Bool(t) {
			r, c = gen.Dim(t, 1, 12), gen.Dim(t, 1, 12)
		}
		cs.A = gen.MatOf(t, r, c, el)
		switch cs.Op {
		case "DotUnitary", "Maximum", "Minimum":
			cs.B = gen.MatOf(t, r, c, el)
		case "Clip":
			cs.B = gen.MatOf(t, 1, 2, el)
		}
	}
	cs.A.Off, cs.B.Off = gen.U(t, 8), gen.U(t, 8)
	return cs
}

// evalRed: small integers are summed exactly in any order, and so are
// infinities and NaN. A zero multiplied with an infinity or NaN is left out:
// the product of matrices documents neither NaN nor zero for it.
func evalRed(ctx *eng.Ctx, cs redCase) error {
	a, b := mkGuarded(cs.DT, cs.A), (*guarded)(nil)
	var bm mat.Matrix
	if cs.B.D != nil {
		b = mkGuarded(cs.DT, cs.B)
		bm = b.m
	}
	open := false // an unspecified product takes part
	dot := func(n int, x, y func(k int) float64) float64 {
		s := 0.0
		for k := 0; k < n; k++ {
			u, v := x(k), y(k)
			if (u == 0 && v-v != 0) || (v == 0 && u-u != 0) {
				open = true
			}
			s += u * v
		}
		return s
	}
	var got, want []float64
	var isOpen []bool
	add := func(v float64) { want = append(want, v); isOpen = append(isOpen, open); open = false }
	switch cs.Op {
	case "Sum", "CumSum":
		s := 0.0
		for _, v := range cs.A.D {
			s += float64(v)
			if cs.Op == "CumSum" {
				add(s)
			}
		}
		if cs.Op == "Sum" {
			add(s)
			got = vals(a.m.Sum())
		} else {
			got = vals(a.m.CumSum())
		}
	case "Max", "Min":
		m := float64(cs.A.D[0])
		for _, v := range cs.A.D {
			if cs.Op == "Max" {
				m = math.Max(m, float64(v))
			} else {
				m = math.Min(m, float64(v))
			}
		}
		add(m)
		if cs.Op == "Max" {
			got = vals(a.m.Max())
		} else {
			got = vals(a.m.Min())
		}
	case "Clip":
		lo, hi := math.Min(cs.B.At(0, 0), cs.B.At(0, 1)), math.Max(cs.B.At(0, 0), cs.B.At(0, 1))
		for _, v := range cs.A.D {
			add(math.Min(math.Max(float64(v), lo), hi))
		}
		got = vals(a.m.Clone().ClipInPlace(lo, hi))
	case "Abs":
		for _, v := range cs.A.D {
			add(math.Abs(float64(v)))
		}
		got = vals(a.m.Abs())
	case "Maximum", "Minimum":
		for i, v := range cs.A.D {
			if cs.Op == "Maximum" {
				add(math.Max(float64(v), float64(cs.B.D[i])))
			} else {
				add(math.Min(float64(v), float64(cs.B.D[i])))
			}
		}
		if cs.Op == "Maximum" {
			got = vals(a.m.Maximum(bm))
		} else {
			got = vals(a.m.Minimum(bm))
		}
	case "ArgMax":
		m := math.Inf(-1)
		for _, v := range cs.A.D {
			m = math.Max(m, float64(v))
		}
		add(m)
		if i := a.m.ArgMax(); i >= 0 && i < len(cs.A.D) {
			got = []float64{float64(cs.A.D[i])}
		}
	case "DotUnitary":
		add(dot(len(cs.A.D), func(k int) float64 { return float64(cs.A.D[k]) }, func(k int) float64 { return float64(cs.B.D[k]) }))
		got = vals(a.m.DotUnitary(bm))
	case "Mul":
		for i := 0; i < cs.A.R; i++ {
			for j := 0; j < cs.B.C; j++ {
				add(dot(cs.A.C, func(k int) float64 { return cs.A.At(i, k) }, func(k int) float64 { return cs.B.At(k, j) }))
			}
		}
		got = vals(a.m.Mul(bm))
	case "MulT":
		for i := 0; i < cs.A.C; i++ {
			add(dot(cs.A.R, func(k int) float64 { return cs.A.At(k, i) }, func(k int) float64 { return cs.B.At(k, 0) }))
		}
		got = vals(a.m.MulT(bm))
	}
	special := false
	ctx.Label("op=%s", cs.Op)
	if len(got) != len(want) {
		return errf("%s: %d elements, want %d", cs.Op, len(got), len(want))
	}
	for i, w := range want {
		if isOpen[i] {
			continue
		}
		special = special || w-w != 0
		if w != got[i] && !(math.IsNaN(w) && math.IsNaN(got[i])) {
			return errf("%s (float%d) of %dx%d: element %d is %v, want %v", cs.Op, cs.DT, cs.A.R, cs.A.C, i, got[i], w)
		}
	}
	ctx.NTIf(special)
	if err := a.intact(); err != nil {
		return err
	}
	if b != nil {
		return b.intact()
	}
	return nil
}

// --- matrix products ---------------------------------------------------------

type mulCase struct {
	DT, DT2 int
	M, K, N int
	A, B    gen.Mat
	T       bool
}

func genMul(t *rapid.T) mulCase {
	cs := mulCase{DT: gen.DT(t), T: gen.Chance(t, 30)}
	cs.DT2 = cs.DT
	if gen.Chance(t, 20) {
		cs.DT2 = 96 - cs.DT
	}
	lim, work := gen.Pick(t, 6, 20, 70, 140), 200000
	if gen.Large(t) {
		lim, work = gen.Pick(t, 300, 700, 3000), 4000000
	}
	cs.M, cs.K, cs.N = gen.Dim(t, 0, lim), gen.Dim(t, 0, lim), gen.Dim(t, 0, lim)
	if gen.Chance(t, 25) {
		cs.N = 1
	}
	for cs.M*cs.K*cs.N > work || cs.M*cs.K > 1000000 || cs.K*cs.N > 1000000 {
		if cs.K > 1000 {
			cs.K /= 2
			continue
		}
		cs.M, cs.N = (cs.M+1)/2, (cs.N+1)/2
	}
	if cs.T {
		cs.N = 1
		cs.A, cs.B = gen.Matrix(t, cs.K, cs.M), gen.Matrix(t, cs.K, 1)
	} else {
		cs.A, cs.B = gen.Matrix(t, cs.M, cs.K), gen.Matrix(t, cs.K, cs.N)
	}
	cs.A.Off, cs.B.Off = gen.U(t, 8), gen.U(t, 8)
	return cs
}

func evalMul(ctx *eng.Ctx, cs mulCase) error {
	a, b := cs.A.Round(cs.DT), cs.B.Round(cs.DT2)
	ga, gb := mkGuarded(cs.DT, a), mkGuarded(cs.DT2, b)
	br := b.Round(cs.DT)
	var got mat.Matrix
	if cs.T {
		got = ga.m.MulT(gb.m)
	} else {
		got = ga.m.Mul(gb.m)
	}
	want := make([]float64, cs.M*cs.N)
	ev := make([]float64, cs.M*cs.N)
	for i := 0; i < cs.M; i++ {
		for j := 0; j < cs.N; j++ {
			var s, e float64
			for k := 0; k < cs.K; k++ {
				x := 0.0
				if cs.T {
					x = a.At(k, i) * br.At(k, j)
				} else {
					x = a.At(i, k) * br.At(k, j)
				}
				s += x
				e += math.Abs(x)
			}
			want[i*cs.N+j], ev[i*cs.N+j] = s, e*float64(cs.K+2)+1e-3
		}
	}
	ctx.NTIf(cs.M*cs.K*cs.N > 1)
	ctx.Label("n=%s", sizeClass(cs.N))
	ctx.Label("k=%s", sizeClass(cs.K))
	what := fmt.Sprintf("Mul %dx%dx%d", cs.M, cs.K, cs.N)
	if err := expectVals(what, got, cs.DT, cs.M, cs.N, want, ev, 1); err != nil {
		return err
	}
	if err := ga.intact(); err != nil {
		return err
	}
	return gb.intact()
}

func init() {
	eng.Register("C01", "arith", "random operation, shape (0..70, block boundaries), element types and values vs a float64 scalar model with running error bound; non-trivial: more than one element", 100000, 2000000, genArith, evalArith)
	eng.Register("C01", "ieee", "element-wise operations on special values vs Go scalar arithmetic in the element type; non-trivial: a result is NaN, Inf or subnormal", 80000, 1500000, genIEEE, evalIEEE)
	eng.Register("C01", "long", "the arithmetic operations on matrices and vectors of 400 to 20000 elements, around powers of two and between, vs the same model; non-trivial: always", 2500, 60000, genLong, evalArith)
	eng.Register("C01", "reduce-special", "sums, cumulative sums, products, absolute values, clipping and extrema of small integers with infinities and NaN among them vs IEEE arithmetic (a zero times an infinity left open); non-trivial: a result is NaN or infinite", 20000, 500000, genRed, evalRed)
	eng.Register("C01", "matmul", "matrix products m x k x n (0..140) vs the naive triple loop with error bound; non-trivial: more than one multiplication", 30000, 500000, genMul, evalMul)
}
