package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
)

// bigCase is a structural operation on a large matrix or on many operands.
// The elements are 1, 2, 3, ... (exact in both element types), so that the
// case stays small: it stores the shapes only.
type bigCase struct {
	Op   string
	DT   int
	DT2  int
	R, C int
	// N lists the sizes of the operands of an operation of many operands;
	// the operand is a row vector where Row is set.
	N   []int
	Row []bool
	I   []int
	// Z is the period of the zeros among the elements.
	Z int
}

var bigOps = []string{"T", "TransposeInPlace", "Reshape", "ReshapeInPlace", "Flatten", "FlattenInPlace", "ResizeVector", "Slice", "Range",
	"ExtractRow", "ExtractColumn", "Stack", "ConcatV", "SplitV", "PadRows", "PadColumns", "AppendRows", "Augment", "SwapInPlace",
	"CloneCopy", "SetAt", "SetData", "Apply", "DoNonZero", "Construct"}

// logInt draws an integer of [lo, hi], evenly in the logarithm, with powers
// of two and their neighbours now and then.
func logInt(t *rapid.T, lo, hi int) int {
	v := int(math.Round(math.Exp(gen.Spread(t, math.Log(float64(lo)), math.Log(float64(hi)+0.49)))))
	if gen.Chance(t, 25) {
		p := 1
		for p*2 <= v {
			p *= 2
		}
		v = p + gen.UInt(t, -1, 1)
	}
	return max(lo, min(hi, v))
}

func genBig(t *rapid.T) bigCase {
	cs := bigCase{Op: gen.Pick(t, bigOps...), DT: gen.DT(t), Z: gen.Pick(t, 0, 0, 2, 7)}
	cs.DT2 = gen.DT(t)
	vec := func() { cs.R, cs.C = logInt(t, 60, 70000), 1 }
	mat := func() {
		switch gen.U(t, 4) {
		case 0:
			vec()
		case 1:
			cs.R = logInt(t, 30, 520)
			cs.C = cs.R
		default:
			cs.R = logInt(t, 1, 4000)
			cs.C = logInt(t, 1, max(1, min(4000, 200000/cs.R)))
		}
		if gen.Bool(t) {
			cs.R, cs.C = cs.C, cs.R
		}
	}
	many := func(total int) {
		n := logInt(t, 2, 300)
		for i := 0; i < n && total > 0; i++ {
			k := logInt(t, 1, max(1, min(total, 2000)))
			total -= k
			cs.N = append(cs.N, k)
			cs.Row = append(cs.Row, gen.Bool(t))
		}
	}
	cs.R, cs.C = 1, 1
	switch cs.Op {
	case "Reshape", "ReshapeInPlace":
		mat()
		n := cs.R * cs.C
		d := gen.Pick(t, divisors(n)...)
		cs.I = []int{d, n / d}
	case "ResizeVector":
		vec()
		cs.I = []int{logInt(t, 1, 70000)}
	case "Slice":
		mat()
		fr, fc := gen.U(t, cs.R), gen.U(t, cs.C)
		cs.I = []int{fr, fc, gen.UInt(t, fr, cs.R), gen.UInt(t, fc, cs.C)}
		if gen.Chance(t, 30) {
			cs.I[0], cs.I[2] = 0, cs.R
		}
		if gen.Chance(t, 30) {
			cs.I[1], cs.I[3] = 0, cs.C
		}
	case "Range":
		vec()
		s := gen.U(t, cs.R)
		cs.I = []int{s, gen.UInt(t, s, cs.R)}
	case "ExtractRow":
		mat()
		cs.I = []int{gen.U(t, cs.R)}
	case "ExtractColumn":
		mat()
		cs.I = []int{gen.U(t, cs.C)}
	case "Stack":
		n, k := logInt(t, 2, 400), logInt(t, 1, 300)
		for i := 0; i < n; i++ {
			cs.N, cs.Row = append(cs.N, k), append(cs.Row, gen.Bool(t))
		}
	case "ConcatV":
		many(60000)
	case "SplitV":
		many(60000)
		cs.I = cs.N
		for _, k := range cs.N {
			cs.R += k
		}
		cs.N, cs.Row = nil, nil
		cs.R += gen.U(t, 3) - 1
	case "PadRows", "PadColumns":
		mat()
		cs.I = []int{logInt(t, 1, max(1, min(1000, 100000/max(cs.R, cs.C))))}
	case "AppendRows":
		cs.R, cs.C = logInt(t, 1, 200), logInt(t, 1, 300)
		n := logInt(t, 1, 200)
		for i := 0; i < n; i++ {
			cs.N, cs.Row = append(cs.N, cs.C), append(cs.Row, gen.Bool(t))
		}
	case "Augment":
		cs.R = logInt(t, 10, 400)
		cs.C = cs.R
	case "SwapInPlace":
		mat()
		cs.I = []int{gen.U(t, cs.R), gen.U(t, cs.R)}
	case "SetAt":
		mat()
		cs.I = []int{gen.U(t, cs.R), gen.U(t, cs.C), gen.U(t, 4)}
	case "Construct":
		mat()
		n := logInt(t, 10, 400)
		cs.I = []int{n, gen.U(t, n)}
	default:
		mat()
	}
	return cs
}

func (cs bigCase) mat(r, c, from int) gen.Mat {
	m := gen.Mat{R: r, C: c, D: make([]F, r*c), Off: from % 4}
	for i := range m.D {
		if cs.Z == 0 || (from+i)%cs.Z != 1 {
			m.D[i] = F(1 + (from+i)%(1<<23))
		}
	}
	return m
}

func evalBig(ctx *eng.Ctx, cs bigCase) error {
	sc := structCase{Op: cs.Op, DT: cs.DT, DT2: cs.DT2, I: cs.I, V: -0.5}
	sc.A = cs.mat(cs.R, cs.C, 0)
	from := len(sc.A.D)
	for i, n := range cs.N {
		r, c := n, 1
		if cs.Row[i] {
			r, c = 1, n
		}
		sc.Vs = append(sc.Vs, cs.mat(r, c, from))
		from += n
	}
	if cs.Op == "SetData" {
		sc.Vs = []gen.Mat{cs.mat(cs.R, cs.C, from)}
	}
	return evalStruct(ctx, sc)
}

func init() {
	eng.Register("C02", "big", "the structural operations on matrices of up to 270000 elements and on up to 400 operands; the same index model, exact; non-trivial: always", 4000, 100000, genBig, evalBig)
}
