package props

import (
	"fmt"
	"math"
	"sort"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// opCase is one operator applied to operands.
type opCase struct {
	Op  string
	DT  int
	Xs  []gen.Mat
	Req []int // per operand: 0 constant, 1 leaf with gradient, 2 operator with gradient
	I   []int
	P   []F
	Gy  []F
	Al  []int `json:",omitempty"` // >0: operand i is the same tensor as operand Al[i]-1
	Nil []int `json:",omitempty"` // Affine: pairs without input inserted before pair i
	// while generating: the elements left to distribute over large dimensions
	budget int
}

// ext draws a dimension or a number of operands; a large case draws some of
// them up to hundreds.
func (cs *opCase) ext(t *rapid.T, lo, hi, more int) int {
	if cs.budget == 0 {
		return gen.Ext(t, lo, hi, more)
	}
	if cs.budget <= hi || gen.Chance(t, 35) {
		return gen.UInt(t, lo, hi)
	}
	n := max(lo, gen.Dim(t, min(hi, cs.budget), min(300, cs.budget)))
	cs.budget = max(1, cs.budget/max(1, n))
	return n
}

// rescale multiplies operands by powers of ten, sets elements to zero or to
// those of other elements.
func (cs *opCase) rescale(t *rapid.T) {
	if unaryFns[cs.Op] != nil {
		return
	}
	for i := range cs.Xs {
		x := &cs.Xs[i]
		switch gen.U(t, 5) {
		case 0, 1:
			f := F(gen.LogPos(t, -8, 8))
			for k := range x.D {
				x.D[k] *= f
			}
		case 2:
			if cs.Op == "Div" || cs.Op == "DivScalar" {
				continue
			}
			n, v := gen.UInt(t, 1, len(x.D)), F(gen.Pick(t, 0, 1, -1, 1e-8, 1))
			for k := 0; k < n; k++ {
				x.D[k] = v
			}
		case 3:
			n, m := gen.UInt(t, 1, len(x.D)), gen.UInt(t, 1, 4)
			for k := m; k < n; k++ {
				x.D[k] = x.D[k-m]
			}
		}
	}
	if f := F(gen.LogPos(t, -8, 6)); gen.Bool(t) {
		for k := range cs.Gy {
			cs.Gy[k] *= f
		}
	}
}

type opSpec struct {
	gen   func(t *rapid.T, cs *opCase)
	apply func(xs []mat.Tensor, cs *opCase) []mat.Tensor
	ref   func(t *ref.Tape, xs []ref.M, cs *opCase) []ref.M
}

func shape2(t *rapid.T, cs *opCase) (int, int) {
	if gen.Large(t) && gen.Bool(t) {
		switch n := gen.Dim(t, 100, 1500); gen.U(t, 3) {
		case 0:
			return 1, n
		case 1:
			return n, 1
		default:
			return gen.UInt(t, 2, 40), gen.UInt(t, 2, 40)
		}
	}
	switch gen.U(t, 5) {
	case 0:
		return 1, cs.ext(t, 1, 9, 130)
	case 1:
		return cs.ext(t, 1, 9, 130), 1
	case 2:
		return 1, 1
	}
	r := cs.ext(t, 1, 5, 34)
	if gen.Chance(t, 15) {
		if r <= 5 && gen.Chance(t, 20) {
			r = gen.UInt(t, 5, 34)
		}
		return r, min(r, 40)
	}
	return r, cs.ext(t, 1, 5, 34)
}

func gvec(t *rapid.T, n int) gen.Mat {
	if gen.Bool(t) {
		return gen.GenericMat(t, 1, n, 2)
	}
	return gen.GenericMat(t, n, 1, 2)
}

func gscalar(t *rapid.T) gen.Mat { return gen.GenericMat(t, 1, 1, 2) }

// awayFrom0 draws values with magnitude in [0.3, 2.5].
func awayFrom0(t *rapid.T) float64 {
	v := gen.Spread(t, 0.3, 2.5)
	if gen.Bool(t) {
		return -v
	}
	return v
}

func one1(f func(xs []mat.Tensor, cs *opCase) mat.Tensor) func([]mat.Tensor, *opCase) []mat.Tensor {
	return func(xs []mat.Tensor, cs *opCase) []mat.Tensor { return []mat.Tensor{f(xs, cs)} }
}

func ref1(f func(t *ref.Tape, xs []ref.M, cs *opCase) ref.M) func(*ref.Tape, []ref.M, *opCase) []ref.M {
	return func(t *ref.Tape, xs []ref.M, cs *opCase) []ref.M { return []ref.M{f(t, xs, cs)} }
}

func genSame(n int) func(t *rapid.T, cs *opCase) {
	return func(t *rapid.T, cs *opCase) {
		r, c := shape2(t, cs)
		for i := 0; i < n; i++ {
			cs.Xs = append(cs.Xs, gen.GenericMat(t, r, c, 2))
		}
	}
}

func binOp(f func(a, b mat.Tensor) mat.Tensor, r func(a, b ref.M) ref.M) *opSpec {
	return &opSpec{gen: genSame(2), apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return f(xs[0], xs[1]) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M { return r(xs[0], xs[1]) })}
}

func scalarOp(f func(a, b mat.Tensor) mat.Tensor, r func(a ref.M, s ref.V) ref.M) *opSpec {
	return &opSpec{gen: func(t *rapid.T, cs *opCase) {
		m, n := shape2(t, cs)
		cs.Xs = []gen.Mat{gen.GenericMat(t, m, n, 2), gen.MatOf(t, 1, 1, awayFrom0)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return f(xs[0], xs[1]) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M { return r(xs[0], xs[1].D[0]) })}
}

func unOp(g func(t *rapid.T, cs *opCase), f func(x mat.Tensor, cs *opCase) mat.Tensor, r func(t *ref.Tape, x ref.M, cs *opCase) ref.M) *opSpec {
	return &opSpec{gen: g, apply: one1(func(xs []mat.Tensor, cs *opCase) mat.Tensor { return f(xs[0], cs) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, cs *opCase) ref.M { return r(t, xs[0], cs) })}
}

func zipM(a, b ref.M, f func(x, y ref.V) ref.V) ref.M {
	o := ref.NewM(a.R, a.C)
	for i := range a.D {
		o.D[i] = f(a.D[i], b.D[i])
	}
	return o
}

// selRef selects elements.
func selRef(r, c int, at func(i, j int) ref.V) ref.M {
	o := ref.NewM(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			o.D[i*c+j] = at(i, j)
		}
	}
	return o
}

func foldMax(vs []ref.V) ref.V {
	m := vs[0]
	for _, v := range vs[1:] {
		m = m.Max(v)
	}
	return m
}

func foldMin(vs []ref.V) ref.V {
	m := vs[0]
	for _, v := range vs[1:] {
		m = m.Min(v)
	}
	return m
}

// sparsemaxTau returns the support (as indices) and the threshold.
func sparsemaxTau(vs []ref.V) ([]int, ref.V) {
	t := vs[0].Tape()
	idx := make([]int, len(vs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return vs[idx[a]].X() > vs[idx[b]].X() })
	k, cum := 0, 0.0
	for i, p := range idx {
		cum += vs[p].X()
		if 1+float64(i+1)*vs[p].X() > cum {
			k = i + 1
		}
	}
	sup := idx[:k]
	s := make([]ref.V, k)
	for i, p := range sup {
		s[i] = vs[p]
	}
	tau := ref.SumV(t, s).AddC(-1).MulC(1 / float64(k))
	for _, v := range vs {
		v.Branch(v.X() - tau.X())
	}
	return sup, tau
}

func refSparsemax(t *ref.Tape, vs []ref.V) []ref.V {
	sup, tau := sparsemaxTau(vs)
	out := make([]ref.V, len(vs))
	for i := range out {
		out[i] = t.C(0)
	}
	for _, p := range sup {
		out[p] = vs[p].Sub(tau)
	}
	return out
}

func refSparsemaxLoss(t *ref.Tape, vs []ref.V) []ref.V {
	sup, tau := sparsemaxTau(vs)
	reg := t.C(0)
	for _, p := range sup {
		reg = reg.Add(vs[p].Square().Sub(tau.Square()))
	}
	reg = reg.MulC(0.5).AddC(0.5)
	out := make([]ref.V, len(vs))
	for i := range out {
		out[i] = vs[i].Sub(reg)
	}
	return out
}

func genVecN(lo, hi int, scale float64) func(t *rapid.T, cs *opCase) {
	return func(t *rapid.T, cs *opCase) {
		n := cs.ext(t, lo, hi, 70)
		if gen.Bool(t) {
			cs.Xs = []gen.Mat{gen.GenericMat(t, 1, n, scale)}
		} else {
			cs.Xs = []gen.Mat{gen.GenericMat(t, n, 1, scale)}
		}
	}
}

func genAny(t *rapid.T, cs *opCase) {
	r, c := shape2(t, cs)
	cs.Xs = []gen.Mat{gen.GenericMat(t, r, c, 2)}
}

// outVec keeps the shape convention of vector-to-vector functions that always
// return a column.
func colM(vs []ref.V) ref.M { return ref.M{R: len(vs), C: 1, D: vs} }

var opSpecs = map[string]*opSpec{
	"Add":  binOp(ag.Add, ref.M.Add),
	"Sub":  binOp(ag.Sub, ref.M.Sub),
	"Prod": binOp(ag.Prod, ref.M.Prod),
	"Max":  binOp(ag.Max, func(a, b ref.M) ref.M { return zipM(a, b, ref.V.Max) }),
	"Min":  binOp(ag.Min, func(a, b ref.M) ref.M { return zipM(a, b, ref.V.Min) }),
	"Div": {gen: func(t *rapid.T, cs *opCase) {
		r, c := shape2(t, cs)
		cs.Xs = []gen.Mat{gen.GenericMat(t, r, c, 2), gen.MatOf(t, r, c, awayFrom0)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Div(xs[0], xs[1]) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M { return xs[0].Div(xs[1]) })},
	"Dot": {gen: genSame(2), apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Dot(xs[0], xs[1]) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M { return colM([]ref.V{ref.Dot(t, xs[0].D, xs[1].D)}) })},
	"AddScalar":  scalarOp(ag.AddScalar, ref.M.AddV),
	"SubScalar":  scalarOp(ag.SubScalar, ref.M.SubV),
	"ProdScalar": scalarOp(ag.ProdScalar, ref.M.ScaleV),
	"DivScalar":  scalarOp(ag.DivScalar, ref.M.DivV),
	"ReverseSub": scalarOp(ag.ReverseSub, func(a ref.M, s ref.V) ref.M { return a.Map(func(v ref.V) ref.V { return s.Sub(v) }) }),
	"ReverseSubOne": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.ReverseSubOne(x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M {
			return x.Map(func(v ref.V) ref.V { return v.Neg().AddC(1) })
		}),
	"Mul": {gen: func(t *rapid.T, cs *opCase) {
		r, k, c := cs.ext(t, 1, 5, 34), cs.ext(t, 1, 5, 34), cs.ext(t, 1, 4, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, r, k, 2), gen.GenericMat(t, k, c, 2)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Mul(xs[0], xs[1]) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M { return xs[0].Mul(t, xs[1]) })},
	"MulT": {gen: func(t *rapid.T, cs *opCase) {
		r, k := cs.ext(t, 1, 5, 34), cs.ext(t, 1, 5, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, k, r, 2), gen.GenericMat(t, k, 1, 2)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.MulT(xs[0], xs[1]) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M { return xs[0].T().Mul(t, xs[1]) })},
	"Affine": {gen: func(t *rapid.T, cs *opCase) {
		r, c := cs.ext(t, 1, 5, 34), 1
		if gen.Chance(t, 30) {
			c = cs.ext(t, 1, 3, 34)
		}
		cs.Xs = []gen.Mat{gen.GenericMat(t, r, c, 2)}
		for n := cs.ext(t, 1, 3, 34); n > 0; n-- {
			k := cs.ext(t, 1, 5, 34)
			cs.Xs = append(cs.Xs, gen.GenericMat(t, r, k, 2), gen.GenericMat(t, k, c, 2))
		}
		if gen.Chance(t, 30) {
			cs.Nil = gen.List(t, 1, 3, func(t *rapid.T) int { return gen.U(t, 60) })
		}
	}, apply: one1(func(xs []mat.Tensor, cs *opCase) mat.Tensor {
		var ps []mat.Tensor
		for i := 3; i <= len(xs); i += 2 {
			for k := 0; k < len(cs.Nil); k++ {
				if cs.Nil[k]%len(xs)/2 == i/2-1 {
					ps = append(ps, xs[1], nil) // ignored by documentation
				}
			}
			if i < len(xs) {
				ps = append(ps, xs[i], xs[i+1])
			}
		}
		return ag.Affine(xs[0], xs[1], xs[2], ps...)
	}),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M {
			y := xs[0]
			for i := 1; i < len(xs); i += 2 {
				y = y.Add(xs[i].Mul(t, xs[i+1]))
			}
			return y
		})},
	"AppendRows": {gen: func(t *rapid.T, cs *opCase) {
		r, c := cs.ext(t, 1, 4, 34), cs.ext(t, 1, 5, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, r, c, 2)}
		for n := cs.ext(t, 0, 3, 34); n > 0; n-- {
			cs.Xs = append(cs.Xs, gvec(t, c))
		}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.AppendRows(xs[0], xs[1:]...) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M {
			o := ref.M{R: xs[0].R + len(xs) - 1, C: xs[0].C}
			for _, x := range xs {
				o.D = append(o.D, x.D...)
			}
			return o
		})},
	"Concat": {gen: func(t *rapid.T, cs *opCase) {
		for n := cs.ext(t, 1, 4, 34); n > 0; n-- {
			cs.Xs = append(cs.Xs, gvec(t, cs.ext(t, 1, 5, 34)))
		}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Concat(xs...) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M { return ref.Concat(xs...) })},
	"Stack": {gen: func(t *rapid.T, cs *opCase) {
		k := cs.ext(t, 1, 5, 34)
		for n := cs.ext(t, 1, 4, 34); n > 0; n-- {
			cs.Xs = append(cs.Xs, gvec(t, k))
		}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Stack(xs...) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M {
			return ref.Concat(xs...).Reshape(len(xs), len(xs[0].D))
		})},
	"At": unOp(func(t *rapid.T, cs *opCase) {
		genAny(t, cs)
		cs.I = []int{gen.U(t, cs.Xs[0].R), gen.U(t, cs.Xs[0].C)}
		if (cs.Xs[0].R == 1 || cs.Xs[0].C == 1) && gen.Bool(t) {
			cs.I = []int{gen.U(t, len(cs.Xs[0].D))}
		}
	}, func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.At(x, cs.I...) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M {
			if len(cs.I) == 1 {
				return colM([]ref.V{x.D[cs.I[0]]})
			}
			return colM([]ref.V{x.At(cs.I[0], cs.I[1])})
		}),
	"RowView": unOp(func(t *rapid.T, cs *opCase) { genAny(t, cs); cs.I = []int{gen.U(t, cs.Xs[0].R)} },
		func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.RowView(x, cs.I[0]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M { return x.Row(cs.I[0]) }),
	"ColView": unOp(func(t *rapid.T, cs *opCase) { genAny(t, cs); cs.I = []int{gen.U(t, cs.Xs[0].C)} },
		func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.ColView(x, cs.I[0]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M {
			return selRef(x.R, 1, func(i, _ int) ref.V { return x.At(i, cs.I[0]) })
		}),
	"RowViews": {gen: genAny, apply: func(xs []mat.Tensor, _ *opCase) []mat.Tensor { return ag.RowViews(xs[0]) },
		ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
			for i := 0; i < xs[0].R; i++ {
				o = append(o, xs[0].Row(i))
			}
			return
		}},
	"ColViews": {gen: genAny, apply: func(xs []mat.Tensor, _ *opCase) []mat.Tensor { return ag.ColViews(xs[0]) },
		ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
			for j := 0; j < xs[0].C; j++ {
				o = append(o, selRef(xs[0].R, 1, func(i, _ int) ref.V { return xs[0].At(i, j) }))
			}
			return
		}},
	"SeparateMatrix": {gen: genAny, apply: func(xs []mat.Tensor, _ *opCase) (o []mat.Tensor) {
		for _, r := range ag.SeparateMatrix(xs[0]) {
			o = append(o, r...)
		}
		return
	}, ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
		for _, v := range xs[0].D {
			o = append(o, colM([]ref.V{v}))
		}
		return
	}},
	"SeparateVec": {gen: genVecN(1, 7, 2), apply: func(xs []mat.Tensor, _ *opCase) []mat.Tensor { return ag.SeparateVec(xs[0]) },
		ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
			for _, v := range xs[0].D {
				o = append(o, colM([]ref.V{v}))
			}
			return
		}},
	"SplitVec": {gen: func(t *rapid.T, cs *opCase) {
		k, n := cs.ext(t, 1, 4, 34), cs.ext(t, 1, 4, 34)
		cs.Xs, cs.I = []gen.Mat{gen.GenericMat(t, k*n, 1, 2)}, []int{n}
	}, apply: func(xs []mat.Tensor, cs *opCase) []mat.Tensor { return ag.SplitVec(xs[0], cs.I[0]) },
		ref: func(_ *ref.Tape, xs []ref.M, cs *opCase) (o []ref.M) {
			k := len(xs[0].D) / cs.I[0]
			for i := 0; i < cs.I[0]; i++ {
				o = append(o, colM(xs[0].D[i*k:(i+1)*k]))
			}
			return
		}},
	"Slice": unOp(func(t *rapid.T, cs *opCase) {
		genAny(t, cs)
		r, c := cs.Xs[0].R, cs.Xs[0].C
		fr, fc := gen.U(t, r), gen.U(t, c)
		cs.I = []int{fr, fc, gen.UInt(t, fr+1, r), gen.UInt(t, fc+1, c)}
	}, func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.Slice(x, cs.I[0], cs.I[1], cs.I[2], cs.I[3]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M {
			return selRef(cs.I[2]-cs.I[0], cs.I[3]-cs.I[1], func(i, j int) ref.V { return x.At(i+cs.I[0], j+cs.I[1]) })
		}),
	"Flatten": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Flatten(x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x.RowV() }),
	"Reshape": unOp(func(t *rapid.T, cs *opCase) {
		genAny(t, cs)
		n := len(cs.Xs[0].D)
		d := gen.Pick(t, divisors(n)...)
		cs.I = []int{d, n / d}
	}, func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.Reshape(x, cs.I[0], cs.I[1]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M { return x.Reshape(cs.I[0], cs.I[1]) }),
	"T": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.T(x) }, func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x.T() }),
	"Copy": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Copy(x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x }),
	"AddNil": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Add(nil, x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x }),
	"RotateR": unOp(func(t *rapid.T, cs *opCase) {
		n := cs.ext(t, 1, 8, 34)
		cs.Xs, cs.I = []gen.Mat{gen.GenericMat(t, n, 1, 2)}, []int{gen.UInt(t, 0, n)}
	}, func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.RotateR(x, cs.I[0]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M {
			n := len(x.D)
			return selRef(n, 1, func(i, _ int) ref.V { return x.D[((i-cs.I[0])%n+n)%n] })
		}),
	"ReduceSum": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.ReduceSum(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return colM([]ref.V{x.Sum(t)}) }),
	"ReduceMean": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.ReduceMean(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return colM([]ref.V{ref.MeanV(t, x.D)}) }),
	"ReduceMax": unOp(genVecN(1, 8, 2), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.ReduceMax(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return colM([]ref.V{foldMax(x.D)}) }),
	"ScalarMax": {gen: func(t *rapid.T, cs *opCase) {
		off := gen.Pick(t, 0.0, 0, -5, 5)
		for n := cs.ext(t, 1, 5, 34); n > 0; n-- {
			m := gscalar(t)
			m.D[0] += F(off)
			cs.Xs = append(cs.Xs, m)
		}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.ScalarMax(xs) }),
		ref: ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M { return colM([]ref.V{foldMax(ref.Concat(xs...).D)}) })},
	"MaxPooling": unOp(func(t *rapid.T, cs *opCase) {
		k, l := cs.ext(t, 1, 3, 34), cs.ext(t, 1, 3, 34)
		cs.I = []int{k, l}
		m := gen.GenericMat(t, k*cs.ext(t, 1, 3, 34), l*cs.ext(t, 1, 3, 34), 2)
		if gen.Chance(t, 30) {
			for i := range m.D {
				m.D[i] -= 4
			}
		}
		cs.Xs = []gen.Mat{m}
	}, func(x mat.Tensor, cs *opCase) mat.Tensor { return ag.MaxPooling(x, cs.I[0], cs.I[1]) },
		func(_ *ref.Tape, x ref.M, cs *opCase) ref.M {
			k, l := cs.I[0], cs.I[1]
			return selRef(x.R/k, x.C/l, func(i, j int) ref.V {
				var w []ref.V
				for a := 0; a < k; a++ {
					for b := 0; b < l; b++ {
						w = append(w, x.At(i*k+a, j*l+b))
					}
				}
				return foldMax(w)
			})
		}),
	"Softmax": unOp(genVecN(1, 8, 4), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Softmax(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return colM(ref.Softmax(t, x.D)) }),
	"SparseMax": unOp(func(t *rapid.T, cs *opCase) {
		genVecN(1, 8, 2)(t, cs)
		if off := gen.Pick(t, 0.0, 0, -7, 3); off != 0 {
			for i := range cs.Xs[0].D {
				cs.Xs[0].D[i] += F(off)
			}
		}
	}, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.SparseMax(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return ref.M{R: x.R, C: x.C, D: refSparsemax(t, x.D)} }),
	"SparseMaxLoss": unOp(genVecN(1, 8, 2), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.SparseMaxLoss(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return ref.M{R: x.R, C: x.C, D: refSparsemaxLoss(t, x.D)} }),
	"LogSoftmax": unOp(genVecN(1, 8, 4), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.LogSoftmax(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M {
			l := ref.LogSumExp(t, x.D)
			return colM(x.SubV(l).D)
		}),
	"LogSumExp": unOp(genVecN(1, 8, 4), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.LogSumExp(x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return colM([]ref.V{ref.LogSumExp(t, x.D)}) }),
	"LogSumExpN": {gen: func(t *rapid.T, cs *opCase) {
		off := gen.Pick(t, 0.0, 0, -5, 5)
		for n := cs.ext(t, 2, 5, 34); n > 0; n-- {
			m := gscalar(t)
			m.D[0] += F(off)
			cs.Xs = append(cs.Xs, m)
		}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.LogSumExp(xs...) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M {
			return colM([]ref.V{ref.LogSumExp(t, ref.Concat(xs...).D)})
		})},
	"Sum":  {gen: genSameN, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Sum(xs...) }), ref: foldRef(ref.V.Add, 0)},
	"Mean": {gen: genSameN, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Mean(xs) }), ref: foldRef(ref.V.Add, 1)},
	"Maximum": {gen: genSameN, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Maximum(xs) }),
		ref: foldRef(ref.V.Max, 0)},
	"Minimum": {gen: genSameN, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.Minimum(xs) }),
		ref: foldRef(ref.V.Min, 0)},
	"BiLinear": {gen: func(t *rapid.T, cs *opCase) {
		k, l := cs.ext(t, 1, 4, 34), cs.ext(t, 1, 4, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, k, l, 2), gen.GenericMat(t, k, 1, 2), gen.GenericMat(t, l, 1, 2)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor { return ag.BiLinear(xs[0], xs[1], xs[2]) }),
		ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M { return xs[1].T().Mul(t, xs[0]).Mul(t, xs[2]) })},
	"BiAffine": {gen: func(t *rapid.T, cs *opCase) {
		k, l := cs.ext(t, 1, 4, 34), cs.ext(t, 1, 4, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, k, l, 2), gen.GenericMat(t, k, 1, 2), gen.GenericMat(t, l, 1, 2), gscalar(t), gen.GenericMat(t, k, 1, 2), gen.GenericMat(t, l, 1, 2)}
	}, apply: one1(func(xs []mat.Tensor, _ *opCase) mat.Tensor {
		return ag.BiAffine(xs[0], xs[1], xs[2], xs[3], xs[4], xs[5])
	}), ref: ref1(func(t *ref.Tape, xs []ref.M, _ *opCase) ref.M {
		return xs[4].T().Mul(t, xs[0]).Mul(t, xs[5]).Add(xs[1].T().Mul(t, xs[4])).Add(xs[2].T().Mul(t, xs[5])).Add(xs[3])
	})},
	"Map": {gen: genSameN, apply: func(xs []mat.Tensor, _ *opCase) []mat.Tensor { return ag.Map(ag.Neg, xs) },
		ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
			for _, x := range xs {
				o = append(o, x.Map(ref.V.Neg))
			}
			return
		}},
	"Map2": {gen: func(t *rapid.T, cs *opCase) { genSame(2*cs.ext(t, 1, 2, 20))(t, cs) },
		apply: func(xs []mat.Tensor, _ *opCase) []mat.Tensor {
			h := len(xs) / 2
			return ag.Map2(ag.Sub, xs[:h], xs[h:])
		},
		ref: func(_ *ref.Tape, xs []ref.M, _ *opCase) (o []ref.M) {
			h := len(xs) / 2
			for i := range xs[:h] {
				o = append(o, xs[i].Sub(xs[h+i]))
			}
			return
		}},
	"Pad": {gen: func(t *rapid.T, cs *opCase) {
		genSameN(t, cs)
		cs.I = []int{cs.ext(t, 0, 6, 34), gen.UInt(t, 0, 3)}
	}, apply: func(xs []mat.Tensor, cs *opCase) []mat.Tensor {
		in := append(make([]mat.Tensor, 0, len(xs)+16*cs.I[1]), xs...)
		next := len(xs)
		ys := ag.Pad(in, cs.I[0], func(i int) mat.Tensor {
			if i != next {
				panic(fmt.Sprintf("ag.Pad asks for the padding of position %d after %d", i, next))
			}
			next++
			return mk(cs.DT, gen.Mat{R: 1, C: 1, D: []F{F(i)}}, false)
		})
		for i, x := range in[:cap(in)] {
			if i < len(xs) && x != xs[i] || i >= len(xs) && x != nil {
				panic("ag.Pad writes to the given slice")
			}
		}
		return ys
	}, ref: func(t *ref.Tape, xs []ref.M, cs *opCase) (o []ref.M) {
		for i := 0; i < cs.I[0]; i++ {
			if i < len(xs) {
				o = append(o, xs[i])
			} else {
				o = append(o, t.Leaf(1, 1, []float64{float64(i)}))
			}
		}
		return
	}},
	"DropoutZero": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Copy(ag.Dropout(x, 0)) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x }),
	// One operand used twice.
	"ProdSelf": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Prod(x, x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x.Prod(x) }),
	"AddSelf": unOp(genAny, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Add(x, x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return x.Add(x) }),
	"MulSelf": unOp(func(t *rapid.T, cs *opCase) {
		n := cs.ext(t, 1, 4, 34)
		cs.Xs = []gen.Mat{gen.GenericMat(t, n, n, 2)}
	}, func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Mul(x, x) },
		func(t *ref.Tape, x ref.M, _ *opCase) ref.M { return x.Mul(t, x) }),
	"ConcatSelf": unOp(genVecN(1, 5, 2), func(x mat.Tensor, _ *opCase) mat.Tensor { return ag.Concat(x, x, x) },
		func(_ *ref.Tape, x ref.M, _ *opCase) ref.M { return ref.Concat(x, x, x) }),
}

func genSameN(t *rapid.T, cs *opCase) { genSame(cs.ext(t, 1, 4, 34))(t, cs) }

func foldRef(f func(a, b ref.V) ref.V, mean int) func(*ref.Tape, []ref.M, *opCase) []ref.M {
	return ref1(func(_ *ref.Tape, xs []ref.M, _ *opCase) ref.M {
		y := xs[0]
		for _, x := range xs[1:] {
			y = zipM(y, x, f)
		}
		if mean == 1 {
			y = y.Scale(1 / float64(len(xs)))
		}
		return y
	})
}

// The element-wise functions join the table, their parameters being operands.
func init() {
	for _, name := range unaryNames {
		u := unaryFns[name]
		if opSpecs[name] != nil {
			continue
		}
		opSpecs[name] = &opSpec{
			gen: func(t *rapid.T, cs *opCase) {
				r, c := shape2(t, cs)
				cs.Xs = []gen.Mat{gen.MatOf(t, r, c, func(t *rapid.T) float64 {
					v := awayFrom0(t) * gen.Pick(t, 1, 1, 0.2, 3)
					if !u.domain(v) {
						return -v
					}
					return v
				})}
				if u.params != nil {
					for _, p := range u.params(t) {
						cs.P = append(cs.P, F(p))
						if u.dp != nil {
							cs.Xs = append(cs.Xs, gen.Mat{R: 1, C: 1, D: []F{F(p)}})
						}
					}
				}
			},
			apply: one1(func(xs []mat.Tensor, cs *opCase) mat.Tensor {
				pv := make([]float64, len(cs.P))
				for i, p := range cs.P {
					pv[i] = float64(p)
				}
				return u.apply(xs[0], xs[1:], pv)
			}),
			ref: ref1(func(t *ref.Tape, xs []ref.M, cs *opCase) ref.M {
				return xs[0].Map(func(v ref.V) ref.V {
					pv := make([]float64, len(cs.P))
					for i, p := range cs.P {
						pv[i] = float64(p)
						if u.dp != nil {
							pv[i] = xs[1+i].D[0].X()
						}
					}
					v.Branch(u.kink(v.X(), pv))
					y, d := u.f(v.X(), pv)
					o := v.FnD(y, d, 30+u.scale(v.X(), pv)/math.Max(math.Abs(y), 1e-300), u.derr(v, d, pv))
					if u.dp != nil {
						for i, dp := range u.dp(v.X(), pv) {
							o = o.Add(xs[1+i].D[0].Fn(0, dp, 0))
						}
					}
					return o
				})
			}),
		}
	}
}

func gyOf(dt, r, c int, pat []F, salt int) gen.Mat {
	m := gen.Mat{R: r, C: c, D: make([]F, r*c)}
	for i := range m.D {
		m.D[i] = pat[(i*3+i/len(pat)+salt)%len(pat)]
	}
	return m.Round(dt)
}

func evalOp(ctx *eng.Ctx, cs opCase) error {
	sp := opSpecs[cs.Op]
	if sp == nil {
		return errf("harness: unknown operator %q", cs.Op)
	}
	ctx.Label("%s", cs.Op)
	tp := ref.NewTape()
	leaves := make([]mat.Matrix, len(cs.Xs))
	before := make([]snap, len(cs.Xs))
	xs := make([]mat.Tensor, len(cs.Xs))
	rs := make([]ref.M, len(cs.Xs))
	for i, x := range cs.Xs {
		x = x.Round(cs.DT)
		leaves[i] = mk(cs.DT, x, cs.Req[i] > 0)
		before[i] = snapOf(leaves[i])
		xs[i] = leaves[i]
		if cs.Req[i] == 2 {
			xs[i] = ag.Copy(leaves[i])
		}
		rs[i] = tp.Leaf(x.R, x.C, x.Floats())
	}
	for i, j := range cs.Al {
		if j > 0 && j <= i {
			leaves[i], before[i], xs[i], rs[i], cs.Req[i] = leaves[j-1], before[j-1], xs[j-1], rs[j-1], cs.Req[j-1]
			ctx.Label("shared")
		}
	}
	want := sp.ref(tp, rs, &cs)
	got := sp.apply(xs, &cs)
	if len(got) != len(want) {
		return errf("ag.%s: %d results, want %d", cs.Op, len(got), len(want))
	}
	var outs []ref.V
	var seeds []float64
	var roots []mat.Tensor
	var gys []mat.Matrix
	var gySnaps []snap
	anyReq := false
	for _, r := range cs.Req {
		anyReq = anyReq || r > 0
	}
	for i, y := range got {
		if err := expectRef("ag."+cs.Op, y.Value(), cs.DT, want[i], 8); err != nil {
			return err
		}
		gy := gyOf(cs.DT, want[i].R, want[i].C, cs.Gy, i)
		for k, v := range want[i].D {
			outs = append(outs, v)
			seeds = append(seeds, float64(gy.D[k]))
		}
		if !y.RequiresGrad() { // no operand with gradients, or they will be missed below
			continue
		}
		g := mk(cs.DT, gy, false)
		s := snapOf(g)
		y.AccGrad(g)
		if _, ok := y.(*ag.Operator); ok {
			roots = append(roots, y)
		}
		gys = append(gys, g)
		gySnaps = append(gySnaps, s)
	}
	if !anyReq {
		for i, y := range got {
			if y.RequiresGrad() {
				return errf("ag.%s: result %d requires gradients although no operand does", cs.Op, i)
			}
		}
		return nil
	}
	if len(got) > 0 && len(gys) == 0 && cs.Op != "Pad" {
		return errf("ag.%s: no result requires gradients although an operand does", cs.Op)
	}
	if err := ag.Backward(roots...); err != nil {
		return errf("ag.%s: Backward failed: %v", cs.Op, err)
	}
	for i, l := range leaves {
		if err := before[i].same(l); err != nil {
			return errf("ag.%s: operand %d modified: %v", cs.Op, i, err)
		}
		if cs.Req[i] == 0 && l.HasGrad() {
			return errf("ag.%s: operand %d does not require gradients but received one", cs.Op, i)
		}
	}
	for i, g := range gys {
		if err := gySnaps[i].same(g); err != nil {
			return errf("ag.%s: the output gradient was modified: %v", cs.Op, err)
		}
	}
	if tp.Kink < 2e-3 {
		return nil
	}
	gr := tp.Backward(outs, seeds)
	ctx.NT()
	floor := 1e-12 // no operator but the functions mixes magnitudes of itself
	if unaryFns[cs.Op] != nil {
		floor = 1e-3
	}
	for i, l := range leaves {
		if cs.Req[i] == 0 {
			continue
		}
		if err := expectGradFloor(errf("ag.%s: operand %d (requires-grad pattern %v)", cs.Op, i, cs.Req).Error(), l, cs.DT, rs[i], gr, gradTol(cs.DT), floor); err != nil {
			return err
		}
		if cs.Req[i] == 2 {
			if err := expectGradFloor(errf("ag.%s: intermediate operand %d", cs.Op, i).Error(), xs[i], cs.DT, rs[i], gr, gradTol(cs.DT), floor); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	names := sortedKeys(opSpecs)
	genOp := func(large bool) func(t *rapid.T) opCase {
		return func(t *rapid.T) opCase {
			cs := opCase{Op: gen.Pick(t, names...), DT: gen.Pick(t, 64, 64, 32)}
			if large {
				cs.budget = 2500
			}
			opSpecs[cs.Op].gen(t, &cs)
			req := make([]int, 0, 64)
			for i := range cs.Xs {
				if i < 64 {
					req = append(req, gen.Pick(t, 1, 2, 2, 0, 1))
				}
				cs.Req = append(cs.Req, req[i%len(req)])
			}
			if len(cs.Xs) > 1 && len(cs.P) == 0 && gen.Chance(t, 25) {
				cs.Al = make([]int, len(cs.Xs))
				for i := range cs.Xs {
					if j := gen.U(t, i+1); j < i && cs.Xs[i].R == cs.Xs[j].R && cs.Xs[i].C == cs.Xs[j].C {
						cs.Al[i] = j + 1
					}
				}
			}
			for i := 0; i < 11; i++ {
				cs.Gy = append(cs.Gy, F(gen.Val(t)))
			}
			if gen.Chance(t, 15) {
				cs.rescale(t)
			}
			return cs
		}
	}
	eng.Register("C05", "operators",
		"at least one operand requires gradients, Backward ran and the operand values lie at least 2e-3 away from every non-differentiable point",
		300000, 6000000, genOp(false), evalOp)
	eng.Register("C05", "large",
		"as operators, with dimensions and numbers of operands of up to 300",
		4000, 150000, genOp(true), evalOp)
}
