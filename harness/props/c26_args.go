package props

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// argCase is one call with arguments that may violate its precondition.
type argCase struct {
	Op  string
	DT  int
	ODT []int
	Xs  []gen.Mat // operands; the first is the receiver
	I   []int
	V   []F
	Req []int
	Gy  gen.Mat
	GDT int
}

type verdict int

const (
	invalid verdict = iota // must be rejected
	valid                  // must be accepted
	maybe                  // either
)

func ok(b bool) verdict {
	if b {
		return valid
	}
	return invalid
}

// and combines verdicts: invalid dominates, then maybe.
func (v verdict) and(o verdict) verdict {
	if v == invalid || o == invalid {
		return invalid
	}
	if v == maybe || o == maybe {
		return maybe
	}
	return valid
}

type dims struct{ r, c int }

func dimsOf(m gen.Mat) dims { return dims{m.R, m.C} }

func (d dims) vec() bool { return d.r == 1 || d.c == 1 }
func (d dims) size() int { return d.r * d.c }

// argEnv is what a call sees.
type argEnv struct {
	c  argCase
	d  []dims
	m  []mat.Matrix
	g  []*guarded
	t  []mat.Tensor
	in bool // the receiver may be changed
}

func (e *argEnv) i(k int) int { return e.c.I[k%len(e.c.I)] }

// n is a small count derived from an argument.
func (e *argEnv) n(k, lim int) int { return mod(e.i(k), lim+1) }

// argOp describes an operation: whether the arguments are valid, the shapes of
// the results if so, and the call.
type argOp func(e *argEnv) (v verdict, want []dims, call func() (res []mat.Tensor, err error))

func one26(m mat.Tensor) ([]mat.Tensor, error) { return []mat.Tensor{m}, nil }

func binArg(f func(a, b mat.Matrix) mat.Matrix, inPlace bool) argOp {
	return func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		e.in = inPlace
		return ok(e.d[0] == e.d[1]), e.d[:1], func() ([]mat.Tensor, error) { return one26(f(e.m[0], e.m[1])) }
	}
}

func vecOp(f func(a mat.Matrix) mat.Matrix, shape func(d dims) dims) argOp {
	return func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].vec()), []dims{shape(e.d[0])}, func() ([]mat.Tensor, error) { return one26(f(e.m[0])) }
	}
}

func scalarDims(dims) dims { return dims{1, 1} }
func colDims(d dims) dims  { return dims{d.size(), 1} }
func sameAs(d dims) dims   { return d }

// indexOK tells whether the indices address an element.
func indexOK(d dims, idx []int) bool {
	switch len(idx) {
	case 1:
		return d.vec() && idx[0] >= 0 && idx[0] < d.size()
	case 2:
		return idx[0] >= 0 && idx[0] < d.r && idx[1] >= 0 && idx[1] < d.c
	}
	return false
}

// prodOf multiplies sizes; !ok on overflow or negative values.
func prodOf(xs []int) (p int, ok bool) {
	p = 1
	zero := false
	for _, x := range xs {
		if x < 0 {
			return 0, false
		}
		zero = zero || x == 0
	}
	if zero {
		return 0, true
	}
	for _, x := range xs {
		if p > math.MaxInt/x {
			return 0, false
		}
		p *= x
	}
	return p, true
}

// sliceOK: valid, or maybe for an empty range at the end.
func sliceOK(lo, hi, n int) verdict {
	switch {
	case lo < 0 || hi < lo || hi > n:
		return invalid
	case lo == n:
		return maybe
	}
	return valid
}

func newOf[T float.DType](opts ...mat.OptionsFunc) mat.Tensor { return mat.NewDense[T](opts...) }

// huge sizes may be valid in theory but exhaust memory.
func huge(n int) verdict {
	if n > pow2(uint(bits.UintSize*5/8)) {
		return maybe
	}
	return valid
}

// canAlloc: only sizes that are small or rejected by the runtime at once.
func canAlloc(p int, fits bool) bool { return !fits || p < 1<<20 || p >= pow2(58) }

// pow2 is 2^k where an int can hold it.
func pow2(k uint) int {
	if k >= bits.UintSize-1 {
		return math.MaxInt
	}
	return 1 << k
}

var matArgOps = map[string]argOp{
	"Add":           binArg(mat.Matrix.Add, false),
	"Sub":           binArg(mat.Matrix.Sub, false),
	"Prod":          binArg(mat.Matrix.Prod, false),
	"Div":           binArg(mat.Matrix.Div, false),
	"AddInPlace":    binArg(mat.Matrix.AddInPlace, true),
	"SubInPlace":    binArg(mat.Matrix.SubInPlace, true),
	"ProdInPlace":   binArg(mat.Matrix.ProdInPlace, true),
	"DivInPlace":    binArg(mat.Matrix.DivInPlace, true),
	"Maximum":       binArg(mat.Matrix.Maximum, false),
	"Minimum":       binArg(mat.Matrix.Minimum, false),
	"Copy":          binArg(func(a, b mat.Matrix) mat.Matrix { a.Copy(b); return a }, true),
	"ProdMatScalar": binArg(func(a, b mat.Matrix) mat.Matrix { return a.ProdMatrixScalarInPlace(b, 2) }, true),
	"ApplyInPlace": binArg(func(a, b mat.Matrix) mat.Matrix {
		return a.ApplyInPlace(func(_, _ int, v float64) float64 { return v + 1 }, b)
	}, true),
	"ApplyWithAlphaInPlace": binArg(func(a, b mat.Matrix) mat.Matrix {
		return a.ApplyWithAlphaInPlace(func(_, _ int, v float64, p ...float64) float64 { return v + p[0] }, b, 1)
	}, true),
	"DotUnitary": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		v := ok(e.d[0] == e.d[1])
		if v == valid && !e.d[0].vec() {
			v = maybe
		}
		return v, []dims{{1, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].DotUnitary(e.m[1])) }
	},
	"Mul": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].c == e.d[1].r), []dims{{e.d[0].r, e.d[1].c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Mul(e.m[1])) }
	},
	"MulT": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].r == e.d[1].r && e.d[1].c == 1), []dims{{e.d[0].c, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].MulT(e.m[1])) }
	},
	"At": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		idx := e.c.I[:e.n(3, 3)]
		return ok(indexOK(e.d[0], idx)), []dims{{1, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].At(idx...)) }
	},
	"ScalarAt": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		idx := e.c.I[:e.n(3, 3)]
		return ok(indexOK(e.d[0], idx)), nil, func() ([]mat.Tensor, error) { e.m[0].ScalarAt(idx...); return nil, nil }
	},
	"SetScalar": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		idx := e.c.I[:e.n(3, 3)]
		e.in = true
		return ok(indexOK(e.d[0], idx)), nil, func() ([]mat.Tensor, error) { e.m[0].SetScalar(flt(64, 42), idx...); return nil, nil }
	},
	"SetAt": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		idx := e.c.I[:e.n(3, 3)]
		e.in = true
		return ok(indexOK(e.d[0], idx) && e.d[1].size() == 1), nil, func() ([]mat.Tensor, error) { e.m[0].SetAt(e.m[1], idx...); return nil, nil }
	},
	"Item": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].size() == 1), nil, func() ([]mat.Tensor, error) { e.m[0].Item(); return nil, nil }
	},
	"ExtractRow": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		i := e.i(0)
		return ok(i >= 0 && i < e.d[0].r), []dims{{1, e.d[0].c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].ExtractRow(i)) }
	},
	"ExtractColumn": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		i := e.i(0)
		return ok(i >= 0 && i < e.d[0].c), []dims{{e.d[0].r, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].ExtractColumn(i)) }
	},
	"Slice": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		a, b, c, d := e.i(0), e.i(1), e.i(2), e.i(3)
		return sliceOK(a, c, e.d[0].r).and(sliceOK(b, d, e.d[0].c)), []dims{{c - a, d - b}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Slice(a, b, c, d)) }
	},
	"Reshape":        reshapeOp(mat.Matrix.Reshape, false),
	"ReshapeInPlace": reshapeOp(mat.Matrix.ReshapeInPlace, true),
	"ResizeVector": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		v := ok(e.d[0].vec() && n >= 0)
		if v == valid {
			v = huge(n)
		}
		return v, []dims{{n, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].ResizeVector(n)) }
	},
	"Range": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		a, b := e.i(0), e.i(1)
		return ok(e.d[0].vec() && 0 <= a && a <= b && b <= e.d[0].size()), []dims{{b - a, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Range(a, b)) }
	},
	"SplitV": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.n(3, 3)
		sizes := e.c.I[:n]
		v, sum := ok(e.d[0].vec()), 0
		var w []dims
		for _, s := range sizes {
			if s < 0 || s > e.d[0].size() {
				v = invalid
				break
			}
			sum += s
			w = append(w, dims{s, 1})
		}
		if sum > e.d[0].size() {
			v = invalid
		} else if v == valid && (sum < e.d[0].size() || n == 0) {
			v = maybe
		}
		return v, w, func() (res []mat.Tensor, _ error) {
			for _, m := range e.m[0].SplitV(sizes...) {
				res = append(res, m)
			}
			return
		}
	},
	"SwapInPlace": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		a, b := e.i(0), e.i(1)
		e.in = true
		return ok(a >= 0 && b >= 0 && a < e.d[0].r && b < e.d[0].r), e.d[:1], func() ([]mat.Tensor, error) { return one26(e.m[0].SwapInPlace(a, b)) }
	},
	"PadRows": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		return ok(n >= 0).and(huge(n)), []dims{{e.d[0].r + n, e.d[0].c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].PadRows(n)) }
	},
	"PadColumns": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		return ok(n >= 0).and(huge(n)), []dims{{e.d[0].r, e.d[0].c + n}}, func() ([]mat.Tensor, error) { return one26(e.m[0].PadColumns(n)) }
	},
	"AppendRows": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		v := valid
		for _, d := range e.d[1:] {
			v = v.and(ok(d.vec() && d.size() == e.d[0].c))
		}
		return v, []dims{{e.d[0].r + len(e.d) - 1, e.d[0].c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].AppendRows(e.m[1:]...)) }
	},
	"Augment": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].r == e.d[0].c), []dims{{e.d[0].r, 2 * e.d[0].c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Augment()) }
	},
	"ClipInPlace": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		lo, hi := float64(e.c.V[0]), float64(e.c.V[1])
		e.in = true
		v := ok(lo <= hi)
		if math.IsNaN(lo) || math.IsNaN(hi) {
			v = maybe
		}
		return v, e.d[:1], func() ([]mat.Tensor, error) { return one26(e.m[0].ClipInPlace(lo, hi)) }
	},
	"Norm":       vecOp(func(a mat.Matrix) mat.Matrix { return a.Norm(2) }, scalarDims),
	"Normalize2": vecOp(mat.Matrix.Normalize2, sameAs),
	"Softmax":    vecOp(mat.Matrix.Softmax, colDims),
	"CumSum":     vecOp(mat.Matrix.CumSum, colDims),
	"DoVecNonZero": vecOp(func(a mat.Matrix) mat.Matrix {
		a.DoVecNonZero(func(int, float64) {})
		return a
	}, sameAs),
	"ArgMax": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].vec() && e.d[0].size() > 0), nil, func() ([]mat.Tensor, error) { e.m[0].ArgMax(); return nil, nil }
	},
	"Max": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].size() > 0), []dims{{1, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Max()) }
	},
	"Min": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		return ok(e.d[0].size() > 0), []dims{{1, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].Min()) }
	},
	"SetData": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.n(0, 20)
		if e.i(1)&1 == 0 {
			n = e.d[0].size()
		}
		e.in = true
		return ok(n == e.d[0].size()), nil, func() ([]mat.Tensor, error) {
			e.m[0].SetData(sl(e.c.ODT[0], make([]float64, n)))
			return nil, nil
		}
	},
	"SetDataOf": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		e.in = true
		return ok(e.d[1].size() == e.d[0].size()), nil, func() ([]mat.Tensor, error) {
			e.m[0].SetData(e.m[1].Data())
			return nil, nil
		}
	},
	"AccGrad": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		v := ok(e.d[0] == e.d[1])
		if v == invalid && e.d[0].vec() && e.d[1].vec() && e.d[0].size() == e.d[1].size() {
			v = maybe // the first gradient of a vector may be its transpose
		}
		return v, nil, func() ([]mat.Tensor, error) { e.m[0].AccGrad(e.m[1]); return nil, nil }
	},
	"AccGrad2": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		e.m[0].AccGrad(e.m[0].ZerosLike())
		v := ok(e.d[0] == e.d[1])
		if v == invalid && e.d[0].vec() && e.d[1].vec() && e.d[0].size() == e.d[1].size() {
			v = maybe // the gradient of a vector may be its transpose
		}
		return v, nil, func() ([]mat.Tensor, error) { e.m[0].AccGrad(e.m[1]); return nil, nil }
	},
	"NewConcatV": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		v, n := valid, 0
		for _, d := range e.d[1:] {
			v = v.and(ok(d.vec()))
			n += d.size()
		}
		return v, []dims{{n, 1}}, func() ([]mat.Tensor, error) { return one26(e.m[0].NewConcatV(e.m[1:]...)) }
	},
	"NewStack": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		v, c := valid, 0
		for i, d := range e.d[1:] {
			if i == 0 {
				c = d.size()
			}
			v = v.and(ok(d.vec() && d.size() == c))
		}
		return v, []dims{{len(e.d) - 1, c}}, func() ([]mat.Tensor, error) { return one26(e.m[0].NewStack(e.m[1:]...)) }
	},
	"NewMatrix": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) { return newOp(e, true) },
	"NewDense":  func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) { return newOp(e, false) },
	"OneHot": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n, i := e.i(0), e.i(1)
		return ok(n >= 0 && i >= 0 && i < n).and(huge(n)), nil, func() ([]mat.Tensor, error) {
			if l := len(mat.CreateOneHotVector[float32](n, i)); l != n {
				panic("harness: wrong")
			}
			return nil, nil
		}
	},
	"Identity": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		_, fits := prodOf([]int{n, n})
		return ok(n >= 0 && fits).and(huge(n)), nil, func() ([]mat.Tensor, error) {
			mat.CreateIdentityMatrix[float64](n)
			return nil, nil
		}
	},
	"InitSlice": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		return ok(n >= 0).and(huge(n)), nil, func() ([]mat.Tensor, error) { mat.CreateInitializedSlice[float64](n, 1); return nil, nil }
	},
	"InitMatrix": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		r, c := e.i(0), e.i(1)
		_, fits := prodOf([]int{r, c})
		return ok(r >= 0 && c >= 0 && fits).and(huge(r)).and(huge(c)), nil, func() ([]mat.Tensor, error) {
			mat.InitializeMatrix(r, c, func(int, int) float64 { return 1 })
			return nil, nil
		}
	},
	"SplitVec": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n := e.i(0)
		d := e.d[0]
		v := ok(d.vec() && n > 0 && (n > d.size() || d.size()%max(n, 1) == 0))
		if v == valid && (d.c != 1 || d.size() == 0 || n > d.size()) {
			v = maybe
		}
		if n > 1<<20 { // that many chunks exhaust the memory
			n = 1 << 20
		}
		if v == maybe && n > d.size() && d.size() > 0 {
			v = invalid
		}
		var w []dims
		if v == valid {
			for i := 0; i < n; i++ {
				w = append(w, dims{d.size() / n, 1})
			}
		}
		return v, w, func() ([]mat.Tensor, error) { return ag.SplitVec(e.m[0], n), nil }
	},
	"Map2": func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		n, k := e.n(0, 4), e.n(1, 4)
		return ok(n == k), nil, func() ([]mat.Tensor, error) {
			xs, ys := make([]mat.Tensor, n), make([]mat.Tensor, k)
			ag.Map2(func(a, _ mat.Tensor) mat.Tensor { return a }, xs, ys)
			return nil, nil
		}
	},
}

func reshapeOp(f func(mat.Matrix, ...int) mat.Matrix, inPlace bool) argOp {
	return func(e *argEnv) (verdict, []dims, func() ([]mat.Tensor, error)) {
		e.in = inPlace
		s := e.c.I[:e.n(3, 3)]
		if e.i(3) >= 0 && len(s) < 2 {
			s = e.c.I[:2]
		}
		p, fits := prodOf(s)
		v := ok(len(s) == 2 && fits && p == e.d[0].size())
		if len(s) == 1 && fits && p == e.d[0].size() {
			v = maybe
		}
		var w []dims
		if v == valid {
			w = []dims{{s[0], s[1]}}
			if p == 0 {
				v = v.and(huge(s[0])).and(huge(s[1]))
			}
		}
		return v, w, func() ([]mat.Tensor, error) { return one26(f(e.m[0], s...)) }
	}
}

// newOp constructs a matrix from a shape, a backing array, or both.
func newOp(e *argEnv, method bool) (verdict, []dims, func() ([]mat.Tensor, error)) {
	s := e.c.I[:e.n(3, 3)]
	mode := e.n(2, 3) // 0 shape, 1 backing, 2 both, 3 both with the right size
	var opts []mat.OptionsFunc
	p, fits := prodOf(s)
	v := valid
	if mode != 1 {
		opts = append(opts, mat.WithShape(s...))
		v = v.and(ok((len(s) == 1 || len(s) == 2) && fits))
		for _, x := range s {
			v = v.and(huge(x))
		}
	}
	n := e.n(1, 12)
	if mode == 3 && fits && p < 100 {
		n = p
	}
	if mode > 0 {
		data := make([]float64, n, n+3)
		if e.i(1)&1 == 0 {
			opts = append(opts, mat.WithBacking(data))
		} else {
			opts = append(opts, mat.WithBacking(make([]float32, n, n+3)))
		}
		if mode > 1 {
			v = v.and(ok(p == n))
		}
		if len(s) == 0 {
			v = maybe
		}
	} else if len(s) == 0 {
		v = invalid
	}
	if !fits {
		v = invalid
	} else if mode == 0 && !canAlloc(p, fits) {
		return maybe, nil, func() ([]mat.Tensor, error) { return nil, nil }
	}
	if mode == 1 {
		v = valid
	}
	var w []dims
	if v == valid {
		switch {
		case mode == 1:
			w = []dims{{n, 1}}
		case len(s) == 1:
			w = []dims{{s[0], 1}}
		default:
			w = []dims{{s[0], s[1]}}
		}
	}
	return v, w, func() ([]mat.Tensor, error) {
		switch {
		case method:
			return one26(e.m[0].NewMatrix(opts...))
		case e.c.DT == 32:
			return one26(newOf[float32](opts...))
		}
		return one26(newOf[float64](opts...))
	}
}

// Integers at and around the borders, and those whose products wrap around to
// valid offsets.
func argInt(t *rapid.T, ds []dims, wild bool) int {
	d := ds[gen.U(t, len(ds))]
	switch gen.U(t, 16) {
	case 0, 1, 2:
		return gen.UInt(t, 0, 4)
	case 3, 4:
		return max(0, d.r-1)
	case 5:
		return d.r
	case 6, 7:
		return max(0, d.c-1)
	case 8:
		return d.c
	case 9:
		return d.size()
	case 10:
		return d.size() - 1 - gen.U(t, 2)
	case 11:
		return -1 - gen.U(t, 4)
	case 12:
		return d.size() + gen.UInt(t, 1, 3)
	case 13:
		return d.r + d.c
	case 14:
		if wild {
			return gen.Pick(t, math.MaxInt, math.MinInt, pow2(62), pow2(61), -pow2(62), pow2(60), -pow2(61)) + gen.U(t, 3)
		}
	case 15:
		if wild {
			return pow2(32)
		}
	}
	return gen.UInt(t, 0, 12)
}

// Arguments that become sizes of allocations: no moderate giants.
var allocOps = map[string]bool{"ResizeVector": true, "PadRows": true, "PadColumns": true, "OneHot": true, "InitSlice": true}

func argDims(t *rapid.T) dims {
	switch gen.U(t, 8) {
	case 0, 1:
		return dims{gen.UInt(t, 0, 6), 1}
	case 2:
		return dims{1, gen.UInt(t, 0, 6)}
	case 3:
		n := gen.UInt(t, 0, 4)
		return dims{n, n}
	}
	return dims{gen.UInt(t, 0, 5), gen.UInt(t, 0, 5)}
}

// related dimensions: equal, transposed, equal size, matching in one dimension.
func relDims(t *rapid.T, d dims) dims {
	switch gen.U(t, 12) {
	case 0, 1, 2:
		return d
	case 3:
		return dims{d.c, d.r}
	case 4:
		return dims{d.size(), 1}
	case 5:
		return dims{1, d.size()}
	case 6:
		return dims{d.c, gen.UInt(t, 0, 4)}
	case 7:
		return dims{d.r, 1}
	case 8:
		return gen.Pick(t, dims{1, d.c}, dims{d.c, 1})
	case 9:
		return dims{d.r, d.c + 1}
	case 10:
		return dims{1, 1}
	}
	return argDims(t)
}

func argMat(t *rapid.T, d dims) gen.Mat {
	m := gen.Mat{R: d.r, C: d.c, D: make([]F, d.size()), Off: gen.U(t, 4)}
	k := F(gen.UInt(t, 1, 3))
	for i := range m.D {
		m.D[i] = k * F(i+1)
	}
	return m
}

func genArg(ops []string) func(t *rapid.T) argCase {
	return func(t *rapid.T) argCase {
		c := argCase{Op: ops[gen.U(t, len(ops))], DT: gen.DT(t)}
		d := argDims(t)
		c.Xs = []gen.Mat{argMat(t, d).Round(c.DT)}
		ds := []dims{d}
		c.ODT = gen.List(t, 1, 4, gen.DT)
		for n := gen.UInt(t, 1, 3); n > 0; n-- {
			o := relDims(t, ds[gen.U(t, len(ds))])
			ds = append(ds, o)
			c.Xs = append(c.Xs, argMat(t, o))
		}
		for i := 0; i < 4; i++ {
			v := argInt(t, ds, i < 3)
			if allocOps[c.Op] && v == pow2(32) {
				v = pow2(62)
			}
			c.I = append(c.I, v)
		}
		if gen.Chance(t, 20) && !strings.HasPrefix(c.Op, "New") { // both orders, ranges
			if c.I[0] > c.I[1] {
				c.I[0], c.I[1] = c.I[1], c.I[0]
			}
		}
		c.V = []F{F(gen.Val(t)), F(gen.Val(t))}
		if gen.Bool(t) && c.V[0] > c.V[1] {
			c.V[0], c.V[1] = c.V[1], c.V[0]
		}
		return c
	}
}

func describe(e *argEnv) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s on %d×%d", e.c.Op, e.d[0].r, e.d[0].c)
	for _, d := range e.d[1:] {
		fmt.Fprintf(&b, ", %d×%d", d.r, d.c)
	}
	fmt.Fprintf(&b, ", ints %v", e.c.I)
	return b.String()
}

func newArgEnv(c argCase) *argEnv {
	e := &argEnv{c: c}
	for i, x := range c.Xs {
		dt := c.DT
		if i > 0 {
			dt = c.ODT[i%len(c.ODT)]
		}
		g := mkGuarded(dt, x.Round(dt))
		e.g = append(e.g, g)
		e.m = append(e.m, g.m)
		e.t = append(e.t, g.m)
		e.d = append(e.d, dimsOf(x))
	}
	return e
}

func evalArg(ctx *eng.Ctx, c argCase) error {
	e := newArgEnv(c)
	v, want, call := matArgOps[c.Op](e)
	if !allocatable(c) {
		return nil
	}
	what := describe(e)
	var before, grads []snap
	for _, m := range e.m {
		before = append(before, snapOf(m))
		if m.HasGrad() {
			grads = append(grads, snapOf(m.Grad()))
		} else {
			grads = append(grads, snap{})
		}
	}
	var res []mat.Tensor
	var err error
	p := catch(func() { res, err = call() })
	rejected := p != nil || err != nil
	ctx.NTIf(v != valid)
	ctx.Label("%s %s", map[verdict]string{invalid: "invalid", valid: "valid", maybe: "either"}[v], c.Op)
	if v == invalid && !rejected {
		var s []string
		for _, r := range res {
			s = append(s, fmt.Sprintf("a matrix of shape %v", r.Shape()))
		}
		return errf("%s: invalid arguments were accepted (%s)", what, strings.Join(s, ", "))
	}
	if v == valid && rejected {
		return errf("%s: a valid call was rejected: %v %v", what, p, err)
	}
	for i, g := range e.g {
		if err := g.intact(); err != nil {
			return errf("%s: operand %d: %v", what, i, err)
		}
		if i == 0 && e.in && !rejected {
			continue
		}
		if err := before[i].same(e.m[i]); err != nil {
			return errf("%s: operand %d (rejected %v): %v", what, i, rejected, err)
		}
		if rejected && e.m[i].HasGrad() != (grads[i].shape != nil) {
			return errf("%s: the rejected call changed the gradient of operand %d", what, i)
		}
		if rejected && grads[i].shape != nil {
			if err := grads[i].same(e.m[i].Grad()); err != nil {
				return errf("%s: gradient of operand %d: %v", what, i, err)
			}
		}
	}
	if v == valid && want != nil {
		if len(res) != len(want) {
			return errf("%s: %d results, want %d", what, len(res), len(want))
		}
		for i, r := range res {
			if !shapeIs(r, want[i].r, want[i].c) {
				return errf("%s: result %d has shape %v, want %v", what, i, r.Shape(), want[i])
			}
			if len(vals(r)) != want[i].size() {
				return errf("%s: result %d has %d elements, want %d", what, i, len(vals(r)), want[i].size())
			}
		}
	}
	return nil
}

// allocatable leaves out calls that would allocate gigabytes.
func allocatable(c argCase) bool {
	d := dimsOf(c.Xs[0])
	sizes := []int(nil)
	switch c.Op {
	case "PadRows":
		if c.I[0] > 0 {
			sizes = []int{d.r + c.I[0], d.c}
		}
	case "PadColumns":
		if c.I[0] > 0 {
			sizes = []int{d.c + c.I[0], d.r}
		}
	case "Identity":
		sizes = []int{c.I[0], c.I[0]}
	case "InitMatrix":
		sizes = []int{c.I[0], c.I[1]}
	}
	if sizes == nil {
		return true
	}
	giant := false
	for _, s := range sizes {
		if s < 0 {
			return true
		}
		giant = giant || s > pow2(24)
	}
	p, fits := prodOf(sizes)
	if fits && p == 0 && giant {
		return false // 2^60 empty rows: a loop over the rows is fair, and does not end
	}
	if !fits {
		// what a wrapping product would allocate
		p = 1
		for _, s := range sizes {
			p *= s
		}
		return p < 1<<20 || p >= pow2(58)
	}
	return canAlloc(p, fits)
}

func init() {
	eng.Register("C26", "matrices",
		"matrix method, constructor or helper called with arguments that violate its documented precondition (or whose documentation leaves it open)",
		1200000, 40000000, genArg(sortedKeys(matArgOps)), evalArg)
}
