package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
)

// structCase is one structural operation on a matrix.
type structCase struct {
	Op  string
	DT  int
	DT2 int
	A   gen.Mat
	Vs  []gen.Mat
	I   []int
	V   F
}

// model is a plain matrix.
type model struct {
	r, c int
	d    []float64
}

func (m model) at(i, j int) float64 { return m.d[i*m.c+j] }

func newModel(r, c int) model { return model{r, c, make([]float64, r*c)} }

func modelOf(m gen.Mat) model { return model{m.R, m.C, m.Floats()} }

func (m model) build(f func(i, j int) float64) model {
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			m.d[i*m.c+j] = f(i, j)
		}
	}
	return m
}

// distinct fills a matrix with pairwise distinct values, so that any
// misplacement is visible, with some zeros and specials mixed in.
func distinct(t *rapid.T, dt, r, c int) gen.Mat {
	m := gen.Mat{R: r, C: c, D: make([]F, r*c), Off: gen.U(t, 5)}
	k := gen.Pick(t, 1.0, 0.5, 3.0)
	for i := range m.D {
		m.D[i] = F(k * float64(i+1))
	}
	n := gen.U(t, 4)
	for ; n > 0 && len(m.D) > 0; n-- {
		m.D[gen.U(t, len(m.D))] = F(gen.Special(t, dt))
	}
	return m.Round(dt)
}

func exact(what string, t mat.Tensor, dt int, w model) error {
	if t == nil {
		return errf("%s: nil result", what)
	}
	if dtOf(t) != dt {
		return errf("%s: element type is %d bits, want %d", what, dtOf(t), dt)
	}
	if !shapeIs(t, w.r, w.c) || t.Size() != w.r*w.c || t.Dims() != 2 {
		return errf("%s: shape %v size %d, want [%d %d]", what, t.Shape(), t.Size(), w.r, w.c)
	}
	for i, g := range vals(t) {
		if g != w.d[i] && !(math.IsNaN(g) && math.IsNaN(w.d[i])) || math.Signbit(g) != math.Signbit(w.d[i]) && !math.IsNaN(g) {
			return errf("%s: element (%d,%d) is %v, want %v", what, i/w.c, i%w.c, g, w.d[i])
		}
	}
	return nil
}

type structOp struct {
	gen  func(t *rapid.T, cs *structCase)
	eval func(cs structCase, a mat.Matrix, m model, vs []mat.Matrix, ms []model) error
}

func anyMat(hi, maxSize int) func(t *rapid.T, cs *structCase) {
	return func(t *rapid.T, cs *structCase) {
		r, c := matShape(t, 0, hi, maxSize)
		cs.A = distinct(t, cs.DT, r, c)
	}
}

func nonEmptyMat(hi, maxSize int) func(t *rapid.T, cs *structCase) {
	return func(t *rapid.T, cs *structCase) {
		r, c := matShape(t, 1, hi, maxSize)
		cs.A = distinct(t, cs.DT, r, c)
	}
}

func anyVec(lo int) func(t *rapid.T, cs *structCase) {
	return func(t *rapid.T, cs *structCase) {
		r, c := vecShape(t, lo, 70)
		cs.A = distinct(t, cs.DT, r, c)
	}
}

func transposeM(m model) model {
	return newModel(m.c, m.r).build(func(i, j int) float64 { return m.at(j, i) })
}

func divisors(n int) []int {
	if n == 0 {
		return []int{0, 1, 3}
	}
	var o []int
	for k := 1; k <= n; k++ {
		if n%k == 0 {
			o = append(o, k)
		}
	}
	return o
}

func genReshape(t *rapid.T, cs *structCase) {
	anyMat(24, 400)(t, cs)
	n := len(cs.A.D)
	d := gen.Pick(t, divisors(n)...)
	if n == 0 {
		cs.I = gen.Pick(t, []int{0, d}, []int{d, 0})
		return
	}
	cs.I = []int{d, n / d}
}

func concatM(ms []model) model {
	var d []float64
	for _, m := range ms {
		d = append(d, m.d...)
	}
	return model{len(d), 1, d}
}

var structOps = map[string]*structOp{
	"T": {anyMat(40, 1200), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		y := a.T()
		if err := exact("T", y, cs.DT, transposeM(m)); err != nil {
			return err
		}
		return exact("T of T", y.T(), cs.DT, m)
	}},
	"TransposeInPlace": {anyMat(40, 1200), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		if err := exact("TransposeInPlace", a.TransposeInPlace(), cs.DT, transposeM(m)); err != nil {
			return err
		}
		return exact("TransposeInPlace twice", a.TransposeInPlace(), cs.DT, m)
	}},
	"Reshape": {genReshape, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		y := a.Reshape(cs.I...)
		if err := exact("Reshape", y, cs.DT, model{cs.I[0], cs.I[1], m.d}); err != nil {
			return err
		}
		return exact("Reshape back", y.Reshape(m.r, m.c), cs.DT, m)
	}},
	"ReshapeInPlace": {genReshape, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		if err := exact("ReshapeInPlace", a.ReshapeInPlace(cs.I...), cs.DT, model{cs.I[0], cs.I[1], m.d}); err != nil {
			return err
		}
		return exact("ReshapeInPlace back", a.ReshapeInPlace(m.r, m.c), cs.DT, m)
	}},
	"Flatten": {anyMat(24, 400), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		y := a.Flatten()
		if err := exact("Flatten", y, cs.DT, model{1, len(m.d), m.d}); err != nil {
			return err
		}
		return exact("Flatten+Reshape", y.Reshape(m.r, m.c), cs.DT, m)
	}},
	"FlattenInPlace": {anyMat(24, 400), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		return exact("FlattenInPlace", a.FlattenInPlace(), cs.DT, model{1, len(m.d), m.d})
	}},
	"ResizeVector": {func(t *rapid.T, cs *structCase) { anyVec(0)(t, cs); cs.I = []int{gen.Dim(t, 0, 90)} },
		func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
			w := newModel(cs.I[0], 1)
			copy(w.d, m.d)
			return exact("ResizeVector", a.ResizeVector(cs.I[0]), cs.DT, w)
		}},
	"Slice": {func(t *rapid.T, cs *structCase) {
		nonEmptyMat(24, 400)(t, cs)
		fr, fc := gen.U(t, cs.A.R), gen.U(t, cs.A.C)
		cs.I = []int{fr, fc, gen.UInt(t, fr, cs.A.R), gen.UInt(t, fc, cs.A.C)}
		if gen.Chance(t, 20) {
			cs.I[1], cs.I[3] = 0, cs.A.C
		}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		i := cs.I
		w := newModel(i[2]-i[0], i[3]-i[1]).build(func(r, c int) float64 { return m.at(i[0]+r, i[1]+c) })
		return exact("Slice", a.Slice(i[0], i[1], i[2], i[3]), cs.DT, w)
	}},
	"Range": {func(t *rapid.T, cs *structCase) {
		anyVec(0)(t, cs)
		s := gen.UInt(t, 0, len(cs.A.D))
		cs.I = []int{s, gen.UInt(t, s, len(cs.A.D))}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		d := m.d[cs.I[0]:cs.I[1]]
		return exact("Range", a.Range(cs.I[0], cs.I[1]), cs.DT, model{len(d), 1, d})
	}},
	"ExtractRow": {func(t *rapid.T, cs *structCase) {
		nonEmptyMat(24, 400)(t, cs)
		cs.I = []int{gen.U(t, cs.A.R)}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		return exact("ExtractRow", a.ExtractRow(cs.I[0]), cs.DT, newModel(1, m.c).build(func(_, j int) float64 { return m.at(cs.I[0], j) }))
	}},
	"ExtractColumn": {func(t *rapid.T, cs *structCase) {
		nonEmptyMat(24, 400)(t, cs)
		cs.I = []int{gen.U(t, cs.A.C)}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		return exact("ExtractColumn", a.ExtractColumn(cs.I[0]), cs.DT, newModel(m.r, 1).build(func(i, _ int) float64 { return m.at(i, cs.I[0]) }))
	}},
	"Stack": {func(t *rapid.T, cs *structCase) {
		cs.A = distinct(t, cs.DT, 1, 1)
		n, k := gen.Dim(t, 0, 12), gen.Dim(t, 0, 20)
		for i := 0; i < n; i++ {
			if gen.Bool(t) {
				cs.Vs = append(cs.Vs, distinct(t, cs.DT2, 1, k))
			} else {
				cs.Vs = append(cs.Vs, distinct(t, cs.DT2, k, 1))
			}
		}
	}, func(cs structCase, a mat.Matrix, m model, vs []mat.Matrix, ms []model) error {
		w := model{}
		if len(ms) > 0 {
			w = newModel(len(ms), len(ms[0].d)).build(func(i, j int) float64 { return roundTo(cs.DT, ms[i].d[j]) })
		}
		if err := exact("NewStack", a.NewStack(vs...), cs.DT, w); err != nil {
			return err
		}
		if cs.DT == 32 {
			return exact("Stack", mat.Stack[float32](vs...), cs.DT, w)
		}
		return exact("Stack", mat.Stack[float64](vs...), cs.DT, w)
	}},
	"ConcatV": {func(t *rapid.T, cs *structCase) {
		cs.A = distinct(t, cs.DT, 1, 1)
		n := gen.Dim(t, 0, 8)
		for i := 0; i < n; i++ {
			r, c := vecShape(t, 0, 20)
			cs.Vs = append(cs.Vs, distinct(t, cs.DT2, r, c))
		}
	}, func(cs structCase, a mat.Matrix, m model, vs []mat.Matrix, ms []model) error {
		w := concatM(ms)
		for i := range w.d {
			w.d[i] = roundTo(cs.DT, w.d[i])
		}
		y := a.NewConcatV(vs...)
		if err := exact("NewConcatV", y, cs.DT, w); err != nil {
			return err
		}
		if cs.DT == 32 {
			if err := exact("ConcatV", mat.ConcatV[float32](vs...), cs.DT, w); err != nil {
				return err
			}
		} else if err := exact("ConcatV", mat.ConcatV[float64](vs...), cs.DT, w); err != nil {
			return err
		}
		if len(vs) == 0 {
			return nil
		}
		sizes := make([]int, len(ms))
		for i := range ms {
			sizes[i] = len(ms[i].d)
		}
		parts := y.SplitV(sizes...)
		if len(parts) != len(ms) {
			return errf("SplitV of ConcatV: %d parts, want %d", len(parts), len(ms))
		}
		off := 0
		for i, p := range parts {
			if err := exact("SplitV of ConcatV", p, cs.DT, model{sizes[i], 1, w.d[off : off+sizes[i]]}); err != nil {
				return err
			}
			off += sizes[i]
		}
		return nil
	}},
	"SplitV": {func(t *rapid.T, cs *structCase) {
		anyVec(0)(t, cs)
		left := len(cs.A.D)
		k := gen.Dim(t, 0, 6)
		for i := 0; i < k; i++ {
			s := gen.UInt(t, 0, left)
			if gen.Bool(t) {
				s = gen.UInt(t, 0, min(left, 3))
			}
			cs.I = append(cs.I, s)
			left -= s
		}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		parts := a.SplitV(cs.I...)
		if len(parts) != len(cs.I) {
			return errf("SplitV: %d parts, want %d", len(parts), len(cs.I))
		}
		off := 0
		for i, p := range parts {
			if err := exact(fmt.Sprintf("SplitV part %d", i), p, cs.DT, model{cs.I[i], 1, m.d[off : off+cs.I[i]]}); err != nil {
				return err
			}
			off += cs.I[i]
		}
		return nil
	}},
	"PadRows": {func(t *rapid.T, cs *structCase) { anyMat(20, 300)(t, cs); cs.I = []int{gen.Dim(t, 0, 9)} },
		func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
			w := newModel(m.r+cs.I[0], m.c)
			copy(w.d, m.d)
			return exact("PadRows", a.PadRows(cs.I[0]), cs.DT, w)
		}},
	"PadColumns": {func(t *rapid.T, cs *structCase) { anyMat(20, 300)(t, cs); cs.I = []int{gen.Dim(t, 0, 9)} },
		func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
			w := newModel(m.r, m.c+cs.I[0]).build(func(i, j int) float64 {
				if j < m.c {
					return m.at(i, j)
				}
				return 0
			})
			return exact("PadColumns", a.PadColumns(cs.I[0]), cs.DT, w)
		}},
	"AppendRows": {func(t *rapid.T, cs *structCase) {
		anyMat(12, 200)(t, cs)
		n := gen.Dim(t, 0, 6)
		for i := 0; i < n; i++ {
			if gen.Bool(t) {
				cs.Vs = append(cs.Vs, distinct(t, cs.DT2, 1, cs.A.C))
			} else {
				cs.Vs = append(cs.Vs, distinct(t, cs.DT2, cs.A.C, 1))
			}
		}
	}, func(cs structCase, a mat.Matrix, m model, vs []mat.Matrix, ms []model) error {
		w := newModel(m.r+len(ms), m.c).build(func(i, j int) float64 {
			if i < m.r {
				return m.at(i, j)
			}
			return roundTo(cs.DT, ms[i-m.r].d[j])
		})
		return exact("AppendRows", a.AppendRows(vs...), cs.DT, w)
	}},
	"Augment": {func(t *rapid.T, cs *structCase) {
		n := gen.Dim(t, 0, 14)
		cs.A = distinct(t, cs.DT, n, n)
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		w := newModel(m.r, 2*m.c).build(func(i, j int) float64 {
			if j < m.c {
				return m.at(i, j)
			}
			if j-m.c == i {
				return 1
			}
			return 0
		})
		return exact("Augment", a.Augment(), cs.DT, w)
	}},
	"SwapInPlace": {func(t *rapid.T, cs *structCase) {
		nonEmptyMat(20, 300)(t, cs)
		cs.I = []int{gen.U(t, cs.A.R), gen.U(t, cs.A.R)}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		w := newModel(m.r, m.c).build(func(i, j int) float64 {
			switch i {
			case cs.I[0]:
				return m.at(cs.I[1], j)
			case cs.I[1]:
				return m.at(cs.I[0], j)
			}
			return m.at(i, j)
		})
		return exact("SwapInPlace", a.SwapInPlace(cs.I[0], cs.I[1]), cs.DT, w)
	}},
	"CloneCopy": {anyMat(20, 300), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		if err := exact("Clone", a.Clone(), cs.DT, m); err != nil {
			return err
		}
		z := a.ZerosLike()
		if err := exact("ZerosLike", z, cs.DT, newModel(m.r, m.c)); err != nil {
			return err
		}
		z.Copy(a)
		if err := exact("Copy", z, cs.DT, m); err != nil {
			return err
		}
		if err := exact("OnesLike", a.OnesLike(), cs.DT, newModel(m.r, m.c).build(func(i, j int) float64 { return 1 })); err != nil {
			return err
		}
		o := mk(cs.DT2, cs.A, false).ZerosLike()
		o.Copy(a)
		w := newModel(m.r, m.c).build(func(i, j int) float64 { return roundTo(cs.DT2, m.at(i, j)) })
		if err := exact("Copy across types", o, cs.DT2, w); err != nil {
			return err
		}
		z.Zeros()
		return exact("Zeros", z, cs.DT, newModel(m.r, m.c))
	}},
	"SetAt": {func(t *rapid.T, cs *structCase) {
		nonEmptyMat(20, 300)(t, cs)
		cs.I = []int{gen.U(t, cs.A.R), gen.U(t, cs.A.C), gen.U(t, 4)}
		cs.V = F(gen.Val(t))
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		r, c := cs.I[0], cs.I[1]
		v := roundTo(cs.DT, float64(cs.V))
		if cs.I[2] >= 2 {
			v = roundTo(cs.DT, roundTo(cs.DT2, float64(cs.V)))
		}
		old := m.at(r, c)
		if g := a.ScalarAt(r, c); !sameF(g.F64(), old) || g.BitSize() != cs.DT {
			return errf("ScalarAt(%d,%d) is %v (%d bits), want %v", r, c, g.F64(), g.BitSize(), old)
		}
		if err := exact("At", a.At(r, c), cs.DT, model{1, 1, []float64{old}}); err != nil {
			return err
		}
		one := m.r == 1 || m.c == 1
		if one {
			if g := a.ScalarAt(r + c).F64(); !sameF(g, old) {
				return errf("ScalarAt(%d) is %v, want %v", r+c, g, old)
			}
			if err := exact("At", a.At(r+c), cs.DT, model{1, 1, []float64{old}}); err != nil {
				return err
			}
		}
		idx := []int{r, c}
		if one && cs.I[2]%2 == 1 {
			idx = []int{r + c}
		}
		if cs.I[2] < 2 {
			a.SetScalar(flt(64, float64(cs.V)), idx...)
		} else {
			a.SetAt(mk(cs.DT2, gen.Mat{R: 1, C: 1, D: []F{cs.V}}, false), idx...)
		}
		m.d[r*m.c+c] = v
		return exact("set element", a, cs.DT, m)
	}},
	"SetData": {func(t *rapid.T, cs *structCase) {
		anyMat(20, 300)(t, cs)
		cs.Vs = []gen.Mat{gen.MatOf(t, cs.A.R, cs.A.C, gen.Val)}
	}, func(cs structCase, a mat.Matrix, m model, vs []mat.Matrix, ms []model) error {
		a.SetData(sl(cs.DT2, ms[0].d))
		w := newModel(m.r, m.c).build(func(i, j int) float64 { return roundTo(cs.DT, roundTo(cs.DT2, ms[0].at(i, j))) })
		if err := exact("SetData", a, cs.DT, w); err != nil {
			return err
		}
		if cs.DT == 32 {
			return exact("Data", mat.NewDense[float32](mat.WithShape(m.r, m.c), mat.WithBacking(mat.Data[float32](a))), cs.DT, w)
		}
		return exact("Data", mat.NewDense[float64](mat.WithShape(m.r, m.c), mat.WithBacking(mat.Data[float64](a))), cs.DT, w)
	}},
	"Apply": {anyMat(20, 300), func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		type call struct {
			r, c int
			v    float64
		}
		var calls []call
		fn := func(r, c int, v float64) float64 {
			calls = append(calls, call{r, c, v})
			return float64(r*1000 + c)
		}
		w := newModel(m.r, m.c).build(func(i, j int) float64 { return roundTo(cs.DT, float64(i*1000+j)) })
		check := func(what string) error {
			if len(calls) != len(m.d) {
				return errf("%s: callback called %d times for %d elements", what, len(calls), len(m.d))
			}
			seen := map[[2]int]bool{}
			for _, cl := range calls {
				if cl.r < 0 || cl.c < 0 || cl.r >= m.r || cl.c >= m.c || seen[[2]int{cl.r, cl.c}] || !sameF(cl.v, m.at(cl.r, cl.c)) {
					return errf("%s: bad callback (%d,%d,%v)", what, cl.r, cl.c, cl.v)
				}
				seen[[2]int{cl.r, cl.c}] = true
			}
			calls = nil
			return nil
		}
		if err := exact("Apply", a.Apply(fn), cs.DT, w); err != nil {
			return err
		}
		if err := check("Apply"); err != nil {
			return err
		}
		z := a.ZerosLike()
		if z.ApplyInPlace(fn, a) != z {
			return errf("ApplyInPlace: did not return the receiver")
		}
		if err := exact("ApplyInPlace", z, cs.DT, w); err != nil {
			return err
		}
		if err := check("ApplyInPlace"); err != nil {
			return err
		}
		var alphas int
		fa := func(r, c int, v float64, alpha ...float64) float64 {
			if len(alpha) == 2 && alpha[0] == 7 && alpha[1] == -3 {
				alphas++
			}
			return fn(r, c, v)
		}
		if err := exact("ApplyWithAlpha", a.ApplyWithAlpha(fa, 7, -3), cs.DT, w); err != nil {
			return err
		}
		if err := check("ApplyWithAlpha"); err != nil {
			return err
		}
		z = a.ZerosLike()
		if z.ApplyWithAlphaInPlace(fa, a, 7, -3) != z {
			return errf("ApplyWithAlphaInPlace: did not return the receiver")
		}
		if err := exact("ApplyWithAlphaInPlace", z, cs.DT, w); err != nil {
			return err
		}
		if err := check("ApplyWithAlphaInPlace"); err != nil {
			return err
		}
		if alphas != 2*len(m.d) {
			return errf("ApplyWithAlpha: alpha passed correctly %d of %d times", alphas, 2*len(m.d))
		}
		return nil
	}},
	"DoNonZero": {func(t *rapid.T, cs *structCase) {
		anyMat(16, 200)(t, cs)
		for i := range cs.A.D {
			if gen.Chance(t, 30) {
				cs.A.D[i] = 0
			}
		}
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		seen := map[[2]int]int{}
		var bad error
		a.DoNonZero(func(r, c int, v float64) {
			if r < 0 || c < 0 || r >= m.r || c >= m.c || !sameF(v, m.at(r, c)) {
				bad = errf("DoNonZero: bad callback (%d,%d,%v)", r, c, v)
			}
			seen[[2]int{r, c}]++
		})
		if bad != nil {
			return bad
		}
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				want := 1
				if m.at(i, j) == 0 {
					want = 0
				}
				if seen[[2]int{i, j}] != want {
					return errf("DoNonZero: element (%d,%d)=%v visited %d times", i, j, m.at(i, j), seen[[2]int{i, j}])
				}
			}
		}
		if m.r != 1 && m.c != 1 {
			return nil
		}
		got := map[int]int{}
		a.DoVecNonZero(func(i int, v float64) {
			if i < 0 || i >= len(m.d) || !sameF(v, m.d[i]) {
				bad = errf("DoVecNonZero: bad callback (%d,%v)", i, v)
			}
			got[i]++
		})
		if bad != nil {
			return bad
		}
		for i, v := range m.d {
			if (v != 0) != (got[i] == 1) {
				return errf("DoVecNonZero: element %d=%v visited %d times", i, v, got[i])
			}
		}
		return nil
	}},
	"Construct": {func(t *rapid.T, cs *structCase) {
		anyMat(16, 200)(t, cs)
		n := gen.Dim(t, 1, 20)
		cs.I = []int{n, gen.U(t, n)}
		cs.V = F(roundTo(cs.DT, gen.Val(t)))
	}, func(cs structCase, a mat.Matrix, m model, _ []mat.Matrix, _ []model) error {
		if cs.DT == 32 {
			return evalConstruct[float32](cs, a, m)
		}
		return evalConstruct[float64](cs, a, m)
	}},
}

func sameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func evalConstruct[T float32 | float64](cs structCase, a mat.Matrix, m model) error {
	n, idx, v := cs.I[0], cs.I[1], float64(cs.V)
	if err := exact("NewDense(shape)", mat.NewDense[T](mat.WithShape(m.r, m.c)), cs.DT, newModel(m.r, m.c)); err != nil {
		return err
	}
	if err := exact("NewDense(1-d shape)", mat.NewDense[T](mat.WithShape(n)), cs.DT, newModel(n, 1)); err != nil {
		return err
	}
	d := make([]T, len(m.d))
	for i, x := range m.d {
		d[i] = T(x)
	}
	if err := exact("NewDense(backing)", mat.NewDense[T](mat.WithBacking(d)), cs.DT, model{len(d), 1, m.d}); err != nil {
		return err
	}
	if err := exact("NewMatrix", a.NewMatrix(mat.WithShape(m.r, m.c), mat.WithBacking(d)), cs.DT, m); err != nil {
		return err
	}
	// backing of the other type is converted
	if err := exact("NewMatrix(other type)", a.NewMatrix(mat.WithShape(m.r, m.c), mat.WithBacking(m.d)), cs.DT, m); err != nil {
		return err
	}
	if err := exact("Scalar", mat.Scalar[T](T(v)), cs.DT, model{1, 1, []float64{v}}); err != nil {
		return err
	}
	if err := exact("NewScalar", a.NewScalar(v), cs.DT, model{1, 1, []float64{v}}); err != nil {
		return err
	}
	if s := mat.Scalar[T](T(v)).Item(); s.F64() != v || s.BitSize() != cs.DT {
		return errf("Item is %v, want %v", s.F64(), v)
	}
	for _, g := range []bool{true, false} {
		if mat.NewDense[T](mat.WithShape(n), mat.WithGrad(g)).RequiresGrad() != g || mat.Scalar[T](1, mat.WithGrad(g)).RequiresGrad() != g {
			return errf("WithGrad(%v) not honoured", g)
		}
	}
	w := newModel(n, 1).build(func(i, _ int) float64 { return v })
	if err := exact("CreateInitializedSlice", mat.NewDense[T](mat.WithBacking(mat.CreateInitializedSlice[T](n, T(v)))), cs.DT, w); err != nil {
		return err
	}
	w = newModel(n, 1)
	w.d[idx] = 1
	if err := exact("CreateOneHotVector", mat.NewDense[T](mat.WithBacking(mat.CreateOneHotVector[T](n, idx))), cs.DT, w); err != nil {
		return err
	}
	w = newModel(n, n).build(func(i, j int) float64 {
		if i == j {
			return 1
		}
		return 0
	})
	if err := exact("CreateIdentityMatrix", mat.NewDense[T](mat.WithShape(n, n), mat.WithBacking(mat.CreateIdentityMatrix[T](n))), cs.DT, w); err != nil {
		return err
	}
	calls := 0
	im := mat.InitializeMatrix[T](m.r, m.c, func(r, c int) T { calls++; return T(r*100 + c) })
	w = newModel(m.r, m.c).build(func(i, j int) float64 { return float64(i*100 + j) })
	if len(im) != m.r*m.c || calls != m.r*m.c {
		return errf("InitializeMatrix: %d elements, %d calls, want %d", len(im), calls, m.r*m.c)
	}
	if m.r*m.c > 0 {
		if err := exact("InitializeMatrix", mat.NewDense[T](mat.WithShape(m.r, m.c), mat.WithBacking(im)), cs.DT, w); err != nil {
			return err
		}
	}
	// predicates
	if got := mat.IsVector(a); got != (m.r == 1 || m.c == 1) {
		return errf("IsVector(%dx%d) = %v", m.r, m.c, got)
	}
	if got := mat.IsScalar(a); got != (m.r*m.c == 1) {
		return errf("IsScalar(%dx%d) = %v", m.r, m.c, got)
	}
	if !mat.SameDims(a, a.ZerosLike()) {
		return errf("SameDims(a, zeros like a) = false")
	}
	if m.r != m.c && m.r*m.c > 0 && mat.SameDims(a, a.T()) {
		return errf("SameDims(a, a.T()) = true for %dx%d", m.r, m.c)
	}
	nan := false
	for _, x := range m.d {
		nan = nan || math.IsNaN(x)
	}
	if !nan {
		if !mat.Equal(a, a.Clone()) {
			return errf("Equal(a, clone) = false")
		}
		if len(m.d) > 0 {
			b := a.Clone()
			k := idx % len(m.d)
			b.SetScalar(flt(cs.DT, 12345.5), k/m.c, k%m.c)
			if m.d[k] != 12345.5 && mat.Equal(a, b) {
				return errf("Equal = true although element %d differs", k)
			}
			if m.r != m.c && mat.Equal(a, a.Reshape(m.c, m.r)) {
				return errf("Equal = true for different shapes")
			}
		}
	}
	return nil
}

var structNames = sortedKeys(structOps)

func genStruct(t *rapid.T) structCase {
	cs := structCase{Op: gen.Pick(t, structNames...), DT: gen.DT(t)}
	cs.DT2 = cs.DT
	if gen.Chance(t, 30) {
		cs.DT2 = gen.DT(t)
	}
	structOps[cs.Op].gen(t, &cs)
	return cs
}

func evalStruct(ctx *eng.Ctx, cs structCase) error {
	ga := mkGuarded(cs.DT, cs.A)
	var vs []mat.Matrix
	var ms []model
	for _, v := range cs.Vs {
		vs = append(vs, mkGuarded(cs.DT2, v).m)
		ms = append(ms, modelOf(v))
	}
	ctx.NTIf(len(cs.A.D) > 1 || len(vs) > 1)
	ctx.Label("op=%s", cs.Op)
	if err := structOps[cs.Op].eval(cs, ga.m, modelOf(cs.A), vs, ms); err != nil {
		return err
	}
	return ga.intact()
}

func init() {
	eng.Register("C02", "struct", "random structural operation on matrices with pairwise distinct elements, zeros and specials, vs an index model, exact; non-trivial: more than one element involved", 200000, 4000000, genStruct, evalStruct)
}
