package props

import (
	"math"
	"sort"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/activation"
)

// smaxCase is a vector of scores.
type smaxCase struct {
	DT    int
	Row   bool
	X     []F
	Gy    []F
	Shift int  // scores and shift are integers: shifting is exact
	Exact bool // the scores are integers
}

func genSmax(t *rapid.T) smaxCase {
	c := smaxCase{DT: gen.DT(t), Row: gen.Bool(t), Shift: gen.Int(t, -1000, 1000)}
	n := gen.Dim(t, 1, 200)
	if gen.Chance(t, 10) {
		n = 1
	}
	if gen.Large(t) {
		n = gen.UInt(t, 200, 1500)
	}
	kind := gen.U(t, 10)
	off, scale := 0.0, 1.0
	switch kind {
	case 0, 1: // moderate
		scale = gen.Spread(t, 0.1, 5)
	case 2: // wide
		scale = gen.LogPos(t, 0, 3)
	case 3: // enormous
		scale = gen.LogPos(t, 3, 37)
		if c.DT == 64 && gen.Bool(t) {
			scale = gen.LogPos(t, 30, 300)
		}
	case 4: // all negative or all positive, far from zero
		off = gen.LogUniform(t, 0, 5)
	case 5: // tiny
		scale = gen.LogPos(t, -40, -1)
	case 6: // equal
		scale, off = 0, gen.LogUniform(t, -3, 30)
	case 7: // one far above the others
		scale = gen.Spread(t, 0.1, 5)
	default: // integers with ties
		c.Exact = true
		scale = gen.Pick(t, 1.0, 3, 20, 200)
	}
	for i := 0; i < n; i++ {
		v := off + scale*gen.Spread(t, -1, 1)
		if c.Exact {
			v = math.Round(v)
		}
		c.X = append(c.X, F(roundTo(c.DT, v)))
	}
	if kind == 7 {
		c.X[gen.U(t, n)] = F(roundTo(c.DT, gen.LogPos(t, 1, 30)))
	}
	for i := 0; i < 7; i++ {
		c.Gy = append(c.Gy, F(gen.Val(t)))
	}
	return c
}

// smaxRef holds the definitions, computed relative to the maximum.
type smaxRef struct {
	n             int
	x             []float64
	max           float64
	soft, logsoft []float64
	lse           float64 // log sum exp
	sparse        []float64
	tau           float64 // relative to the maximum
	reg           float64 // of the sparsemax loss, relative to the maximum
	kink          float64 // distance of a score from the support's threshold
}

func newSmaxRef(x []float64) *smaxRef {
	r := &smaxRef{n: len(x), x: x, max: math.Inf(-1)}
	for _, v := range x {
		r.max = math.Max(r.max, v)
	}
	s := 0.0
	for _, v := range x {
		s += math.Exp(v - r.max)
	}
	for _, v := range x {
		r.soft = append(r.soft, math.Exp(v-r.max)/s)
		r.logsoft = append(r.logsoft, (v-r.max)-math.Log(s))
	}
	r.lse = r.max + math.Log(s)
	// tau solves sum max(z - tau, 0) = 1
	z := make([]float64, len(x))
	for i, v := range x {
		z[i] = v - r.max
	}
	zs := append([]float64(nil), z...)
	sort.Sort(sort.Reverse(sort.Float64Slice(zs)))
	sum := 0.0
	for k, v := range zs {
		if t := (sum + v - 1) / float64(k+1); v > t {
			sum += v
			r.tau = t
		} else {
			break
		}
	}
	r.kink = math.Inf(1)
	r.reg = 0.5
	for _, v := range z {
		r.sparse = append(r.sparse, math.Max(v-r.tau, 0))
		r.kink = math.Min(r.kink, math.Abs(v-r.tau))
		if v > r.tau {
			r.reg += 0.5 * (v*v - r.tau*r.tau)
		}
	}
	return r
}

func evalSmax(ctx *eng.Ctx, c smaxCase) error {
	n := len(c.X)
	if n == 0 {
		return nil
	}
	m := gen.Mat{R: n, C: 1, D: c.X}
	if c.Row {
		m.R, m.C = 1, n
	}
	x := m.Floats()
	r := newSmaxRef(x)
	eps, tiny := epsOf(c.DT), tinyOf(c.DT)
	nf := float64(n)
	spread := func(i int) float64 { return math.Min(r.max-x[i], 800) }

	dist := func(what string, y []float64) error {
		s := 0.0
		for i, v := range y {
			if !(v >= 0 && v <= 1+4*eps) {
				return errf("%s: element %d is %v", what, i, v)
			}
			s += v
		}
		if !(math.Abs(s-1) <= (nf+8)*eps) {
			return errf("%s: the elements sum to %v", what, s)
		}
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return x[idx[a]] < x[idx[b]] })
		for k := 1; k < n; k++ {
			a, b := idx[k-1], idx[k]
			if y[a] > y[b]*(1+8*eps)+tiny {
				return errf("%s: score %v gives %v but score %v gives %v", what, x[a], y[a], x[b], y[b])
			}
			if x[a] == x[b] && math.Abs(y[a]-y[b]) > 8*eps*y[b]+tiny {
				return errf("%s: equal scores %v give %v and %v", what, x[a], y[a], y[b])
			}
		}
		return nil
	}
	within := func(what string, got, want []float64, tol func(i int) float64) error {
		if len(got) != len(want) {
			return errf("%s: %d elements, want %d", what, len(got), len(want))
		}
		for i, g := range got {
			if !(math.Abs(g-want[i]) <= tol(i)) {
				return errf("%s: element %d of %d is %v, want %v (score %v, maximum %v)", what, i, n, g, want[i], x[i], r.max)
			}
		}
		return nil
	}
	softTol := func(i int) float64 { return (6*spread(i)+20+nf)*eps*r.soft[i] + 4*tiny }

	// the matrix method
	ym := mk(c.DT, m, false).Softmax()
	if !shapeIs(ym, n, 1) || dtOf(ym) != c.DT {
		return errf("Softmax of %dx%d: shape %v, %d bits", m.R, m.C, ym.Shape(), dtOf(ym))
	}
	if err := dist("Matrix.Softmax", vals(ym)); err != nil {
		return err
	}
	if err := within("Matrix.Softmax", vals(ym), r.soft, softTol); err != nil {
		return err
	}
	if c.Exact {
		s := gen.Mat{R: m.R, C: m.C, D: make([]F, n)}
		for i := range s.D {
			s.D[i] = c.X[i] + F(c.Shift)
		}
		ys := mk(c.DT, s, false).Softmax()
		if err := snapOf(ym).same(ys); err != nil {
			return errf("Matrix.Softmax changes when %d is added to all scores: %v", c.Shift, err)
		}
		sx, ss := vals(ag.SparseMax(mk(c.DT, m, false)).Value()), vals(ag.SparseMax(mk(c.DT, s, false)).Value())
		for i := range sx {
			if sx[i] != ss[i] {
				return errf("SparseMax changes when %d is added to all scores: element %d is %v, then %v", c.Shift, i, sx[i], ss[i])
			}
		}
		ctx.Label("shifted")
	}

	// an operator, its value and its gradient
	grad := func(what string, y mat.Tensor, leaf mat.Matrix, rows, cols int, want []float64, tol func(i int) float64, vjp func(g []float64) (w, abs []float64)) error {
		if !shapeIs(y.Value(), rows, cols) || dtOf(y.Value()) != c.DT {
			return errf("%s of %dx%d: shape %v, %d bits", what, m.R, m.C, y.Value().Shape(), dtOf(y.Value()))
		}
		if err := within(what, vals(y.Value()), want, tol); err != nil {
			return err
		}
		g := gyOf(c.DT, rows, cols, c.Gy, len(want))
		y.AccGrad(mk(c.DT, g, false))
		if err := ag.Backward(y); err != nil {
			return errf("%s: Backward: %v", what, err)
		}
		if !leaf.HasGrad() || !shapeIs(leaf.Grad(), m.R, m.C) {
			return errf("%s: gradient missing or of another shape", what)
		}
		w, abs := vjp(g.Floats())
		ga := 1.0
		for _, v := range g.Floats() {
			ga += math.Abs(v)
		}
		for i, v := range vals(leaf.Grad()) {
			if !(math.Abs(v-w[i]) <= (8*spread(i)+60+3*nf)*eps*abs[i]+8*tiny*ga) {
				return errf("%s: gradient element %d of %d is %v, want %v (score %v, maximum %v)", what, i, n, v, w[i], x[i], r.max)
			}
		}
		return nil
	}
	absSum := func(g []float64) (s, a float64) {
		for _, v := range g {
			s += v
			a += math.Abs(v)
		}
		return
	}
	softVJP := func(g []float64) (w, abs []float64) {
		dot, da := 0.0, 0.0
		for i := range g {
			dot += g[i] * r.soft[i]
			da += math.Abs(g[i]) * r.soft[i] * (1 + spread(i)/20)
		}
		for i := range g {
			w = append(w, r.soft[i]*(g[i]-dot))
			abs = append(abs, r.soft[i]*(math.Abs(g[i])+da)+4*tiny)
		}
		return
	}
	l := mk(c.DT, m, true)
	if err := grad("ag.Softmax", ag.Softmax(l), l, n, 1, r.soft, softTol, softVJP); err != nil {
		return err
	}
	l = mk(c.DT, m, true)
	if err := grad("activation.Softmax", activation.New(activation.Softmax).Forward(l)[0], l, n, 1, r.soft, softTol, softVJP); err != nil {
		return err
	}

	sparseTol := func(i int) float64 { return (nf + 16) * 2 * eps }
	l = mk(c.DT, m, true)
	sp := ag.SparseMax(l)
	if err := dist("ag.SparseMax", vals(sp.Value())); err != nil {
		return err
	}
	if r.kink > (nf+16)*8*eps {
		cnt := 0.0
		for _, v := range r.sparse {
			if v > 0 {
				cnt++
			}
		}
		if err := grad("ag.SparseMax", sp, l, m.R, m.C, r.sparse, sparseTol, func(g []float64) (w, abs []float64) {
			s, a := 0.0, 0.0
			for i := range g {
				if r.sparse[i] > 0 {
					s += g[i]
					a += math.Abs(g[i])
				}
			}
			for i := range g {
				if r.sparse[i] > 0 {
					w, abs = append(w, g[i]-s/cnt), append(abs, math.Abs(g[i])+a)
				} else {
					w, abs = append(w, 0), append(abs, 0)
				}
			}
			return
		}); err != nil {
			return err
		}
		want := make([]float64, n)
		for i := range want {
			want[i] = (x[i] - r.max) - r.reg
		}
		l = mk(c.DT, m, true)
		if err := grad("ag.SparseMaxLoss", ag.SparseMaxLoss(l), l, m.R, m.C, want, func(i int) float64 {
			return (nf + 16) * 4 * eps * (r.max - x[i] + 2)
		}, func(g []float64) (w, abs []float64) {
			s, a := absSum(g)
			for i := range g {
				w, abs = append(w, g[i]-r.sparse[i]*s), append(abs, math.Abs(g[i])+2*a)
			}
			return
		}); err != nil {
			return err
		}
	} else if err := within("ag.SparseMax", vals(sp.Value()), r.sparse, sparseTol); err != nil {
		return err
	}

	logTol := func(i int) float64 { return (20 + nf) * 4 * eps * (r.max - x[i] + 1) }
	logVJP := func(g []float64) (w, abs []float64) {
		s, a := absSum(g)
		for i := range g {
			w, abs = append(w, g[i]-r.soft[i]*s), append(abs, math.Abs(g[i])+r.soft[i]*(1+spread(i))*a+tiny)
		}
		return
	}
	if r.max-minOf(x) < maxOf(c.DT)/4 {
		l = mk(c.DT, m, true)
		if err := grad("ag.LogSoftmax", ag.LogSoftmax(l), l, n, 1, r.logsoft, logTol, logVJP); err != nil {
			return err
		}
		l = mk(c.DT, m, true)
		if err := grad("activation.LogSoftmax", activation.New(activation.LogSoftmax).Forward(l)[0], l, n, 1, r.logsoft, logTol, logVJP); err != nil {
			return err
		}
	}

	lseTol := (20+nf)*eps*(1+math.Log(nf)) + 4*eps*math.Abs(r.max)
	lseVJP := func(g []float64) (w, abs []float64) {
		for i := range x {
			w, abs = append(w, r.soft[i]*g[0]), append(abs, (r.soft[i]*(1+spread(i))+4*tiny)*math.Abs(g[0]))
			if x[i] == r.max {
				abs[i] += 2 * math.Abs(g[0])
			}
		}
		return
	}
	l = mk(c.DT, m, true)
	if err := grad("ag.LogSumExp", ag.LogSumExp(l), l, 1, 1, []float64{r.lse}, func(int) float64 { return lseTol }, lseVJP); err != nil {
		return err
	}
	got := vals(ag.LogSumExp(mk(c.DT, m, false)).Value())[0]
	if got < r.max-4*eps*math.Abs(r.max)-tiny || got > r.max+math.Log(nf)+lseTol {
		return errf("ag.LogSumExp is %v for the maximum %v of %d scores", got, r.max, n)
	}
	if n > 1 && n <= 40 {
		var ls []mat.Tensor
		for _, v := range m.D {
			ls = append(ls, mk(c.DT, gen.Mat{R: 1, C: 1, D: []F{v}}, true))
		}
		y := ag.LogSumExp(ls...)
		if v := vals(y.Value())[0]; !(math.Abs(v-r.lse) <= lseTol) {
			return errf("ag.LogSumExp of %d scalars is %v, want %v", n, v, r.lse)
		}
		if err := ag.Backward(y); err != nil {
			return errf("ag.LogSumExp of scalars: Backward: %v", err)
		}
		w, abs := lseVJP([]float64{1})
		for i, l := range ls {
			if !l.HasGrad() {
				return errf("ag.LogSumExp of scalars: operand %d received no gradient", i)
			}
			if v := vals(l.Grad())[0]; !(math.Abs(v-w[i]) <= (8*spread(i)+60+3*nf)*eps*abs[i]+8*tiny) {
				return errf("ag.LogSumExp of scalars: gradient of operand %d is %v, want %v", i, v, w[i])
			}
		}
	}
	ctx.NTIf(n > 1)
	if r.max-minOf(x) > 100 {
		ctx.Label("extreme spread")
	}
	if math.Abs(r.max) > 1000 {
		ctx.Label("large magnitude")
	}
	return nil
}

func minOf(x []float64) float64 {
	m := math.Inf(1)
	for _, v := range x {
		m = math.Min(m, v)
	}
	return m
}

func init() {
	eng.Register("C22", "scores",
		"softmax, sparsemax, sparsemax loss, log-softmax and log-sum-exp of one score vector (moderate, wide, enormous, offset, tiny, equal, tied, one dominant) with gradients vs their definitions relative to the maximum; non-trivial: more than one score",
		20000, 400000, genSmax, evalSmax)
}
