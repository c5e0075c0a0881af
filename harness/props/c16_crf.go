package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/crf"
)

// crfCase is a conditional random field with emissions and a gold path.
type crfCase struct {
	DT     int
	S, L   int
	TM, EM []F // values, used cyclically
	TScale F
	EScale F
	Shift  F // added to every emission
	TShift F // added to every transition
	Gold   []int
	Req    []int // emission i requires gradients iff Req[i%len] > 0; 2: through an operator
	TReq   bool
	Gy     F
}

func genCRF(long bool) func(t *rapid.T) crfCase {
	return func(t *rapid.T) crfCase {
		c := crfCase{DT: gen.DT(t), TScale: 1, EScale: 1, TReq: !gen.Chance(t, 15)}
		if long {
			c.S, c.L = gen.UInt(t, 1, 6), gen.UInt(t, 8, 60)
			if gen.Chance(t, 20) {
				c.L = gen.UInt(t, 60, 250)
				c.S = gen.UInt(t, 1, 3)
			}
			if gen.Chance(t, 6) { // many labels
				c.S, c.L = gen.UInt(t, 7, 40), gen.UInt(t, 6, 14)
			}
		} else {
			c.S, c.L = gen.UInt(t, 1, 5), gen.UInt(t, 1, 5)
		}
		ties := gen.Chance(t, 30)
		if ties {
			c.TM = gen.List(t, 1, 36, func(t *rapid.T) F { return F(gen.Int(t, -2, 2)) })
			c.EM = gen.List(t, 1, 40, func(t *rapid.T) F { return F(gen.Int(t, -2, 2)) })
		} else {
			c.TM = gen.List(t, 4, 36, func(t *rapid.T) F { return F(gen.Spread(t, -2, 2)) })
			c.EM = gen.List(t, 4, 40, func(t *rapid.T) F { return F(gen.Spread(t, -2, 2)) })
		}
		exact := ties && gen.Chance(t, 30)
		if exact { // all sums stay exact: any difference decides
			c.EScale = F(math.Ldexp(1, gen.Int(t, -90, 40)))
			c.TScale = c.EScale
		}
		if !exact && gen.Chance(t, 40) {
			c.EScale = F(gen.LogUniform(t, -2, 4))
		}
		if !exact && gen.Chance(t, 40) {
			c.TScale = F(gen.LogUniform(t, -2, 4))
		}
		if !exact && gen.Chance(t, 30) {
			c.Shift = F(gen.Spread(t, -1, 1) * gen.Pick(t, 10.0, 100, 1000))
		}
		if !exact && gen.Chance(t, 30) {
			c.TShift = F(gen.Spread(t, -1, 1) * gen.Pick(t, 10.0, 100, 1000))
		}
		c.Gold = gen.List(t, 1, max(c.L, 1), func(t *rapid.T) int { return gen.U(t, 42) })
		c.Req = gen.List(t, 1, 3, func(t *rapid.T) int { return gen.Int(t, 0, 2) })
		c.Gy = F(gen.Pick(t, 1.0, 1, -1, 0.5, 2.25))
		return c
	}
}

func (c crfCase) mats() (tr gen.Mat, em []gen.Mat) {
	tr = gen.Mat{R: c.S + 1, C: c.S + 1, D: make([]F, (c.S+1)*(c.S+1))}
	for i := range tr.D {
		tr.D[i] = c.TM[i%len(c.TM)]*c.TScale + c.TShift
	}
	for l := 0; l < c.L; l++ {
		m := gen.Mat{R: c.S, C: 1, D: make([]F, c.S)}
		for i := range m.D {
			m.D[i] = c.EM[(l*c.S+i)%len(c.EM)]*c.EScale + c.Shift
		}
		em = append(em, m.Round(c.DT))
	}
	return tr.Round(c.DT), em
}

// pathScore is the score of a label path, and the sum of the magnitudes.
func pathScore(tr gen.Mat, em []gen.Mat, path []int) (s, abs float64) {
	prev := 0
	add := func(v float64) { s += v; abs += math.Abs(v) }
	for l, y := range path {
		add(tr.At(prev, y+1))
		add(float64(em[l].D[y]))
		prev = y + 1
	}
	add(tr.At(prev, 0))
	return
}

func eachPath(s, l int, f func(p []int)) {
	p := make([]int, l)
	for {
		f(p)
		i := l - 1
		for i >= 0 {
			p[i]++
			if p[i] < s {
				break
			}
			p[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func evalCRF(ctx *eng.Ctx, c crfCase) error {
	tr, em := c.mats()
	gold := make([]int, c.L)
	for i := range gold {
		gold[i] = c.Gold[i%len(c.Gold)] % c.S
	}
	var m *crf.Model
	if c.DT == 32 {
		m = crf.New[float32](c.S)
	} else {
		m = crf.New[float64](c.S)
	}
	if err := checkBuilt(c.DT, modelSpec{Kind: "crf", A: []int{c.S}}, m); err != nil {
		return err
	}
	setParam(m.TransitionScores, tr)
	m.TransitionScores.SetRequiresGrad(c.TReq)
	short := c.L <= 5
	ctx.Label("short=%v dt=%d", short, c.DT)

	var leaves, xs []mat.Tensor
	req := func(i int) int { return c.Req[i%len(c.Req)] }
	for i, e := range em {
		l := mk(c.DT, e, req(i) > 0)
		leaves = append(leaves, l)
		var x mat.Tensor = l
		if req(i) == 2 {
			x = ag.Copy(l)
		}
		xs = append(xs, x)
	}
	snaps := []snap{snapOf(m.TransitionScores)}
	for _, l := range leaves {
		snaps = append(snaps, snapOf(l))
	}

	// decoding
	got := m.Decode(xs)
	if len(got) != c.L {
		return errf("Decode returned %d labels for %d positions", len(got), c.L)
	}
	for _, y := range got {
		if y < 0 || y >= c.S {
			return errf("Decode returned label %d of %d", y, c.S)
		}
	}
	gs, gabs := pathScore(tr, em, got)
	best, nbest := math.Inf(-1), 0
	if short {
		eachPath(c.S, c.L, func(p []int) {
			s, _ := pathScore(tr, em, p)
			if s > best {
				best, nbest = s, 0
			}
			if s == best {
				nbest++
			}
		})
	} else {
		a := make([]float64, c.S)
		for i := range a {
			a[i] = tr.At(0, i+1) + float64(em[0].D[i])
		}
		for l := 1; l < c.L; l++ {
			b := make([]float64, c.S)
			for j := range b {
				b[j] = math.Inf(-1)
				for i := range a {
					b[j] = math.Max(b[j], a[i]+tr.At(i+1, j+1)+float64(em[l].D[j]))
				}
			}
			a = b
		}
		for i := range a {
			best = math.Max(best, a[i]+tr.At(i+1, 0))
		}
	}
	if nbest > 1 {
		ctx.Label("ties")
	}
	if gs < best-float64(8*c.L+8)*eps64*(gabs+math.Abs(best)) {
		return errf("Decode returned %v with score %v, but the best path has score %v", got, gs, best)
	}

	// likelihood
	t := ref.NewTape()
	rt := t.Leaf(tr.R, tr.C, tr.Floats())
	re := make([]ref.M, c.L)
	for i, e := range em {
		re[i] = t.Leaf(e.R, e.C, e.Floats())
	}
	score := func(p []int) ref.V {
		var vs []ref.V
		prev := 0
		for l, y := range p {
			vs = append(vs, rt.At(prev, y+1), re[l].D[y])
			prev = y + 1
		}
		return ref.SumV(t, append(vs, rt.At(prev, 0)))
	}
	var total ref.V
	if short {
		var all []ref.V
		eachPath(c.S, c.L, func(p []int) { all = append(all, score(p)) })
		total = ref.LogSumExp(t, all)
	} else {
		a := make([]ref.V, c.S)
		for i := range a {
			a[i] = rt.At(0, i+1).Add(re[0].D[i])
		}
		for l := 1; l < c.L; l++ {
			b := make([]ref.V, c.S)
			for j := range b {
				in := make([]ref.V, c.S)
				for i := range a {
					in[i] = a[i].Add(rt.At(i+1, j+1)).Add(re[l].D[j])
				}
				b[j] = ref.LogSumExp(t, in)
			}
			a = b
		}
		for i := range a {
			a[i] = a[i].Add(rt.At(i+1, 0))
		}
		total = ref.LogSumExp(t, a)
	}
	want := total.Sub(score(gold))
	// rounding scale: partial path sums of the implementation
	mag := 0.0
	for _, e := range em {
		m := 0.0
		for _, v := range e.D {
			m = math.Max(m, math.Abs(float64(v)))
		}
		mag += m
	}
	tm := 0.0
	for _, v := range tr.D {
		tm = math.Max(tm, math.Abs(float64(v)))
	}
	mag += float64(c.L+1) * (tm + 2)
	tol := 4 * float64(c.L+3) * epsOf(c.DT) * mag

	loss := m.NegativeLogLoss(xs, gold)
	lv := loss.Value()
	if dtOf(lv) != c.DT || lv.Size() != 1 {
		return errf("the loss has %d bits and size %d", dtOf(lv), lv.Size())
	}
	g := vals(lv)[0]
	if math.IsNaN(g) || math.Abs(g-want.X()) > tol {
		return errf("loss is %v, want %v (tolerance %.3g)", g, want.X(), tol)
	}
	if g < -tol {
		return errf("negative loss %v", g)
	}
	anyReq := c.TReq
	for i := range leaves {
		anyReq = anyReq || req(i) > 0
	}
	if loss.RequiresGrad() != anyReq {
		return errf("the loss requires gradients: %v, a score does: %v", !anyReq, anyReq)
	}
	if !anyReq {
		return nil
	}
	loss.AccGrad(mk(c.DT, gen.Mat{R: 1, C: 1, D: []F{c.Gy}}, false))
	if err := ag.Backward(loss); err != nil {
		return errf("Backward failed: %v", err)
	}
	// the gradients are expectations under the path distribution, whose
	// weights are exponentials of scores with absolute error tol
	if gt := 8*tol + gradTol(c.DT); gt < 0.02 {
		ctx.NTIf(c.S > 1 || c.L > 1)
		gr := t.Backward([]ref.V{want}, []float64{float64(c.Gy)})
		check := func(what string, x mat.Tensor, reqd bool, leaf ref.M) error {
			if !reqd {
				if x.HasGrad() {
					return errf("%s does not require gradients but received one", what)
				}
				return nil
			}
			if !x.HasGrad() {
				return errf("%s received no gradient", what)
			}
			if !shapeIs(x.Grad(), leaf.R, leaf.C) || dtOf(x.Grad()) != c.DT {
				return errf("%s: gradient shape %v", what, x.Grad().Shape())
			}
			// expected minus observed counts: at most one per position
			for i, d := range vals(x.Grad()) {
				if w := gr.Of(leaf.D[i]); math.IsNaN(d) || math.Abs(d-w) > gt*math.Abs(float64(c.Gy))*(1e-3+math.Min(gr.AbsOf(leaf.D[i]), float64(c.L)+1)) {
					return errf("%s: gradient element %d is %v, want %v", what, i, d, w)
				}
			}
			return nil
		}
		if err := check("transition scores", m.TransitionScores, c.TReq, rt); err != nil {
			return err
		}
		for i, l := range leaves {
			if err := check("emission", l, req(i) > 0, re[i]); err != nil {
				return errf("position %d: %v", i, err)
			}
		}
	}
	for i, s := range snaps {
		var x mat.Tensor = m.TransitionScores
		if i > 0 {
			x = leaves[i-1]
		}
		if err := s.same(x); err != nil {
			return errf("an operand was modified: %v", err)
		}
	}
	nn.ZeroGrad(m)
	if m.TransitionScores.HasGrad() {
		return errf("a gradient is left after zeroing")
	}
	return nil
}

func init() {
	rule := "gradients compared (rounding small against the weights) and more than one path exists or the sequence has several positions"
	eng.Register("C16", "enumerate", rule, 4000, 60000, genCRF(false), evalCRF)
	eng.Register("C16", "long", rule, 700, 9000, genCRF(true), evalCRF)
}
