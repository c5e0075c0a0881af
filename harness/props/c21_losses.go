package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
)

// logitCase is a loss on logits: one prediction, or a sequence of them.
type logitCase struct {
	DT, WDT int
	Fn      int // 0 cross-entropy, 1 weighted, 2 focal, 3 weighted focal, 4 perplexity, 5 sequence
	Mean    bool
	Xs      []gen.Mat
	C       []int
	Gamma   F
	W       []F
	WRow    bool
	Op      []int // how each prediction reaches the loss: 1 leaf, 2 operator, 0 constant
	Gy      F     // output gradient, 0 for none
	Al      []int `json:",omitempty"` // >0: prediction i is the same tensor as prediction Al[i]-1
}

var logitNames = []string{"CrossEntropy", "WeightedCrossEntropy", "FocalLoss", "WeightedFocalLoss", "Perplexity", "CrossEntropySeq"}

func genLogit(t *rapid.T) logitCase {
	c := logitCase{DT: gen.DT(t), Fn: gen.U(t, 6), Mean: gen.Bool(t), WRow: gen.Bool(t), Gy: F(gen.Pick(t, 0, 0, gen.Val(t)))}
	c.WDT = gen.Pick(t, c.DT, c.DT, gen.DT(t))
	c.Gamma = F(gen.Pick(t, 0, 1, 2, 0.5, gen.Spread(t, 0, 5), gen.LogPos(t, -4, 2)))
	k := 1
	if c.Fn == 5 {
		k = gen.Ext(t, 1, 6, 40)
	}
	n := gen.Dim(t, 1, 60)
	if gen.Large(t) {
		n = gen.UInt(t, 60, 600)
	}
	for i := 0; i < k; i++ {
		if c.Fn == 5 && gen.Chance(t, 20) { // the vectors may have different sizes
			n = gen.UInt(t, 1, 8)
		}
		m := gen.Mat{R: n, C: 1}
		if gen.Bool(t) {
			m.R, m.C = 1, n
		}
		off, scale := 0.0, gen.Spread(t, 0.1, 4)
		switch gen.U(t, 8) {
		case 0:
			scale = gen.LogPos(t, 0, 3)
		case 1:
			scale = gen.LogPos(t, 3, 30)
		case 2:
			off = gen.LogUniform(t, 0, 4)
		case 3:
			scale = 0
		}
		for j := 0; j < n; j++ {
			m.D = append(m.D, F(roundTo(c.DT, off+scale*gen.Spread(t, -1, 1))))
		}
		c.Xs = append(c.Xs, m)
		c.C = append(c.C, gen.U(t, n))
		c.Op = append(c.Op, gen.Pick(t, 1, 1, 2, 2, 0))
	}
	if k > 1 && gen.Chance(t, 30) {
		c.Al = make([]int, k)
		for i := range c.Al {
			if j := gen.U(t, i+1); j < i && c.Al[j] == 0 {
				c.Al[i], c.Xs[i], c.Op[i] = j+1, c.Xs[j], c.Op[j]
				c.C[i] = gen.Pick(t, c.C[j], gen.U(t, len(c.Xs[j].D)))
			}
		}
	}
	for j := 0; j < n; j++ {
		c.W = append(c.W, F(roundTo(c.WDT, gen.Pick(t, gen.Spread(t, 0, 1), gen.Spread(t, 0, 1), 1, 0, -gen.Spread(t, 0, 2), gen.LogPos(t, -6, 4)))))
	}
	return c
}

// lossOf returns the loss and its derivative as functions of the
// cross-entropy.
func (c *logitCase) lossOf(ce float64) (f, d float64) {
	g := float64(c.Gamma)
	switch c.Fn {
	case 2, 3:
		q := -math.Expm1(-ce) // 1 - p
		a := math.Pow(q, g)
		f = a * ce
		d = a
		if g > 0 {
			if ce > 0 {
				d += ce * g * math.Pow(q, g-1) * math.Exp(-ce)
			} else {
				d = 0
			}
		}
		return f, d
	case 4:
		return math.Exp(ce), math.Exp(ce)
	}
	return ce, 1
}

func evalLogit(ctx *eng.Ctx, c logitCase) error {
	if len(c.Xs) == 0 {
		return nil
	}
	eps, tiny := epsOf(c.DT), tinyOf(c.DT)
	var leaves []mat.Matrix
	var xs []mat.Tensor
	from := make([]int, len(c.Xs))
	for i, m := range c.Xs {
		if from[i] = i; i < len(c.Al) && c.Al[i] > 0 && c.Al[i] <= i {
			j := c.Al[i] - 1
			from[i], leaves, xs = j, append(leaves, leaves[j]), append(xs, xs[j])
			continue
		}
		l := mk(c.DT, m, c.Op[i] > 0)
		leaves = append(leaves, l)
		if c.Op[i] == 2 {
			xs = append(xs, ag.Copy(l))
		} else {
			xs = append(xs, l)
		}
	}
	wm := gen.Mat{R: len(c.W), C: 1, D: c.W}
	if c.WRow {
		wm.R, wm.C = 1, len(c.W)
	}
	weights := mk(c.WDT, wm, false)
	wsnap := snapOf(weights)
	name := logitNames[c.Fn]
	var y mat.Tensor
	coef := 1.0
	g := float64(c.Gamma)
	switch c.Fn {
	case 0:
		y = losses.CrossEntropy(xs[0], c.C[0])
	case 1:
		y = losses.WeightedCrossEntropy(weights)(xs[0], c.C[0])
		coef = float64(c.W[c.C[0]])
	case 2:
		y = losses.FocalLoss(xs[0], c.C[0], g)
	case 3:
		y = losses.WeightedFocalLoss(weights)(xs[0], c.C[0], g)
		coef = float64(c.W[c.C[0]])
	case 4:
		y = losses.Perplexity(xs[0], c.C[0])
	default:
		y = losses.CrossEntropySeq(xs, c.C, c.Mean)
		if c.Mean {
			coef = 1 / float64(len(xs))
		}
	}
	want, tol := 0.0, 0.0
	type part struct{ d, slack float64 } // derivative by the cross-entropy and its uncertainty
	parts := make([]part, len(xs))
	var refs []*smaxRef
	for i, m := range c.Xs {
		x := m.Floats()
		r := newSmaxRef(x)
		refs = append(refs, r)
		gold := x[c.C[i]]
		ce := (r.max - gold) + (r.lse - r.max)
		if r.max == 0 || math.Abs(r.lse) < 1e10*math.Abs(r.lse-r.max) {
			s := 0.0
			for _, v := range x {
				s += math.Exp(v - r.max)
			}
			ce = (r.max - gold) + math.Log(s)
		}
		if c.C[i] >= 0 && gold == r.max { // log1p keeps the precision near 0
			s := 0.0
			for j, v := range x {
				if j != c.C[i] {
					s += math.Exp(v - r.max)
				}
			}
			ce = math.Log1p(s)
		}
		delta := eps * (8 + float64(len(x)) + 2*math.Abs(r.max) + 2*math.Abs(gold))
		f, d := c.lossOf(ce)
		lo := math.Max(0, ce-delta)
		f1, d1 := c.lossOf(lo)
		f2, d2 := c.lossOf(ce + delta)
		if c.Fn == 4 && (f2 > maxOf(c.DT)/2) {
			return nil // beyond the range
		}
		want += coef * f
		tol += math.Abs(coef)*(2*math.Max(math.Abs(f-f1), math.Abs(f2-f))+eps*30*math.Abs(f)) + eps*float64(len(xs))*math.Abs(coef*f)
		parts[i] = part{coef * d, math.Abs(coef) * 4 * math.Max(math.Abs(d-d1), math.Abs(d2-d))}
		if (c.Fn == 2 || c.Fn == 3) && g > 0 && g < 1 {
			// between 0 and the rounding of 1-p the power is steep
			parts[i].slack += math.Abs(coef) * 8 * math.Pow(delta, g)
		}
	}
	if !mat.IsScalar(y) || dtOf(y) != c.DT {
		return errf("%s: shape %v, %d bits", name, y.Value().Shape(), dtOf(y))
	}
	got := vals(y.Value())[0]
	if !(math.Abs(got-want) <= tol+4*tiny) {
		return errf("%s: loss %v, want %v (tolerance %.3g)", name, got, want, tol)
	}
	if coef >= 0 && got < -tiny {
		return errf("%s: the loss %v is negative", name, got)
	}
	req := false
	for i := range leaves {
		req = req || leaves[i].RequiresGrad()
	}
	if y.RequiresGrad() != req {
		return errf("%s: the loss requires gradients: %v, a prediction does: %v", name, !req, req)
	}
	if !req {
		return nil
	}
	gy := 1.0
	if c.Gy != 0 {
		gy = roundTo(c.DT, float64(c.Gy))
		y.AccGrad(mk(c.DT, gen.Mat{R: 1, C: 1, D: []F{F(gy)}}, false))
	}
	if err := ag.Backward(y); err != nil {
		return errf("%s: Backward: %v", name, err)
	}
	for i, l := range leaves {
		if c.Op[i] == 0 {
			if l.HasGrad() {
				return errf("%s: a constant prediction received a gradient", name)
			}
			continue
		}
		if !l.HasGrad() || !shapeIs(l.Grad(), c.Xs[i].R, c.Xs[i].C) {
			return errf("%s: prediction %d: gradient missing or of another shape", name, i)
		}
		if from[i] != i {
			continue
		}
		for j, v := range vals(l.Grad()) {
			w, t := 0.0, 8*tiny
			for k := range c.Xs {
				if from[k] != i {
					continue
				}
				r, p := refs[k], parts[k]
				dd := r.soft[j]
				sp := math.Min(r.max-r.x[j], 800)
				a := r.soft[j]*(1+sp) + 4*tiny
				if j == c.C[k] {
					dd--
					if r.x[j] == r.max { // avoids cancellation
						dd = 0
						for k := range r.soft {
							if k != j {
								dd -= r.soft[k]
							}
						}
					}
					a++
				}
				if r.x[j] == r.max {
					a += 2
				}
				w += gy * p.d * dd
				t += math.Abs(gy) * (p.slack + 8*tiny*math.Abs(p.d) + math.Abs(p.d)*a*float64(60+3*r.n)*eps)
			}
			if !(math.Abs(v-w) <= t) {
				return errf("%s: gradient element %d of %d of prediction %d (gold %d) is %v, want %v (tolerance %.3g)", name, j, refs[i].n, i, c.C[i], v, w, t)
			}
		}
	}
	if err := wsnap.same(weights); err != nil {
		return errf("%s: the weights changed: %v", name, err)
	}
	ctx.NTIf(len(c.Xs[0].D) > 1)
	ctx.Label(name)
	return nil
}

// valueCase is a loss on values.
type valueCase struct {
	DT   int
	Fn   int
	Mean bool
	Xs   []gen.Mat
	Ys   []gen.Mat
	Op   []int
	YReq bool
	P    F
	// Al[i] > 0: prediction i is the same tensor as prediction Al[i]-1, and
	// likewise for the targets; Self: the targets are the predictions
	Al   []int `json:",omitempty"`
	Self bool  `json:",omitempty"`
}

var valueNames = []string{"MAE", "MSE", "NLL", "ZeroOneQuantization", "Norm2Quantization", "OneHotQuantization", "Distance", "MSESeq", "MAESeq", "SPG"}

func genValueLoss(t *rapid.T) valueCase {
	c := valueCase{DT: gen.DT(t), Fn: gen.U(t, len(valueNames)), Mean: gen.Bool(t), YReq: gen.Chance(t, 30), P: F(gen.Pick(t, gen.Val(t), gen.Val(t), gen.LogPos(t, -9, 2), 0))}
	k := 1
	if c.Fn >= 7 {
		k = gen.Ext(t, 1, 5, 20)
	}
	scale := gen.Pick(t, 2.0, 2, 2, 0.01, 300)
	r, cc := shape2(t, &opCase{})
	if c.Fn == 6 || c.Fn == 9 {
		r, cc = 1, 1
	}
	if c.Fn == 2 && r > 1 {
		cc = 1
	}
	for i := 0; i < k; i++ {
		if c.Fn >= 7 && c.Fn != 9 && gen.Chance(t, 20) {
			r, cc = shape2(t, &opCase{})
		}
		x := gen.GenericMat(t, r, cc, scale).Round(c.DT)
		y := gen.GenericMat(t, r, cc, scale).Round(c.DT)
		if gen.Chance(t, 10) && len(y.D) > 1 { // exact predictions of some elements
			y.D[0] = x.D[0]
		}
		if c.Fn == 2 { // probabilities and a one-hot target
			gold := gen.U(t, r*cc)
			for j := range x.D {
				x.D[j] = F(roundTo(c.DT, gen.Pick(t, gen.LogPos(t, -6, 0), gen.Spread(t, 0, 1), 0, 1)))
				y.D[j] = 0
			}
			y.D[gold] = 1
			if x.D[gold] == 0 {
				x.D[gold] = F(roundTo(c.DT, gen.LogPos(t, -6, 0)))
			}
			if gen.Chance(t, 30) { // smoothed
				for j := range x.D {
					if x.D[j] != 0 {
						y.D[j] = F(roundTo(c.DT, gen.Pick(t, gen.Spread(t, 0, 1), gen.LogPos(t, -14, 0), 0, 0)))
					}
				}
			}
		}
		c.Xs, c.Ys = append(c.Xs, x), append(c.Ys, y)
		c.Op = append(c.Op, gen.Pick(t, 1, 1, 2, 2, 0))
	}
	c.Self = c.Fn != 2 && gen.Chance(t, 4)
	if k > 1 && gen.Chance(t, 20) {
		c.Al = make([]int, k)
		for i := range c.Al {
			if j := gen.U(t, i+1); j < i && c.Al[j] == 0 {
				c.Al[i], c.Xs[i], c.Ys[i], c.Op[i] = j+1, c.Xs[j], c.Ys[j], c.Op[j]
			}
		}
	}
	return c
}

func evalValueLoss(ctx *eng.Ctx, c valueCase) error {
	if len(c.Xs) == 0 {
		return nil
	}
	name := valueNames[c.Fn]
	tp := ref.NewTape()
	var leaves, yls []mat.Matrix
	var xs, ys []mat.Tensor
	var rx, ry []ref.M
	for i, m := range c.Xs {
		if i < len(c.Al) && c.Al[i] > 0 && c.Al[i] <= i {
			j := c.Al[i] - 1
			leaves, yls, xs, ys = append(leaves, leaves[j]), append(yls, yls[j]), append(xs, xs[j]), append(ys, ys[j])
			rx, ry = append(rx, rx[j]), append(ry, ry[j])
			continue
		}
		l := mk(c.DT, m, c.Op[i] > 0)
		leaves = append(leaves, l)
		var x mat.Tensor = l
		if c.Op[i] == 2 {
			x = ag.Copy(l)
		}
		xs = append(xs, x)
		if c.Self {
			yls, ys = append(yls, l), append(ys, x)
			rx = append(rx, tp.Leaf(m.R, m.C, m.Floats()))
			ry = append(ry, rx[i])
			continue
		}
		yl := mk(c.DT, c.Ys[i], c.YReq && c.Fn != 2)
		yls = append(yls, yl)
		ys = append(ys, yl)
		rx = append(rx, tp.Leaf(m.R, m.C, m.Floats()))
		ry = append(ry, tp.Leaf(m.R, m.C, c.Ys[i].Floats()))
	}
	p := roundTo(c.DT, float64(c.P))
	sum := func(m ref.M) ref.V { return m.Sum(tp) }
	avg := func(m ref.M, mean bool) ref.V {
		if mean {
			return ref.MeanV(tp, m.D)
		}
		return sum(m)
	}
	mse := func(x, y ref.M, mean bool) ref.V { return avg(x.Sub(y).Map(ref.V.Square).Scale(0.5), mean) }
	mae := func(x, y ref.M, mean bool) ref.V { return avg(x.Sub(y).Map(ref.V.Abs), mean) }
	seq := func(f func(x, y ref.M, mean bool) ref.V) ref.V {
		var vs []ref.V
		for i := range rx {
			vs = append(vs, f(rx[i], ry[i], false))
		}
		s := ref.SumV(tp, vs)
		if c.Mean {
			s = s.MulC(1 / float64(len(rx)))
		}
		return s
	}
	zeroOne := func(x ref.M) ref.V {
		return sum(x.Map(func(v ref.V) ref.V { return v.Square().Mul(v.Neg().AddC(1).Square()) }))
	}
	norm2 := func(x ref.M) ref.V { return sum(x.Map(ref.V.Square)).AddC(-1).Square() }
	var y mat.Tensor
	var w ref.V
	targets, nonneg := true, true
	switch name {
	case "MAE":
		y, w = losses.MAE(xs[0], ys[0], c.Mean), mae(rx[0], ry[0], c.Mean)
	case "MSE":
		y, w = losses.MSE(xs[0], ys[0], c.Mean), mse(rx[0], ry[0], c.Mean)
	case "NLL":
		y = losses.NLL(xs[0], ys[0])
		var vs []ref.V
		for j, v := range c.Ys[0].D {
			if v != 0 {
				vs = append(vs, rx[0].D[j].Log().MulC(-float64(v)))
			}
		}
		w = tp.C(0)
		if len(vs) > 0 {
			w = ref.SumV(tp, vs)
		}
		targets = false
	case "ZeroOneQuantization":
		y, w, targets = losses.ZeroOneQuantization(xs[0]), zeroOne(rx[0]), false
	case "Norm2Quantization":
		y, w, targets = losses.Norm2Quantization(xs[0]), norm2(rx[0]), false
	case "OneHotQuantization":
		q := math.Abs(p)
		y, w, targets = losses.OneHotQuantization(xs[0], q), zeroOne(rx[0]).Add(norm2(rx[0])).MulC(q), false
	case "Distance":
		y, w, targets = losses.Distance(xs[0], p), rx[0].D[0].Neg().AddC(p).Abs(), false
	case "MSESeq":
		y, w = losses.MSESeq(xs, ys, c.Mean), seq(mse)
	case "MAESeq":
		y, w = losses.MAESeq(xs, ys, c.Mean), seq(mae)
	default:
		var vs []ref.V
		for i := range rx {
			vs = append(vs, rx[i].D[0].Mul(ry[i].D[0]))
		}
		y, w, nonneg = losses.SPG(xs, ys), ref.SumV(tp, vs).Neg(), false
	}
	one := ref.NewM(1, 1)
	one.D[0] = w
	if err := expectRef(name, y.Value(), c.DT, one, 16); err != nil {
		return err
	}
	if v := vals(y.Value())[0]; nonneg && v < -2*epsOf(c.DT) {
		return errf("%s: the loss %v is negative", name, v)
	}
	req := false
	for i := range leaves {
		req = req || leaves[i].RequiresGrad() || targets && yls[i].RequiresGrad()
	}
	if y.RequiresGrad() != req {
		return errf("%s: the loss requires gradients: %v, an operand does: %v", name, !req, req)
	}
	if !req {
		return nil
	}
	if err := ag.Backward(y); err != nil {
		return errf("%s: Backward: %v", name, err)
	}
	gr := tp.Backward([]ref.V{w}, []float64{1})
	for i, l := range leaves {
		if c.Op[i] == 0 {
			if l.HasGrad() {
				return errf("%s: a constant prediction received a gradient", name)
			}
		} else if !l.HasGrad() {
			return errf("%s: prediction %d received no gradient", name, i)
		} else if tp.Kink > 1e-4 {
			if err := expectGrad(errf("%s: prediction %d", name, i).Error(), l, c.DT, rx[i], gr, gradTol(c.DT)); err != nil {
				return err
			}
		} else {
			for j, v := range vals(l.Grad()) {
				if math.IsNaN(v) || math.IsInf(v, 0) {
					return errf("%s: gradient element %d of prediction %d is %v", name, j, i, v)
				}
			}
		}
		if targets && c.YReq && !c.Self && tp.Kink > 1e-4 {
			if err := expectGrad(errf("%s: target %d", name, i).Error(), yls[i], c.DT, ry[i], gr, gradTol(c.DT)); err != nil {
				return err
			}
		}
	}
	ctx.NTIf(len(c.Xs[0].D) > 1 || len(c.Xs) > 1)
	ctx.Label(name)
	return nil
}

func init() {
	eng.Register("C21", "logits",
		"cross-entropy, weighted, focal, perplexity and sequence losses on logits of magnitude up to 1e30, value and gradient vs closed formulas in the cross-entropy; non-trivial: more than one class",
		60000, 1200000, genLogit, evalLogit)
	eng.Register("C21", "values",
		"the remaining losses vs a scalar tape; non-trivial: more than one element or prediction",
		60000, 1200000, genValueLoss, evalValueLoss)
}
