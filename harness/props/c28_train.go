package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sync"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
)

// TrainNet is a user-defined model: optional embeddings, a body of layers that
// may be applied twice, and a linear head.
type TrainNet struct {
	nn.Module
	Emb  *embedding.Model
	Body *Stack
	Head *linear.Model
	Reps int
}

func init() { addCodec[*TrainNet]() }

// trainRound is one round of a training history.
type trainRound struct {
	N      int   // examples
	Mode   int   // 0 a backward pass per example, 1 sum of losses, 2 several roots, 3 forward first, 4 concurrently, 5 external gradients
	Loss   int   // 0 MSE, 1 mean MSE, 2 cross-entropy, 3 mean cross-entropy
	Clip   int   // 0 none, 1 by value, 2 by norm
	Lim    F     // limit relative to the largest gradient or norm
	Norm   F     // order of the norm, 0: infinity
	Infer  []int // inference: bit 0 before the forward pass, 1 between forward and backward, 2 before the optimiser
	End    int   // 0 optimise, 1 zero the gradients, 2 hold them for the next round
	Swap   int   // 1 continue with a saved and loaded copy, 2 from a file-less re-encoding twice
	Freeze int   // >0: toggle whether a parameter requires gradients
	LR     F     // >0: new learning rate
	Ticks  int
	Twin   bool // the untouched original is trained too and must not matter
}

type trainCase struct {
	DT    int
	Vocab int // 0: no embeddings
	In    int
	Out   int
	N     int // sequence length
	Body  modelSpec
	Reps  int
	O     optSpec
	Seed  uint64
	Scale F
	Frz   []int
	R     []trainRound
}

// Layers used in training: those whose inference equals their training.
var trainKinds = []string{"linear", "linear", "activation", "highway", "srn", "gru", "lstm", "bilstm", "bigru", "birnn", "bibilstm", "slstm",
	"layernorm", "layernormsimple", "rmsnorm", "scalenorm", "adanorm", "fixnorm", "gmlpblock", "mlpmixer", "conv1x1", "dropout"}

func genTrain(t *rapid.T) trainCase {
	c := trainCase{DT: gen.Pick(t, 64, 64, 32), In: gen.UInt(t, 1, 4), Out: gen.UInt(t, 1, 4), N: gen.UInt(t, 1, 4), Reps: 1,
		Seed: uint64(gen.U(t, 1<<30)), Scale: F(gen.Pick(t, 0.7, 0.4)), O: genOpt(t)}
	if gen.Chance(t, 50) {
		c.Vocab = gen.UInt(t, 1, 6)
	}
	c.Body = genStack(t, c.In, c.N, gen.U(t, 4), trainKinds...)
	for i := range c.Body.Inner {
		switch l := &c.Body.Inner[i]; l.Kind {
		case "dropout":
			l.Eps = 0
		case "activation": // not those whose parameters have a domain
			switch actNames[mod(l.Act, len(actNames))] {
			case "SoftShrink", "SoftPlus", "CELU":
				l.Act, l.P = mod(l.Act, nElemActs), nil
			}
		}
	}
	if gen.Chance(t, 30) {
		size := c.In
		if k := len(c.Body.Inner); k > 0 {
			size = stackOut(c.Body)
		}
		if size != c.In {
			c.Body.Inner = append(c.Body.Inner, modelSpec{Kind: "linear", A: []int{size, c.In}})
		}
		c.Reps = 2
	}
	c.Frz = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 0, 0, 1) })
	c.R = gen.List(t, 1, 8, func(t *rapid.T) trainRound {
		r := trainRound{N: gen.UInt(t, 1, 3), Mode: gen.U(t, 6), Loss: gen.U(t, 4), Clip: gen.Pick(t, 0, 0, 1, 2), Lim: F(gen.LogPos(t, -2, 0.5)),
			Norm: F(gen.Pick(t, 2, 0, 1.5, 3)), End: gen.Pick(t, 0, 0, 0, 0, 0, 1, 2), Swap: gen.Pick(t, 0, 0, 0, 1, 2), Ticks: gen.Pick(t, 1, 1, 1, 0, 2), Twin: gen.Bool(t)}
		r.Infer = gen.List(t, 1, 3, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 1, 2, 4, 7) })
		if gen.Chance(t, 15) {
			r.Freeze = gen.UInt(t, 1, 9)
		}
		if gen.Chance(t, 15) {
			r.LR = F(gen.LogPos(t, -4, 0))
		}
		return r
	})
	return c
}

func stackOut(s modelSpec) int {
	l := s.Inner[len(s.Inner)-1]
	if l.Kind == "conv1x1" {
		return l.A[2]
	}
	return l.outSize()
}

func (c trainCase) build() *TrainNet {
	size := c.In
	if len(c.Body.Inner) > 0 {
		size = stackOut(c.Body)
	}
	m := &TrainNet{Body: c.Body.build(c.DT).(*Stack), Reps: c.Reps}
	if c.DT == 32 {
		m.Head = linear.New[float32](size, c.Out)
		if c.Vocab > 0 {
			m.Emb = embedding.New[float32](c.Vocab, c.In)
		}
	} else {
		m.Head = linear.New[float64](size, c.Out)
		if c.Vocab > 0 {
			m.Emb = embedding.New[float64](c.Vocab, c.In)
		}
	}
	fillParams(c.DT, m, c.Seed, float64(c.Scale))
	for i, l := range m.Body.Layers {
		if a, ok := l.(*activation.Model); ok {
			for j, p := range a.Params {
				p.SetScalar(flt(c.DT, float64(c.Body.Inner[i].P[j])), 0, 0)
			}
		}
	}
	ps, _ := allParams(m)
	for i, p := range ps {
		if c.Frz[i%len(c.Frz)] == 1 {
			p.SetRequiresGrad(false)
		}
	}
	return m
}

// input k of the history: vectors, or indices of embeddings.
func (c trainCase) input(k int) (idx []int, xs []gen.Mat) {
	for i := 0; i < c.N; i++ {
		if c.Vocab > 0 {
			u := (hval(c.Seed, 900+k, i) + 1) / 2
			idx = append(idx, min(c.Vocab-1, int(u*float64(c.Vocab))))
			xs = append(xs, gen.Mat{})
			continue
		}
		xs = append(xs, hmat(c.DT, c.In, 1, c.Seed, 1000+10*k+i, 1.5))
	}
	return
}

func (m *TrainNet) forward(xs []mat.Tensor) []mat.Tensor {
	for i := 0; i < m.Reps; i++ {
		xs = m.Body.Forward(xs...)
	}
	return m.Head.Forward(xs...)
}

func (c trainCase) run(m *TrainNet, k int) ([]mat.Tensor, error) {
	idx, ms := c.input(k)
	var xs []mat.Tensor
	if c.Vocab > 0 {
		var err error
		if xs, err = m.Emb.Encode(idx); err != nil {
			return nil, err
		}
	} else {
		for _, x := range ms {
			xs = append(xs, mk(c.DT, x, false))
		}
	}
	return m.forward(xs), nil
}

func (c trainCase) ref(e *refEnv, m *TrainNet, k int) []ref.M {
	idx, ms := c.input(k)
	var xs []ref.M
	for i := range ms {
		if c.Vocab > 0 {
			xs = append(xs, e.P(m.Emb.Weights[idx[i]]))
		} else {
			xs = append(xs, e.t.Leaf(c.In, 1, ms[i].Floats()))
		}
	}
	for i := 0; i < m.Reps; i++ {
		xs = e.model(m.Body, xs)
	}
	return e.model(m.Head, xs)
}

func (c trainCase) targets(k int) (ys []gen.Mat, cls []int) {
	for i := 0; i < c.N; i++ {
		ys = append(ys, hmat(c.DT, c.Out, 1, c.Seed, 2000+10*k+i, 1))
		cls = append(cls, min(c.Out-1, int((hval(c.Seed, 3000+k, i)+1)/2*float64(c.Out))))
	}
	return
}

// loss builds the loss of example k.
func (c trainCase) loss(kind, k int, out []mat.Tensor) mat.Tensor {
	ys, cls := c.targets(k)
	if kind >= 2 {
		return losses.CrossEntropySeq(out, cls, kind == 3)
	}
	var ts []mat.Tensor
	for _, y := range ys {
		ts = append(ts, mk(c.DT, y, false))
	}
	return losses.MSESeq(out, ts, kind == 1)
}

func (c trainCase) refLoss(kind, k int, e *refEnv, out []ref.M) ref.V {
	ys, cls := c.targets(k)
	sum := e.t.C(0)
	for i, o := range out {
		if kind >= 2 {
			sum = sum.Add(ref.LogSumExp(e.t, o.D).Sub(o.D[cls[i]]))
			continue
		}
		for j, v := range o.D {
			sum = sum.Add(v.AddC(-float64(ys[i].D[j])).Square().MulC(0.5))
		}
	}
	if kind&1 == 1 {
		sum = sum.MulC(1 / float64(len(out)))
	}
	return sum
}

// swap gives a saved and loaded copy.
func (c trainCase) swap(m *TrainNet, times int) (*TrainNet, error) {
	for i := 0; i < times; i++ {
		var b bytes.Buffer
		if err := nn.Dump(m, &b); err != nil {
			return nil, errf("Dump: %v", err)
		}
		g, err := nn.Load[*TrainNet](&b)
		if err != nil {
			return nil, errf("Load: %v", err)
		}
		m = g
	}
	return m, nil
}

func evalTrain(ctx *eng.Ctx, c trainCase) error {
	m := c.build()
	run := c.O.start(c.DT)
	otape := ref.NewTape()
	orf := newOptRef(c.O, otape)
	opt := optimizers.New(nn.Parameters(m), run.strategy)
	ps, names := allParams(m)
	ids := map[*nn.Param]int{}
	for i, p := range ps {
		if _, dup := ids[p]; dup {
			return errf("harness: parameter %s twice", names[i])
		}
		ids[p] = i
	}
	env := newRefEnv()
	var outs []ref.V // roots whose gradients have accumulated
	var seeds []float64
	var wantOut []ref.M
	held := false // gradients of the previous round are kept
	example := 0
	fuzzy := false
	updates := 0
	infer := func(r trainRound, bit int) error {
		if r.Infer[0]&bit == 0 {
			return nil
		}
		_, err := c.run(m, 500+example)
		return err
	}
	for k, r := range c.R {
		ctx.Label("mode %d", r.Mode)
		fail := func(format string, a ...any) error {
			return fmt.Errorf("round %d: "+format, append([]any{k}, a...)...)
		}
		if !held {
			env = newRefEnv()
			outs, seeds, wantOut = nil, nil, nil
			if r.Swap > 0 {
				old := m
				n, err := c.swap(m, r.Swap)
				if err != nil {
					return fail("%v", err)
				}
				m = n
				nps, nnames := allParams(m)
				if !reflect.DeepEqual(names, nnames) {
					return fail("the loaded model has parameters %v, want %v", nnames, names)
				}
				for i, p := range nps {
					if p.RequiresGrad() != ps[i].RequiresGrad() {
						return fail("parameter %s of the loaded model: RequiresGrad is %v", names[i], p.RequiresGrad())
					}
				}
				if r.Twin { // what happens to the original is of no concern to the copy
					for _, p := range ps {
						p.AccGrad(p.Value())
					}
					if err := optimizers.New(nn.Parameters(old), c.O.start(c.DT).strategy).Optimize(); err != nil {
						return fail("training the original: %v", err)
					}
				}
				ps = nps
				opt = optimizers.New(nn.Parameters(m), run.strategy)
			}
			if r.Freeze > 0 {
				p := ps[r.Freeze%len(ps)]
				p.SetRequiresGrad(!p.RequiresGrad())
			}
		}
		if r.LR > 0 && run.setLR(float64(r.LR)) {
			orf.o.LR = r.LR
		}
		before := make([]snap, len(ps))
		for i, p := range ps {
			before[i] = snapOf(p)
		}
		if err := infer(r, 1); err != nil {
			return fail("inference: %v", err)
		}

		// forward and backward passes
		type pass struct {
			ys   []mat.Tensor
			loss mat.Tensor
			err  error
		}
		ex := make([]pass, r.N)
		one := func(i int) {
			e := &ex[i]
			if e.ys, e.err = c.run(m, example+i); e.err != nil {
				return
			}
			if r.Mode != 5 {
				e.loss = c.loss(r.Loss, example+i, e.ys)
			}
		}
		back := func(xs ...mat.Tensor) error {
			if err := infer(r, 2); err != nil {
				return err
			}
			var rs []mat.Tensor
			for _, x := range xs {
				if x.RequiresGrad() {
					rs = append(rs, x)
				}
			}
			return ag.Backward(rs...)
		}
		var err error
		switch r.Mode {
		case 0:
			for i := range ex {
				if one(i); ex[i].err == nil {
					ex[i].err = back(ex[i].loss)
				}
			}
		case 1:
			var sum mat.Tensor
			for i := range ex {
				if one(i); ex[i].err != nil {
					break
				}
				if sum == nil {
					sum = ex[i].loss
				} else {
					sum = ag.Add(sum, ex[i].loss)
				}
			}
			if sum != nil {
				err = back(sum)
			}
		case 2, 3:
			var ls []mat.Tensor
			for i := range ex {
				if one(i); ex[i].err == nil {
					ls = append(ls, ex[i].loss)
				}
			}
			if r.Mode == 2 {
				err = back(ls...)
				break
			}
			for i := len(ls) - 1; i >= 0; i-- {
				if e := back(ls[i]); e != nil {
					err = e
				}
			}
		case 4:
			var wg sync.WaitGroup
			for i := range ex {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if p := catch(func() {
						if one(i); ex[i].err == nil && ex[i].loss.RequiresGrad() {
							ex[i].err = ag.Backward(ex[i].loss)
						}
					}); p != nil {
						ex[i].err = errf("panic: %v", p)
					}
				}()
			}
			wg.Wait()
		case 5:
			var roots []mat.Tensor
			for i := range ex {
				one(i)
				for j, y := range ex[i].ys {
					if y.RequiresGrad() {
						y.AccGrad(mk(c.DT, hmat(c.DT, c.Out, 1, c.Seed, 4000+10*(example+i)+j, 1), false))
						roots = append(roots, y)
					}
				}
			}
			if len(roots) > 0 {
				err = back(roots...)
			}
		}
		if err != nil {
			return fail("%v", err)
		}
		ok := true
		for i := range ex {
			if ex[i].err != nil {
				return fail("example %d: %v", i, ex[i].err)
			}
			want := c.ref(env, m, example+i)
			wantOut = append(wantOut, want...)
			ok = ok && wellConditioned(c.DT, want)
			if env.t.Kink >= 1e-6 {
				for j := range want {
					if err := expectRef(fmt.Sprintf("example %d: output %d", i, j), ex[i].ys[j].Value(), c.DT, want[j], 8); err != nil {
						return fail("%v", err)
					}
				}
			}
			if r.Mode == 5 {
				for j := range want {
					g := hmat(c.DT, c.Out, 1, c.Seed, 4000+10*(example+i)+j, 1)
					for q, v := range want[j].D {
						outs, seeds = append(outs, v), append(seeds, float64(g.D[q]))
					}
				}
				continue
			}
			l := c.refLoss(r.Loss, example+i, env, want)
			if env.t.Kink >= 1e-6 {
				if err := expectRef(fmt.Sprintf("loss %d", i), ex[i].loss.Value(), c.DT, ref.M{R: 1, C: 1, D: []ref.V{l}}, 8); err != nil {
					return fail("%v", err)
				}
			}
			outs, seeds = append(outs, l), append(seeds, 1)
		}
		example += r.N

		// gradients
		moderate := true // saturated layers lose digits
		for _, b := range before {
			for _, v := range b.vals() {
				moderate = moderate && math.Abs(v) < 4
			}
		}
		if moderate && env.t.Kink >= 2e-3 && wellConditioned(c.DT, wantOut) {
			gr := env.t.Backward(outs, seeds)
			for i, p := range ps {
				rm, used := env.par[p]
				if !p.RequiresGrad() || !used {
					if p.HasGrad() {
						return fail("parameter %s (used %v, requires gradients %v) received a gradient", names[i], used, p.RequiresGrad())
					}
					continue
				}
				if err := expectGrad("parameter "+names[i], p, c.DT, rm, gr, 10*gradTol(c.DT)); err != nil {
					return fail("%v", err)
				}
			}
			ctx.Label("gradients checked")
		}
		for i, p := range ps {
			if err := before[i].same(p); err != nil {
				return fail("the backward pass changed parameter %s: %v", names[i], err)
			}
		}
		if held = r.End == 2; held {
			continue
		}

		for _, p := range ps {
			if p.HasGrad() {
				for _, v := range vals(p.Grad()) {
					if !(math.Abs(v) < 1e6) {
						return nil // diverged
					}
				}
			}
		}

		// clipping
		grads := c.clip(r, m, ps)
		if grads.err != nil {
			return fail("%v", grads.err)
		}
		if err := infer(r, 4); err != nil {
			return fail("inference: %v", err)
		}
		for i, p := range ps {
			if (grads.g[i] != nil) != p.HasGrad() {
				return fail("inference changed whether parameter %s has a gradient", names[i])
			}
		}

		if r.End == 1 {
			nn.ZeroGrad(m)
		} else {
			if updates > 0 {
				for j := 0; j < r.Ticks; j++ {
					run.tick()
					orf.ts++
				}
			}
			if err := opt.Optimize(); err != nil {
				return fail("Optimize: %v", err)
			}
			updates++
		}
		for i, p := range ps {
			if p.HasGrad() {
				return fail("parameter %s keeps its gradient", names[i])
			}
			if r.End == 1 || grads.g[i] == nil {
				if err := before[i].same(p); err != nil {
					return fail("parameter %s without gradient changed: %v", names[i], err)
				}
				continue
			}
			s := p.Shape()
			tiny := false
			for _, v := range grads.g[i] {
				tiny = tiny || (v != 0 && math.Abs(v) < 1e-12)
			}
			w := otape.Leaf(s[0], s[1], before[i].vals())
			want := orf.step(i, w.D, otape.Leaf(s[0], s[1], grads.g[i]).D)
			if tiny && c.O.Kind == "lamb" {
				fuzzy = true // squares below the normal range
			}
			if fuzzy || otape.Kink < 1e-7 || !finite(want) {
				continue
			}
			ctx.NT()
			if err := expectRef("parameter "+names[i]+" after the update", p, c.DT, ref.M{R: s[0], C: s[1], D: want}, 8); err != nil {
				return fail("%v", err)
			}
		}
		if m.Emb != nil && m.Emb.CountEmbedWithGrad() != 0 {
			return fail("%d embeddings keep a gradient", m.Emb.CountEmbedWithGrad())
		}
		for _, p := range ps {
			for _, v := range vals(p) {
				if !(math.Abs(v) < 1e6) {
					return nil // diverged
				}
			}
		}
	}
	return nil
}

func finite(vs []ref.V) bool {
	for _, v := range vs {
		if math.IsNaN(v.X()) || math.IsInf(v.X(), 0) || math.IsNaN(v.E()) || math.IsInf(v.E(), 0) {
			return false
		}
	}
	return true
}

type clipped struct {
	g   [][]float64
	err error
}

// clip clips the gradients of the round and verifies the outcome; it returns
// the gradients.
func (c trainCase) clip(r trainRound, m *TrainNet, ps []*nn.Param) (o clipped) {
	get := func() (g [][]float64) {
		for _, p := range ps {
			if p.HasGrad() {
				g = append(g, vals(p.Grad()))
			} else {
				g = append(g, nil)
			}
		}
		return
	}
	raw := get()
	p := float64(r.Norm)
	if p == 0 {
		p = math.Inf(1)
	}
	mx, sum := 0.0, 0.0
	for _, g := range raw {
		for _, v := range g {
			mx = math.Max(mx, math.Abs(v))
		}
	}
	for _, g := range raw {
		for _, v := range g {
			sum += math.Pow(math.Abs(v)/mx, p)
		}
	}
	norm := mx
	if !math.IsInf(p, 1) {
		norm = mx * math.Pow(sum, 1/p)
	}
	if r.Clip == 0 || mx == 0 {
		return clipped{g: raw}
	}
	lim := float64(r.Lim)
	if r.Clip == 1 {
		lim *= mx
		(&gradclipper.ValueClipper{Value: lim}).ClipGrads(nn.Parameters(m))
	} else {
		lim *= norm
		(&gradclipper.NormClipper{MaxNorm: lim, NormType: p}).ClipGradients(nn.Parameters(m))
	}
	o.g = get()
	coeff := math.Min(1, lim/(norm+1e-7))
	for i := range raw {
		if (raw[i] == nil) != (o.g[i] == nil) {
			return clipped{err: errf("clipping changed whether parameter %d has a gradient", i)}
		}
		for k, v := range raw[i] {
			w := v * coeff
			if r.Clip == 1 {
				w = math.Max(-lim, math.Min(lim, v))
			}
			if !(math.Abs(o.g[i][k]-w) <= (1e-9+8*epsOf(c.DT))*math.Abs(w)+4*tinyOf(c.DT)) {
				return clipped{err: errf("clipping mode %d with limit %v, norm %v: gradient element %d of parameter %d is %v, want %v (was %v)", r.Clip, lim, norm, k, i, o.g[i][k], w, v)}
			}
		}
	}
	return o
}

func init() {
	rule := "at least one update compared with the reference optimiser on gradients of the actual history"
	eng.Register("C28", "train", rule, 12000, 240000, genTrain, evalTrain)
	eng.Register("C28", "race", rule, 500, 8000, genTrain, evalTrain, eng.Race())
}
