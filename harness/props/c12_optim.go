package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// optSpec is an optimiser with its configuration.
type optSpec struct {
	Kind          string
	LR            F
	Mu            F    `json:",omitempty"`
	Nesterov      bool `json:",omitempty"`
	B1, B2        F    `json:",omitempty"`
	Eps           F    `json:",omitempty"`
	Decay, Lambda F    `json:",omitempty"`
}

var optKinds = []string{"sgd", "adagrad", "rmsprop", "adam", "adamw", "radam", "lamb"}

func genOpt(t *rapid.T) optSpec {
	o := optSpec{Kind: gen.Pick(t, optKinds...), LR: F(gen.LogPos(t, -4, 0))}
	o.Eps = F(gen.Pick(t, 1e-8, 1e-8, 1e-6, 1e-3, 0.1))
	switch o.Kind {
	case "sgd":
		if gen.Chance(t, 70) {
			o.Mu, o.Nesterov = F(gen.Pick(t, 0.9, 0.5, 0.99, gen.Spread(t, 0.01, 0.99), gen.Pick(t, 1, 1.25, -0.5, gen.LogPos(t, -6, -1)))), gen.Bool(t)
		}
	case "rmsprop":
		o.Decay = F(gen.Pick(t, 0.95, 0.5, 0.9, 0, gen.Spread(t, 0.3, 0.999), gen.LogPos(t, -6, -1)))
	case "adam", "adamw", "radam", "lamb":
		o.B1 = F(gen.Pick(t, 0.9, 0, 0.5, gen.Spread(t, 0.1, 0.999), gen.LogPos(t, -6, -1)))
		o.B2 = F(gen.Pick(t, 0.999, 0.99, 0.9, 0.5, gen.Spread(t, 0.5, 0.9999), gen.Pick(t, 0, gen.Spread(t, 0.01, 0.5))))
		if o.Kind == "adamw" {
			o.Lambda = F(gen.Pick(t, 0.1, 0.01, 1, gen.Spread(t, 0.001, 1), gen.LogUniform(t, -5, 0)))
		}
		if o.Kind == "lamb" {
			o.Lambda = F(gen.Pick(t, 0.1, 0, 0.01, gen.Spread(t, 0.001, 1), gen.LogUniform(t, -5, 0)))
		}
	}
	return o
}

// optRun is the optimiser under test, with its clock.
type optRun struct {
	strategy optimizers.OptimizationStrategy
	tick     func()
	setLR    func(lr float64) bool
}

func (o optSpec) start(dt int) optRun {
	if dt == 32 {
		return startOpt[float32](o)
	}
	return startOpt[float64](o)
}

func startOpt[T float.DType](o optSpec) optRun {
	no := func(float64) bool { return false }
	switch o.Kind {
	case "sgd":
		s := sgd.New[T](sgd.NewConfig(float64(o.LR), float64(o.Mu), o.Nesterov))
		return optRun{s, func() {}, func(lr float64) bool { s.Alpha = lr; return true }}
	case "adagrad":
		s := adagrad.New[T](adagrad.NewConfig(float64(o.LR), float64(o.Eps)))
		return optRun{s, func() {}, func(lr float64) bool { s.LR = lr; return true }}
	case "rmsprop":
		s := rmsprop.New[T](rmsprop.NewConfig(float64(o.LR), float64(o.Eps), float64(o.Decay)))
		return optRun{s, func() {}, func(lr float64) bool { s.LR = lr; return true }}
	case "adam":
		s := adam.New(adam.NewConfig(float64(o.LR), float64(o.B1), float64(o.B2), float64(o.Eps)))
		return optRun{s, s.IncExample, no}
	case "adamw":
		s := adam.New(adam.NewAdamWConfig(float64(o.LR), float64(o.B1), float64(o.B2), float64(o.Eps), float64(o.Lambda)))
		return optRun{s, s.IncExample, no}
	case "radam":
		s := radam.New[T](radam.NewConfig(float64(o.LR), float64(o.B1), float64(o.B2), float64(o.Eps)))
		return optRun{s, s.IncBatch, no}
	case "lamb":
		s := lamb.New[T](lamb.NewConfig(float64(o.LR), float64(o.B1), float64(o.B2), float64(o.Eps), float64(o.Lambda)))
		return optRun{s, s.IncExample, no}
	}
	panic("harness: unknown optimiser " + o.Kind)
}

// optRef is the reference update rule. Values carry rounding bounds.
type optRef struct {
	o  optSpec
	t  *ref.Tape
	ts int // time step
	st map[int]*optState
}

type optState struct{ a, b []ref.V }

func newOptRef(o optSpec, t *ref.Tape) *optRef { return &optRef{o, t, 1, map[int]*optState{}} }

func sqrt0(v ref.V) ref.V {
	if v.X() == 0 {
		return v
	}
	return v.Sqrt()
}

// step returns the new values of parameter id from its values and gradient.
func (r *optRef) step(id int, w, g []ref.V) []ref.V {
	o := r.o
	s := r.st[id]
	if s == nil {
		s = &optState{a: make([]ref.V, len(w)), b: make([]ref.V, len(w))}
		for i := range w {
			s.a[i], s.b[i] = r.t.C(0), r.t.C(0)
		}
		r.st[id] = s
	}
	upd := make([]ref.V, len(w))
	lr, b1, b2, eps := float64(o.LR), float64(o.B1), float64(o.B2), float64(o.Eps)
	ts := float64(r.ts)
	alpha := lr * math.Sqrt(1-math.Pow(b2, ts)) / (1 - math.Pow(b1, ts))
	sq := func(v ref.V) ref.V { return v.Mul(v) }
	moments := func(i int) {
		s.a[i] = average(s.a[i], g[i], b1)
		s.b[i] = average(s.b[i], sq(g[i]), b2)
	}
	switch o.Kind {
	case "sgd":
		for i := range w {
			switch {
			case o.Mu == 0:
				upd[i] = g[i].MulC(lr)
			case !o.Nesterov:
				s.a[i] = s.a[i].MulC(float64(o.Mu)).Add(g[i].MulC(lr))
				upd[i] = s.a[i]
			default:
				prev := s.a[i].MulC(float64(o.Mu))
				s.a[i] = prev.Add(g[i].MulC(lr))
				upd[i] = s.a[i].MulC(1 + float64(o.Mu)).Sub(prev)
			}
		}
	case "adagrad":
		for i := range w {
			s.a[i] = s.a[i].Add(sq(g[i]))
			upd[i] = g[i].Div(sqrt0(s.a[i]).AddC(eps)).MulC(lr)
		}
	case "rmsprop":
		for i := range w {
			s.a[i] = average(s.a[i], sq(g[i]), float64(o.Decay))
			upd[i] = g[i].Div(sqrt0(s.a[i]).AddC(eps)).MulC(lr)
		}
	case "adam", "adamw":
		for i := range w {
			moments(i)
			u := s.a[i].Div(sqrt0(s.b[i]).AddC(eps))
			if o.Kind == "adamw" {
				u = u.Add(w[i].MulC(float64(o.Lambda)))
			}
			upd[i] = u.MulC(alpha)
		}
	case "radam":
		roMax := 2/(1-b2) - 1
		b2t := math.Pow(b2, ts)
		ro := roMax - 2*ts*b2t/(1-b2t)
		r.t.C(0).Branch(ro - 4)
		rect := 1.0
		if ro > 4 {
			rect = math.Sqrt((ro - 4) / (roMax - 4) * ((ro - 2) / (roMax - 2)) * (roMax / ro))
		}
		for i := range w {
			moments(i)
			upd[i] = s.a[i].Div(sqrt0(s.b[i]).AddC(eps * math.Sqrt(1-b2t))).MulC(alpha * rect)
		}
	case "lamb":
		for i := range w {
			moments(i)
			upd[i] = s.a[i].Div(sqrt0(s.b[i]).AddC(eps))
			if o.Lambda != 0 {
				upd[i] = upd[i].Add(w[i].MulC(float64(o.Lambda)))
			}
		}
		wn, un := sqrt0(ref.Dot(r.t, w, w)), sqrt0(ref.Dot(r.t, upd, upd))
		for i := range w {
			if wn.X() != 0 && un.X() != 0 {
				upd[i] = upd[i].Mul(wn.Div(un))
			}
			upd[i] = upd[i].MulC(alpha)
		}
	}
	out := make([]ref.V, len(w))
	for i := range w {
		out[i] = w[i].Sub(upd[i])
	}
	return out
}

// average is the moving average a*b + x*(1-b), which may be computed as
// a + (x-a)*(1-b).
func average(a, x ref.V, b float64) ref.V {
	return a.MulC(b).Add(x.MulC(1 - b)).Slack((1 - b) * (math.Abs(a.X()) + math.Abs(x.X())))
}

// optStep is one step of a training history.
type optStep struct {
	Ticks  int   // clock ticks before the step
	Has    []int // parameter i receives a gradient iff Has[i%len] > 0; 2: in two parts
	Zero   bool  // gradients of zero
	Sparse bool  // most elements of the gradients are zero
	LR     F     // >0: change the learning rate
	Via    bool  // through Optimizer.Optimize
	Repl   int   // >0: replace the value of parameter Repl-1 (resets its state)
	Toggle bool  `json:",omitempty"` // freeze and unfreeze the parameters first
}

type optCase struct {
	DT    int
	O     optSpec
	Shape [][2]int
	Seed  uint64
	GS    F // gradient scale
	WS    F `json:",omitempty"` // parameter scale, 0 is 1
	Steps []optStep
	Late  int `json:",omitempty"` // clock ticks before the first step
}

func genOptCase(t *rapid.T) optCase {
	c := optCase{DT: gen.DT(t), O: genOpt(t), Seed: rapid.Uint64().Draw(t, "seed"), GS: F(gen.LogPos(t, -2, 2))}
	for i := gen.UInt(t, 1, 4); i > 0; i-- {
		c.Shape = append(c.Shape, [2]int{gen.Dim(t, 1, 9), gen.Pick(t, 1, gen.Dim(t, 1, 6))})
	}
	if gen.Chance(t, 8) {
		c.Shape[0] = [2]int{gen.UInt(t, 10, 40), gen.UInt(t, 1, 10)}
	}
	if gen.Large(t) {
		c.Shape = [][2]int{{gen.UInt(t, 40, 600), gen.UInt(t, 1, 5)}}
	}
	if gen.Chance(t, 10) {
		c.GS = F(gen.LogPos(t, -8, 6))
	}
	if gen.Chance(t, 10) {
		c.WS = F(gen.LogPos(t, -8, 4))
	}
	if gen.Chance(t, 15) { // training goes on after many examples
		c.Late = int(gen.LogPos(t, 0, 4.5))
	}
	c.Steps = gen.List(t, 1, 25, func(t *rapid.T) optStep {
		s := optStep{Via: gen.Bool(t), Ticks: gen.Pick(t, 1, 1, 1, 0, 2, 5)}
		if gen.Chance(t, 3) {
			s.Ticks = int(gen.LogPos(t, 1, 3.5))
		}
		s.Has = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Pick(t, 1, 1, 2, 0) })
		s.Zero, s.Sparse = gen.Chance(t, 7), gen.Chance(t, 15)
		if gen.Chance(t, 8) {
			s.LR = F(gen.LogPos(t, -4, 0))
		}
		if gen.Chance(t, 5) {
			s.Repl = gen.UInt(t, 1, 4)
		}
		s.Toggle = gen.Chance(t, 8)
		return s
	})
	return c
}

func evalOpt(ctx *eng.Ctx, c optCase) error {
	ctx.Label("%s", c.O.Kind)
	run := c.O.start(c.DT)
	t := ref.NewTape()
	rf := newOptRef(c.O, t)
	var ps []*nn.Param
	var rw [][]ref.V
	ws := float64(c.WS)
	if ws == 0 {
		ws = 1
	}
	for i, s := range c.Shape {
		m := hmat(c.DT, s[0], s[1], c.Seed, i, ws)
		ps = append(ps, nn.NewParam(mk(c.DT, m, false)))
		rw = append(rw, t.Leaf(s[0], s[1], m.Floats()).D)
	}
	opt := optimizers.New(nn.StreamParams(ps), run.strategy)
	updates, skipped := 0, 0
	for j := 0; j < c.Late; j++ {
		run.tick()
		rf.ts++
	}
	for k, s := range c.Steps {
		if k > 0 {
			for j := 0; j < s.Ticks; j++ {
				run.tick()
				rf.ts++
			}
		}
		if s.LR > 0 && run.setLR(float64(s.LR)) {
			rf.o.LR = s.LR
		}
		if i := s.Repl - 1; i >= 0 && i < len(ps) {
			m := hmat(c.DT, c.Shape[i][0], c.Shape[i][1], c.Seed, 500+k, ws)
			v := mk(c.DT, m, true)
			ps[i].ReplaceValue(v)
			rw[i] = t.Leaf(m.R, m.C, m.Floats()).D
			delete(rf.st, i)
		}
		for i, p := range ps {
			if s.Toggle && (i+k)%2 == 0 {
				p.WithGrad(false).WithGrad(true)
			} else if s.Toggle {
				p.SetRequiresGrad(false)
				p.SetRequiresGrad(true)
			}
		}
		before := make([]snap, len(ps))
		var given []*nn.Param
		grads := map[int]mat.Matrix{}
		gsnap := map[int]snap{}
		for i, p := range ps {
			before[i] = snapOf(p)
			h := s.Has[i%len(s.Has)]
			if h == 0 {
				skipped++
				continue
			}
			g := hmat(c.DT, c.Shape[i][0], c.Shape[i][1], c.Seed, 1000+k*10+i, float64(c.GS))
			for j := range g.D {
				if s.Zero || (s.Sparse && j%4 != k%4) {
					g.D[j] = 0
				} else if math.Abs(float64(g.D[j])) < float64(c.GS)*1e-3 { // no underflow of squares
					g.D[j] = c.GS * 1e-3
				}
			}
			g = g.Round(c.DT)
			gm := mk(c.DT, g, false)
			rg := t.Leaf(g.R, g.C, g.Floats()).D
			if h == 2 {
				p.AccGrad(gm)
				p.AccGrad(gm)
				for j := range rg {
					rg[j] = rg[j].Add(rg[j])
				}
			} else {
				p.AccGrad(gm)
			}
			grads[i], gsnap[i] = gm, snapOf(gm)
			rw[i] = rf.step(i, rw[i], rg)
			given = append(given, p)
			updates++
		}
		if s.Via {
			if err := opt.Optimize(); err != nil {
				return errf("step %d: Optimize failed: %v", k, err)
			}
		} else {
			for _, p := range given {
				if err := run.strategy.OptimizeParams(p); err != nil {
					return errf("step %d: OptimizeParams failed: %v", k, err)
				}
			}
		}
		for i, p := range ps {
			if p.HasGrad() {
				return errf("step %d: parameter %d still has a gradient", k, i)
			}
			if grads[i] == nil {
				if err := before[i].same(p); err != nil {
					return errf("step %d: parameter %d without gradient changed: %v", k, i, err)
				}
				continue
			}
			if err := gsnap[i].same(grads[i]); err != nil {
				return errf("step %d: the gradient tensor given to parameter %d was modified: %v", k, i, err)
			}
			if !p.RequiresGrad() {
				return errf("step %d: parameter %d does not require gradients any more", k, i)
			}
			if err := expectRef("step "+itoa(k)+": parameter "+itoa(i), p, c.DT, ref.M{R: c.Shape[i][0], C: c.Shape[i][1], D: rw[i]}, 8); err != nil {
				if t.Kink < 1e-7 {
					return nil
				}
				return err
			}
			if err := stateShapes(p, c.DT, c.Shape[i]); err != nil {
				return errf("step %d: parameter %d: %v", k, i, err)
			}
		}
	}
	ctx.NTIf(updates > 1)
	if skipped > 0 {
		ctx.Label("skips")
	}
	return nil
}

// stateShapes checks the optimiser's state of a parameter.
func stateShapes(p *nn.Param, dt int, shape [2]int) error {
	check := func(ms ...mat.Matrix) error {
		for _, m := range ms {
			if m != nil && (!shapeIs(m, shape[0], shape[1]) || dtOf(m) != dt) {
				return errf("optimiser state of shape %v and %d bits for a parameter of shape %v and %d bits", m.Shape(), dtOf(m), shape, dt)
			}
		}
		return nil
	}
	switch s := p.State.(type) {
	case *sgd.State:
		return check(s.V, s.Buf, s.VPrev, s.VTmp)
	case *adagrad.State:
		return check(s.M)
	case *rmsprop.State:
		return check(s.V)
	case *adam.State:
		return check(s.V, s.M, s.Buf1, s.Buf2, s.Buf3)
	case *radam.State:
		return check(s.V, s.M, s.Buf1, s.Buf2, s.Buf3)
	case *lamb.State:
		return check(s.V, s.M, s.Buf1, s.Buf2, s.Buf3)
	}
	return errf("optimiser state of type %T", p.State)
}

// optConfCase validates configurations and foreign states.
type optConfCase struct {
	B1, B2 F
	A, B   optSpec
}

func evalOptConf(ctx *eng.Ctx, c optConfCase) error {
	b1, b2 := float64(c.B1), float64(c.B2)
	ok := b1 >= 0 && b1 < 1 && b2 >= 0 && b2 < 1
	ctx.NTIf(!ok || c.A.Kind != c.B.Kind)
	for name, f := range map[string]func(){
		"adam.NewConfig":      func() { adam.NewConfig(0.1, b1, b2, 1e-8) },
		"adam.NewAdamWConfig": func() { adam.NewAdamWConfig(0.1, b1, b2, 1e-8, 0.1) },
		"radam.NewConfig":     func() { radam.NewConfig(0.1, b1, b2, 1e-8) },
		"lamb.NewConfig":      func() { lamb.NewConfig(0.1, b1, b2, 1e-8, 0.1) },
	} {
		if p := catch(f); (p == nil) != ok {
			return errf("%s(beta1=%v, beta2=%v): panic is %v", name, b1, b2, p)
		}
	}
	if err := checkDefaults(); err != nil {
		return err
	}
	if c.A.Kind == "lamb" {
		if err := checkLambDelta(c.A); err != nil {
			return err
		}
	}
	// the state of another optimiser is rejected and nothing changes
	pkg := func(k string) string {
		if k == "adamw" {
			return "adam"
		}
		return k
	}
	p := nn.NewParam(mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking([]float64{1, 2, 3, 4})))
	g := mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking([]float64{1, -2, 3, -4}))
	p.AccGrad(g)
	if err := c.A.start(64).strategy.OptimizeParams(p); err != nil {
		return errf("%s: %v", c.A.Kind, err)
	}
	p.AccGrad(g)
	s := snapOf(p)
	st := p.State
	if pkg(c.A.Kind) == pkg(c.B.Kind) {
		return nil
	}
	err := c.B.start(64).strategy.OptimizeParams(p)
	if err == nil {
		return errf("%s accepted the state of %s", c.B.Kind, c.A.Kind)
	}
	if e := s.same(p); e != nil {
		return errf("%s changed a parameter it rejected: %v", c.B.Kind, e)
	}
	if p.State != st {
		return errf("%s replaced the state it rejected", c.B.Kind)
	}
	return nil
}

// checkDefaults: the default configurations are admissible and lower a simple
// loss at every step.
func checkDefaults() error {
	a, r, ad, ra, la := adagrad.NewDefaultConfig(), rmsprop.NewDefaultConfig(), adam.NewDefaultConfig(), radam.NewDefaultConfig(), lamb.NewDefaultConfig()
	if p := catch(func() {
		adam.NewConfig(ad.StepSize, ad.Beta1, ad.Beta2, ad.Epsilon)
		radam.NewConfig(ra.StepSize, ra.Beta1, ra.Beta2, ra.Epsilon)
		lamb.NewConfig(la.StepSize, la.Beta1, la.Beta2, la.Epsilon, la.Lambda)
	}); p != nil {
		return errf("a default configuration is not admissible: %v", p)
	}
	run := map[string]optRun{"adagrad": {strategy: adagrad.New[float64](a)}, "rmsprop": {strategy: rmsprop.New[float64](r)}}
	s1, s2, s3 := adam.New(ad), radam.New[float64](ra), lamb.New[float64](la)
	run["adam"], run["radam"], run["lamb"] = optRun{s1, s1.IncExample, nil}, optRun{s2, s2.IncBatch, nil}, optRun{s3, s3.IncExample, nil}
	for _, name := range []string{"adagrad", "rmsprop", "adam", "radam", "lamb"} {
		o := run[name]
		p := nn.NewParam(mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{1, -2})))
		loss := math.Inf(1)
		for i := 0; i < 20; i++ {
			v := vals(p.Value())
			l := v[0]*v[0] + v[1]*v[1]
			if !(l <= loss) || i > 12 && !(l < loss) {
				return errf("%s with its default configuration: the loss goes from %v to %v in step %d", name, loss, l, i)
			}
			loss = l
			p.AccGrad(mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{2 * v[0], 2 * v[1]})))
			if err := o.strategy.OptimizeParams(p); err != nil {
				return errf("%s with its default configuration: %v", name, err)
			}
			p.ZeroGrad()
			if o.tick != nil {
				o.tick()
			}
		}
	}
	return nil
}

// checkLambDelta: CalcDelta is the difference a step makes.
func checkLambDelta(c optSpec) error {
	step := func(last func(s *lamb.Lamb[float64], p *nn.Param, g mat.Matrix) (mat.Matrix, error)) (mat.Matrix, error) {
		s := lamb.New[float64](lamb.NewConfig(float64(c.LR), float64(c.B1), float64(c.B2), float64(c.Eps), float64(c.Lambda)))
		p := nn.NewParam(mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{1, -2})))
		g := mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{0.5, 3}))
		p.AccGrad(g)
		if err := s.OptimizeParams(p); err != nil {
			return nil, err
		}
		p.ZeroGrad()
		g.ProdScalarInPlace(-2)
		return last(s, p, g)
	}
	a, err := step(func(s *lamb.Lamb[float64], p *nn.Param, g mat.Matrix) (mat.Matrix, error) {
		before := p.Value().(mat.Matrix).Clone()
		p.AccGrad(g)
		err := s.OptimizeParams(p)
		return before.Sub(p.Value().(mat.Matrix)), err
	})
	if err != nil {
		return err
	}
	b, err := step(func(s *lamb.Lamb[float64], p *nn.Param, g mat.Matrix) (mat.Matrix, error) {
		return s.CalcDelta(p.State.(*lamb.State), p.Value().(mat.Matrix), g), nil
	})
	if err != nil {
		return err
	}
	for i, v := range vals(a) {
		if w := vals(b)[i]; !(math.Abs(v-w) <= 1e-12*(4+math.Abs(v))) {
			return errf("lamb: CalcDelta gives %v, the step makes a difference of %v", vals(b), vals(a))
		}
	}
	return nil
}

func init() {
	eng.Register("C12", "history", "at least two updates; every update compared with the reference rule", 25000, 500000, genOptCase, evalOpt)
	eng.Register("C12", "config", "an inadmissible configuration or a foreign state", 1000, 10000, func(t *rapid.T) optConfCase {
		b := func() F {
			return F(gen.Pick(t, gen.Unit(t), 0, 1, -0.001, 1.5, math.NaN(), math.Nextafter(1, 0), math.Inf(1), -1))
		}
		return optConfCase{b(), b(), genOpt(t), genOpt(t)}
	}, evalOptConf)
}
