package props

import (
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// wrapCase wraps a matrix several times and works on it through the layers.
type wrapCase struct {
	DT   int
	M    gen.Mat
	Grad bool
	W    []viewWrap // from the inside to the outside
	Ops  []viewOp
}

type viewWrap struct {
	K    string
	Grad bool // of parameters
	Slow int  // of "slow": how many 100 microseconds the forward takes
	// how the new level is looked at for the first time
	First int
}

type viewOp struct {
	K    string
	L    int // level, modulo the number of levels
	I, J int // indices, 0 ≤ in range, others offsets beyond the borders
	One  bool
	Bad  int // 0: valid; 1: row index; 2: column index; 3: number of indices; 4: value not a scalar
	V    F
	DT   int // of the value
	G    []F // used cyclically
	Grad bool
	Via  int
}

var viewKinds = []string{"param", "buf", "stop", "emb", "copy", "neg", "t", "slow", "slow-sync"}

func genWraps(t *rapid.T) wrapCase {
	c := wrapCase{DT: gen.DT(t), Grad: gen.Bool(t)}
	half := func(t *rapid.T) float64 { return float64(gen.UInt(t, 0, 16)-8) / 2 }
	r, k := gen.Dim(t, 1, 5), gen.Dim(t, 1, 5)
	if gen.Chance(t, 20) {
		r, k = 1, 1
	}
	c.M = gen.MatOf(t, r, k, half)
	c.W = gen.List(t, 1, 6, func(t *rapid.T) viewWrap {
		return viewWrap{K: gen.Pick(t, viewKinds...), Grad: gen.Chance(t, 75), Slow: gen.UInt(t, 0, 3), First: gen.UInt(t, 0, 8)}
	})
	c.Ops = gen.List(t, 1, 10, func(t *rapid.T) viewOp {
		o := viewOp{K: gen.Pick(t, "set", "set", "acc", "acc", "zero", "replace", "state", "backward", "at"), L: gen.UInt(t, 0, 6)}
		o.I, o.J = gen.UInt(t, 0, 4), gen.UInt(t, 0, 4)
		o.One, o.V, o.DT = gen.Chance(t, 30), F(half(t)), gen.DT(t)
		if gen.Chance(t, 20) {
			o.Bad = gen.UInt(t, 1, 4)
		}
		o.G = gen.List(t, 1, 4, func(t *rapid.T) F { return F(half(t)) })
		o.Grad, o.Via = gen.Bool(t), gen.UInt(t, 0, 3)
		return o
	})
	return c
}

// slowFn copies its operand, taking its time.
type slowFn struct {
	x    mat.Tensor
	wait time.Duration
}

func (f *slowFn) Operands() []mat.Tensor { return []mat.Tensor{f.x} }

func (f *slowFn) Forward() (mat.Tensor, error) {
	v := f.x.Value().(mat.Matrix).Clone()
	time.Sleep(f.wait)
	return v, nil
}

func (f *slowFn) Backward(gy mat.Tensor) error {
	if f.x.RequiresGrad() {
		f.x.AccGrad(gy)
	}
	return nil
}

// store is the model of a value with its gradient.
type store struct {
	r, c int
	d    []float64
	g    []float64 // nil: none
	dt   int
	req  bool
}

func (s *store) clone() *store {
	return &store{r: s.r, c: s.c, d: append([]float64(nil), s.d...), dt: s.dt}
}

func (s *store) acc(g []float64) {
	if s.g == nil {
		s.g = make([]float64, len(g))
	}
	for i, v := range g {
		s.g[i] += v
	}
}

// viewLevel is one level of wrapping.
type viewLevel struct {
	kind  string
	t     mat.Tensor
	s     *store
	in    *viewLevel // what it wraps
	block bool       // buffers and stopped tensors
	op    bool
	p     *nn.Param
	tab   *embedding.Model
	state any
}

// the store which the level shows (parameters may replace theirs)
func (l *viewLevel) store() *store {
	if l.block {
		return l.in.store()
	}
	return l.s
}

func (l *viewLevel) requires() bool {
	if l.block {
		return false
	}
	return l.s.req
}

func (l *viewLevel) grad() []float64 {
	if l.block {
		return nil
	}
	return l.s.g
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// check compares everything the level reports with the model.
func (l *viewLevel) check() error {
	s := l.store()
	sh := l.t.Shape()
	if len(sh) != 2 || sh[0] != s.r || sh[1] != s.c || l.t.Dims() != 2 || l.t.Size() != len(s.d) {
		return errf("%s: shape %v (%d dimensions), size %d, want %d×%d", l.kind, sh, l.t.Dims(), l.t.Size(), s.r, s.c)
	}
	if got := vals(l.t); !sameFloats(got, s.d) || dtOf(l.t) != s.dt {
		return errf("%s: elements %v (float%d), want %v (float%d)", l.kind, got, dtOf(l.t), s.d, s.dt)
	}
	v := l.t.Value()
	if got := vals(v); !sameFloats(got, s.d) || !shapeIs(v, s.r, s.c) {
		return errf("%s: the value has the elements %v, want %v", l.kind, got, s.d)
	}
	for i := range s.d {
		if got := l.t.At(i/s.c, i%s.c); !mat.IsScalar(got) || got.Item().F64() != s.d[i] {
			return errf("%s: element (%d, %d) is %v, want %v", l.kind, i/s.c, i%s.c, vals(got), s.d[i])
		}
	}
	p := catch(func() {
		if got := l.t.Item().F64(); got != s.d[0] {
			panic(errf("the item is %v, want %v", got, s.d[0]))
		}
	})
	if e, ok := p.(error); ok && len(s.d) == 1 {
		return errf("%s: %v", l.kind, e)
	}
	if (p != nil) != (len(s.d) != 1) {
		return errf("%s: Item of %d elements panics with %v", l.kind, len(s.d), p)
	}
	if got := l.t.RequiresGrad(); got != l.requires() {
		return errf("%s: requires gradients: %v, want %v", l.kind, got, l.requires())
	}
	g := l.t.Grad()
	if (l.grad() != nil) != l.t.HasGrad() || (l.grad() != nil) != (g != nil) {
		return errf("%s: HasGrad is %v, Grad %v, want %v", l.kind, l.t.HasGrad(), g, l.grad())
	}
	if g != nil {
		if got := vals(g); !sameFloats(got, l.grad()) || dtOf(g) != s.dt || !shapeIs(g, s.r, s.c) {
			return errf("%s: gradient %v of shape %v, want %v", l.kind, got, g.Shape(), l.grad())
		}
	}
	if l.p != nil && l.p.State != l.state {
		return errf("%s: the optimizer state is %v, want %v", l.kind, l.p.State, l.state)
	}
	if l.tab != nil {
		n := 0
		if l.s.g != nil {
			n = 1
		}
		if got := l.tab.CountEmbedWithGrad(); got != n {
			return errf("%s: %d embeddings with gradient, want %d", l.kind, got, n)
		}
	}
	return nil
}

// look makes the first access to a level (whose forward may still be running).
func (l *viewLevel) look(how int) error {
	s := l.store()
	switch how {
	case 0:
		if sh := l.t.Shape(); sh[0] != s.r || sh[1] != s.c {
			return errf("%s: first access: shape %v, want %d×%d", l.kind, sh, s.r, s.c)
		}
	case 1:
		if n := l.t.Size(); n != len(s.d) {
			return errf("%s: first access: size %d", l.kind, n)
		}
	case 2:
		if got := vals(l.t); !sameFloats(got, s.d) {
			return errf("%s: first access: elements %v, want %v", l.kind, got, s.d)
		}
	case 3:
		if got := l.t.At(s.r-1, s.c-1).Item().F64(); got != s.d[len(s.d)-1] {
			return errf("%s: first access: last element %v, want %v", l.kind, got, s.d[len(s.d)-1])
		}
	case 4:
		if l.t.HasGrad() || l.t.Grad() != nil {
			return errf("%s: first access: has a gradient", l.kind)
		}
	case 5:
		l.t.SetAt(mat.Scalar(-1.5), 0, 0)
		s.d[0] = -1.5
	case 6:
		if d := l.t.Dims(); d != 2 {
			return errf("%s: first access: %d dimensions", l.kind, d)
		}
	case 7: // several users at once
		var wg sync.WaitGroup
		var bad error
		var mu sync.Mutex
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got := vals(l.t.Value()); !sameFloats(got, s.d) {
					mu.Lock()
					bad = errf("%s: first accesses: elements %v, want %v", l.kind, got, s.d)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return bad
	default:
		l.t.Value()
	}
	return nil
}

func wrapView(in *viewLevel, w viewWrap, dt int) *viewLevel {
	l := &viewLevel{kind: w.K, in: in}
	transposed := func() {
		s := in.store()
		n := &store{r: s.c, c: s.r, dt: s.dt, d: make([]float64, len(s.d))}
		for i := range s.d {
			n.d[(i%s.c)*s.r+i/s.c] = s.d[i]
		}
		l.s = n
	}
	switch w.K {
	case "param", "emb":
		p := nn.NewParam(in.t.Value().(mat.Matrix))
		l.s = in.store().clone()
		l.s.req = true
		if !w.Grad {
			if p.WithGrad(false) != p {
				panic(errf("WithGrad returns another parameter"))
			}
			l.s.req = false
		}
		l.p, l.t = p, p
		if w.K == "emb" {
			l.tab = embedding.New[float32](3, 2)
			if dt == 64 {
				l.tab = embedding.New[float64](3, 2)
			}
			l.tab.Weights[1] = p
			e, err := l.tab.Embedding(1)
			if err != nil {
				panic(err)
			}
			l.t = e
		}
		return l
	case "buf":
		l.t, l.block = nn.Buf(in.t), true
		return l
	case "stop":
		l.t, l.block = ag.StopGrad(in.t), true
		return l
	}
	l.op = true
	l.s = in.store().clone()
	switch w.K {
	case "copy":
		l.t = ag.Copy(in.t)
	case "neg":
		l.t = ag.Neg(in.t)
		for i, v := range l.s.d {
			l.s.d[i] = 0 - v
		}
	case "t":
		l.t = ag.T(in.t)
		transposed()
	case "slow", "slow-sync":
		l.t = ag.NewOperator(&slowFn{x: in.t, wait: time.Duration(w.Slow) * 100 * time.Microsecond}).Run(w.K == "slow")
	}
	l.s.req = in.requires()
	return l
}

// push is the model of a backward pass which reaches the level.
func (l *viewLevel) push() {
	if !l.op || !l.s.req {
		return
	}
	g := append([]float64(nil), l.s.g...)
	switch l.kind {
	case "neg":
		for i := range g {
			g[i] = -g[i]
		}
	case "t":
		for i := range g {
			// element (a, b) of the operand is (b, a) here
			n := l.s.r
			g[i] = l.s.g[(i%n)*l.s.c+i/n]
		}
	}
	if l.in.block {
		return
	}
	l.in.s.acc(g)
	l.in.push()
}

func evalWraps(ctx *eng.Ctx, c wrapCase) error {
	m := c.M.Round(c.DT)
	base := &viewLevel{kind: "matrix", t: mk(c.DT, m, c.Grad), s: &store{r: m.R, c: m.C, d: m.Floats(), dt: c.DT, req: c.Grad}}
	levels := []*viewLevel{base}
	for i, w := range c.W {
		l := wrapView(levels[i], w, c.DT)
		levels = append(levels, l)
		if err := l.look(w.First); err != nil {
			return err
		}
		l.t.Value() // done before anything below is modified
	}
	all := func(when string) error {
		for i, l := range levels {
			if err := l.check(); err != nil {
				return errf("%s: level %d: %v", when, i, err)
			}
		}
		return nil
	}
	if err := all("at first"); err != nil {
		return err
	}
	for i, o := range c.Ops {
		l := levels[o.L%len(levels)]
		s := l.store()
		what := errf("operation %d (%s on level %d)", i, o.K, o.L%len(levels)).Error()
		full := func(gs []F) []float64 {
			g := make([]float64, len(s.d))
			for k := range g {
				g[k] = float64(gs[k%len(gs)])
			}
			return g
		}
		switch o.K {
		case "set", "at":
			r, k := o.I%s.r, o.J%s.c
			idx := []int{r, k}
			flat := r*s.c + k
			if o.One && (s.r == 1 || s.c == 1) {
				idx = []int{flat}
			}
			bad := o.Bad
			switch {
			case bad == 1:
				idx = []int{gen01(o.I, s.r), k}
			case bad == 2:
				idx = []int{r, gen01(o.J, s.c)}
			case bad == 3:
				idx = [][]int{{}, {r, k, 0}, {r, k, 0, 0}}[o.I%3]
			case bad == 4 && o.K == "at":
				bad = 0
			}
			var v mat.Tensor = mat.Scalar(float64(o.V))
			if o.DT == 32 {
				v = mat.Scalar(float32(o.V))
			}
			if bad == 4 {
				v = v.(mat.Matrix).NewMatrix(mat.WithShape(2, 1), mat.WithBacking([]float64{1, 2}))
			}
			switch o.Via {
			case 0:
				v = nn.NewParam(v.(mat.Matrix))
			case 1:
				v = ag.Copy(v)
			}
			var got mat.Tensor
			p := catch(func() {
				if o.K == "set" {
					l.t.SetAt(v, idx...)
				} else {
					got = l.t.At(idx...)
				}
			})
			if (p != nil) != (bad != 0) {
				return errf("%s: indices %v of a %d×%d matrix: panic is %v", what, idx, s.r, s.c, p)
			}
			if bad == 0 && o.K == "set" {
				s.d[flat] = float64(o.V)
				ctx.NTIf(len(c.W) > 1)
			}
			if bad == 0 && o.K == "at" && got.Item().F64() != s.d[flat] {
				return errf("%s: element %v is %v, want %v", what, idx, got.Item(), s.d[flat])
			}
		case "acc":
			g := full(o.G)
			gm := mk(o.DT, gen.Mat{R: s.r, C: s.c, D: toF(g)}, false)
			l.t.AccGrad(gm)
			if !l.block {
				l.s.acc(g)
			} else {
				ctx.NT()
			}
			gm.Zeros() // the gradient must have been copied
		case "zero":
			l.t.ZeroGrad()
			if !l.block {
				l.s.g = nil
			}
		case "replace":
			if l.p == nil {
				continue
			}
			n := gen.Mat{R: 1 + o.I, C: 1 + o.J}
			for k := 0; k < n.R*n.C; k++ {
				n.D = append(n.D, o.G[k%len(o.G)])
			}
			nm := mk(o.DT, n, o.Grad)
			held := (o.I+o.J)%3 == 1 && l.tab == nil // the new value already has a gradient
			if held {
				nm.AccGrad(nm.Clone())
			}
			l.p.ReplaceValue(nm)
			l.s = &store{r: n.R, c: n.C, d: n.Floats(), dt: o.DT, req: l.s.req}
			if held {
				l.s.acc(n.Floats())
			}
			l.state = nil
			ctx.NT()
		case "state":
			if l.p == nil {
				continue
			}
			l.state = i
			l.p.State = i
		case "backward":
			if !l.op {
				continue
			}
			if !fits(l) {
				continue // an operand was replaced by one of another shape
			}
			err := ag.Backward(l.t)
			refuse := l.s.g == nil && len(l.s.d) != 1
			if (err != nil) != refuse {
				return errf("%s: error %v, gradient %v, %d elements", what, err, l.s.g, len(l.s.d))
			}
			if err == nil && l.s.req {
				if l.s.g == nil {
					l.s.g = []float64{1}
				}
				l.push()
				ctx.NT()
			}
		}
		if err := all("after " + what); err != nil {
			return err
		}
	}
	return nil
}

// fits tells whether the operators below still have the shape of their operands.
func fits(l *viewLevel) bool {
	for ; l.op; l = l.in {
		a, b := l.s, l.in.store()
		r, c := b.r, b.c
		if l.kind == "t" {
			r, c = c, r
		}
		if a.r != r || a.c != c {
			return false
		}
	}
	return true
}

// gen01 is an index outside 0..n-1.
func gen01(i, n int) int {
	switch i % 3 {
	case 0:
		return -1
	case 1:
		return n
	}
	return n + i
}

func toF(v []float64) []F {
	o := make([]F, len(v))
	for i, x := range v {
		o[i] = F(x)
	}
	return o
}

func init() {
	eng.Register("C29", "wrappers", "an element is set through a nested wrapper, a gradient is accumulated on a buffer or stopped tensor, a parameter's value is replaced, or gradients flow through the wrappers",
		90000, 3000000, genWraps, evalWraps)
}
