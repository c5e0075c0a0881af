package props

import (
	"bytes"
	"encoding/gob"
	"errors"
	"sync"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// EmbUser is a model that reaches one embedding table in two ways.
type EmbUser struct {
	nn.Module
	Enc embedding.Shared
	Dec embedding.Shared
	Tab *embedding.Model
	W   *nn.Param
}

func init() { gob.Register(&EmbUser{}) }

// embOp is one step of a history on a table of embeddings.
type embOp struct {
	Kind int   // see evalEmb
	Idx  []int // looked-up indices
	Via  int
	W    []int // weights
	Use  []int `json:",omitempty"` // 1: the looked-up vector is left out of the graph
}

type embCase struct {
	DT, Size, Dim int
	Seed          uint64
	Ops           []embOp
}

const embKinds = 12

func genEmb(t *rapid.T) embCase {
	c := embCase{DT: gen.DT(t), Size: gen.UInt(t, 1, 8), Dim: gen.UInt(t, 1, 5), Seed: rapid.Uint64().Draw(t, "seed")}
	if gen.Chance(t, 10) {
		c.Size = gen.UInt(t, 20, gen.Pick(t, 80, 80, 80, 2000))
	}
	c.Ops = gen.List(t, 1, 16, func(t *rapid.T) embOp {
		o := embOp{Kind: gen.Pick(t, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), Via: gen.U(t, 8)}
		o.Idx = gen.List(t, 1, 6, func(t *rapid.T) int { return gen.Int(t, 0, c.Size+2) })
		o.W = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Int(t, -3, 3) })
		if gen.Chance(t, 15) {
			lim := max(1, min(c.Size, gen.Pick(t, 2, 4, 40)))
			for k := gen.UInt(t, 7, 30); k > 0; k-- {
				o.Idx = append(o.Idx, 1+gen.U(t, lim))
			}
		}
		if gen.Chance(t, 8) { // every embedding
			for i := 1; i <= min(c.Size, 60); i++ {
				o.Idx = append(o.Idx, i)
			}
		}
		if gen.Chance(t, 30) {
			for k := gen.UInt(t, 1, 9); k > 0; k-- {
				o.Use = append(o.Use, gen.U(t, 2))
			}
		}
		return o
	})
	return c
}

// embModel is the reference state.
type embModel struct {
	val    [][]float64
	grad   [][]float64
	frozen []bool
}

func evalEmb(ctx *eng.Ctx, c embCase) error {
	var tab *embedding.Model
	if c.DT == 32 {
		tab = embedding.New[float32](c.Size, c.Dim)
	} else {
		tab = embedding.New[float64](c.Size, c.Dim)
	}
	if err := checkBuilt(c.DT, modelSpec{Kind: "embedding", A: []int{c.Size, c.Dim}}, tab); err != nil {
		return err
	}
	md := embModel{make([][]float64, c.Size), make([][]float64, c.Size), make([]bool, c.Size)}
	ints := func(obj int) []float64 {
		o := make([]float64, c.Dim)
		for i := range o {
			o[i] = float64(int(hval(c.Seed, obj, i) * 50))
		}
		return o
	}
	col := func(v []float64) mat.Matrix {
		m := gen.Mat{R: len(v), C: 1, D: make([]F, len(v))}
		for i := range v {
			m.D[i] = F(v[i])
		}
		return mk(c.DT, m, false)
	}
	for i := range md.val {
		md.val[i] = make([]float64, c.Dim)
	}
	user := &EmbUser{Enc: embedding.Shared{Model: tab}, Dec: embedding.Shared{Model: tab}, Tab: tab, W: nn.NewParam(col([]float64{1}))}
	link := func() {
		user.Enc.Model, user.Dec.Model = user.Tab, user.Tab
		tab = user.Tab
	}
	acc := func(i int, g []float64) {
		if md.frozen[i] {
			return
		}
		if md.grad[i] == nil {
			md.grad[i] = make([]float64, c.Dim)
		}
		for k := range g {
			md.grad[i][k] += g[k]
		}
	}
	zero := func() {
		for i := range md.grad {
			md.grad[i] = nil
		}
	}
	check := func(when string) error {
		n := 0
		for i, w := range tab.Weights {
			if !shapeIs(w, c.Dim, 1) || dtOf(w) != c.DT {
				return errf("%s: embedding %d has shape %v and %d bits", when, i, w.Shape(), dtOf(w))
			}
			for k, v := range vals(w) {
				if v != md.val[i][k] {
					return errf("%s: element %d of embedding %d is %v, want %v", when, k, i, v, md.val[i][k])
				}
			}
			if w.HasGrad() != (md.grad[i] != nil) {
				return errf("%s: embedding %d: HasGrad is %v", when, i, w.HasGrad())
			}
			if md.grad[i] != nil {
				n++
				for k, v := range vals(w.Grad()) {
					if v != md.grad[i][k] {
						return errf("%s: gradient element %d of embedding %d is %v, want %v", when, k, i, v, md.grad[i][k])
					}
				}
			}
		}
		if k := tab.CountEmbedWithGrad(); k != n {
			return errf("%s: CountEmbedWithGrad is %d, want %d", when, k, n)
		}
		seen := map[*nn.Param]int{}
		nn.ForEachParam(tab, func(p *nn.Param) { seen[p]++ })
		if len(seen) != n {
			return errf("%s: %d embeddings are traversed, want the %d with gradients", when, len(seen), n)
		}
		for i, w := range tab.Weights {
			if k := seen[w]; (k == 1) != (md.grad[i] != nil) || k > 1 {
				return errf("%s: embedding %d is traversed %d times", when, i, k)
			}
		}
		return nil
	}
	if err := check("new"); err != nil {
		return err
	}
	lookups, trained, loaded := 0, 0, false
	for k, op := range c.Ops {
		when := "op " + itoa(k)
		wk := func(j, e int) float64 { return float64(op.W[(j+e)%len(op.W)]) }
		target := []*embedding.Model{tab, user.Enc.Model, user.Dec.Model}[op.Via%3]
		valid := true
		var idx []int
		for _, i := range op.Idx {
			i-- // -1 .. Size+1
			if i < 0 || i >= c.Size {
				valid = false
			} else {
				idx = append(idx, i)
			}
		}
		switch op.Kind {
		case 0, 1: // look up, use in a graph, differentiate
			all := make([]int, len(op.Idx))
			for j, i := range op.Idx {
				all[j] = i - 1
			}
			if !valid {
				xs, err := target.Encode(all)
				if !errors.Is(err, nn.ErrInvalidIndex) || len(xs) != 0 {
					return errf("%s: Encode(%v) of %d embeddings: %d results, error %v", when, all, c.Size, len(xs), err)
				}
				for _, i := range all {
					if i < 0 || i >= c.Size {
						if e, err := target.Embedding(i); !errors.Is(err, nn.ErrInvalidIndex) || e != nil {
							return errf("%s: Embedding(%d) of %d: error %v", when, i, c.Size, err)
						}
					}
				}
			}
			if len(idx) == 0 {
				break
			}
			lookups++
			var xs []mat.Tensor
			switch {
			case op.Via < 3:
				ys, err := target.Encode(idx)
				if err != nil || len(ys) != len(idx) {
					return errf("%s: Encode(%v): %d results, error %v", when, idx, len(ys), err)
				}
				xs = ys
			case op.Via < 5:
				xs = target.MustEncode(idx)
			default:
				for _, i := range idx {
					e, err := target.Embedding(i)
					if err != nil {
						return errf("%s: Embedding(%d): %v", when, i, err)
					}
					xs = append(xs, e)
				}
			}
			var y mat.Tensor
			if len(op.Use) > 0 { // some of them are only looked up
				var us []mat.Tensor
				var ui []int
				for j, x := range xs {
					if op.Use[j%len(op.Use)] == 0 {
						us, ui = append(us, x), append(ui, idx[j])
					}
				}
				if len(us) == 0 {
					break
				}
				xs, idx = us, ui
			}
			want := make([]float64, c.Dim)
			for j, x := range xs {
				if !shapeIs(x.Value(), c.Dim, 1) {
					return errf("%s: the embedding looked up has shape %v", when, x.Value().Shape())
				}
				w := make([]float64, c.Dim)
				for e := range w {
					w[e] = wk(j, e)
					if v := vals(x.Value())[e]; v != md.val[idx[j]][e] {
						return errf("%s: element %d of embedding %d looked up is %v, want %v", when, e, idx[j], v, md.val[idx[j]][e])
					}
					want[e] += w[e] * md.val[idx[j]][e]
				}
				y = ag.Add(y, ag.Prod(x, col(w)))
			}
			if op.Via%2 == 1 && len(xs) > 1 { // also through a concatenation
				y = ag.Add(y, ag.Sum(xs...))
				for j := range xs {
					for e := range want {
						want[e] += md.val[idx[j]][e]
					}
				}
			}
			for e, v := range vals(y.Value()) {
				if v != want[e] {
					return errf("%s: output element %d is %v, want %v", when, e, v, want[e])
				}
			}
			if op.Kind == 1 || !y.RequiresGrad() { // inference only
				break
			}
			gy := ints(100 + k)
			y.AccGrad(col(gy))
			if err := ag.Backward(y); err != nil {
				return errf("%s: Backward: %v", when, err)
			}
			for j := range xs {
				g := make([]float64, c.Dim)
				for e := range g {
					g[e] = wk(j, e) * gy[e]
					if op.Via%2 == 1 && len(xs) > 1 {
						g[e] += gy[e]
					}
				}
				acc(idx[j], g)
			}
		case 2, 3: // optimiser step
			lr := 1.0
			var st optimizers.OptimizationStrategy
			if c.DT == 32 {
				st = sgd.New[float32](sgd.NewConfig(lr, 0, false))
			} else {
				st = sgd.New[float64](sgd.NewConfig(lr, 0, false))
			}
			m := []nn.Model{tab, user, user.Enc, target}[op.Via%4]
			if err := optimizers.New(nn.Parameters(m), st).Optimize(); err != nil {
				return errf("%s: Optimize: %v", when, err)
			}
			for i, g := range md.grad {
				if g != nil {
					trained++
					for e := range g {
						md.val[i][e] -= g[e]
						if md.val[i][e] > 1<<22 || md.val[i][e] < -(1<<22) {
							return nil // beyond exact arithmetic
						}
					}
				}
			}
			zero()
		case 4: // zero everything
			switch op.Via % 4 {
			case 0:
				tab.ZeroGrad()
			case 1:
				nn.ZeroGrad(tab)
			case 2:
				nn.ZeroGrad(user)
			default:
				user.Dec.ZeroGrad()
			}
			zero()
		case 5: // zero some
			for _, i := range idx {
				e, _ := target.Embedding(i)
				if op.Via%2 == 0 {
					e.ZeroGrad()
				} else {
					e.Param.ZeroGrad()
				}
				md.grad[i] = nil
			}
		case 6: // direct accumulation (accumulating on a frozen one is the caller's business)
			for j, i := range idx {
				if md.frozen[i] {
					continue
				}
				g := make([]float64, c.Dim)
				for e := range g {
					g[e] = wk(j, e)
				}
				e, _ := target.Embedding(i)
				e.AccGrad(col(g))
				acc(i, g)
			}
		case 7: // new values
			for j, i := range idx {
				v := ints(200 + 10*k + j)
				e, _ := target.Embedding(i)
				req := e.RequiresGrad()
				nv := col(v)
				nv.SetRequiresGrad(req)
				e.ReplaceValue(nv)
				md.val[i], md.grad[i] = v, nil
			}
		case 8: // freeze or thaw
			for _, i := range idx {
				// a gradient accumulated before stays until it is consumed or zeroed
				md.frozen[i] = op.Via%2 == 0
				tab.Weights[i].SetRequiresGrad(!md.frozen[i])
			}
		case 9: // save and load
			var buf bytes.Buffer
			if op.Via%2 == 0 {
				if err := nn.Dump(tab, &buf); err != nil {
					return errf("%s: Dump: %v", when, err)
				}
				l, err := nn.Load[*embedding.Model](&buf)
				if err != nil {
					return errf("%s: Load: %v", when, err)
				}
				user.Tab = l
			} else {
				if err := nn.Dump(user, &buf); err != nil {
					return errf("%s: Dump: %v", when, err)
				}
				u, err := nn.Load[*EmbUser](&buf)
				if err != nil {
					return errf("%s: Load: %v", when, err)
				}
				user = u
			}
			link()
			zero()
			loaded = true
		case 10, 11: // concurrent look-ups and accumulation
			if len(idx) == 0 {
				break
			}
			var wg sync.WaitGroup
			const workers, each = 4, 3
			bad := make([]error, workers)
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for r := 0; r < each; r++ {
						i := idx[(w+r)%len(idx)]
						xs := target.MustEncode([]int{i, i})
						for e, v := range vals(xs[0].Value()) {
							if v != md.val[i][e] {
								bad[w] = errf("%s: a concurrent look-up of embedding %d reads %v, want %v", when, i, v, md.val[i][e])
							}
						}
						if op.Kind == 10 {
							y := ag.Add(xs[0], xs[1])
							_ = y.Value() // the forward computation reads the parameters until then
							if y.RequiresGrad() {
								g := make([]float64, c.Dim)
								for e := range g {
									g[e] = float64(w + 1)
								}
								y.AccGrad(col(g))
								if err := ag.Backward(y); err != nil {
									bad[w] = err
								}
							}
						} else {
							_ = target.CountEmbedWithGrad()
							nn.ForEachParam(target, func(p *nn.Param) {})
						}
					}
				}()
			}
			wg.Wait()
			for w := range bad {
				if bad[w] != nil {
					return bad[w]
				}
				for r := 0; r < each && op.Kind == 10; r++ {
					g := make([]float64, c.Dim)
					for e := range g {
						g[e] = float64(2 * (w + 1))
					}
					acc(idx[(w+r)%len(idx)], g)
				}
			}
		}
		if err := check(when + " (kind " + itoa(op.Kind) + ")"); err != nil {
			return err
		}
	}
	ctx.NTIf(lookups > 0 && len(c.Ops) > 1)
	if trained > 0 {
		ctx.Label("trained")
	}
	if loaded {
		ctx.Label("loaded")
	}
	return nil
}

func init() {
	eng.Register("C24", "history", "at least one look-up and two operations", 30000, 500000, genEmb, evalEmb)
	eng.Register("C24", "race", "at least one look-up and two operations", 3000, 40000, genEmb, evalEmb, eng.Race())
}
