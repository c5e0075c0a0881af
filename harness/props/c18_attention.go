package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
)

// attnCase feeds a sequence in chunks with the returned cache.
type attnCase struct {
	M      modelCase
	Chunks []int // sizes of the chunks
	KN     int   // number of keys/values for cross attention
	Change int   // position changed for the causality check
}

func attnForward(m any, cache any, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.Tensor, any) {
	switch m := m.(type) {
	case *selfattention.Model:
		c, _ := cache.(selfattention.Cache)
		y, w, nc := m.Forward(c, q, x)
		return y, [][]mat.Tensor{w}, nc
	case *multiheadattention.Model:
		c, _ := cache.(multiheadattention.Cache)
		y, w, nc := m.Forward(c, q, x)
		return y, w, nc
	}
	panic("harness: not an attention model")
}

func (e *refEnv) attnChunk(m any, q, kv []ref.M, off int) (out []ref.M, ws [][]ref.M) {
	switch m := m.(type) {
	case *selfattention.Model:
		a, w := e.selfAttention(m, q, kv, off)
		return a, [][]ref.M{w}
	case *multiheadattention.Model:
		var heads [][]ref.M
		for _, h := range m.Heads {
			a, w := e.selfAttention(h, q, kv, off)
			heads, ws = append(heads, a), append(ws, w)
		}
		for i := range q {
			var parts []ref.M
			for _, h := range heads {
				parts = append(parts, h[i])
			}
			out = append(out, e.model(m.OutputMerge, []ref.M{ref.Concat(parts...)})[0])
		}
		return out, ws
	}
	panic("harness: not an attention model")
}

func evalAttn(ctx *eng.Ctx, cs attnCase) error {
	cross := cs.M.Spec.Flag2
	if cross {
		cs.M.Spec.Flag = false // the causal mask is defined for self attention
	}
	mask := cs.M.Spec.Flag
	n := 0
	for _, c := range cs.Chunks {
		n += c
	}
	if n == 0 {
		return nil
	}
	nIn := n
	if cross {
		nIn = n + cs.KN
	}
	cs.M.N = nIn
	r := newModelRun(cs.M)
	if r.built != nil {
		return r.built
	}
	ctx.Label("%s mask=%v cross=%v", cs.M.Spec.Kind, mask, cross)
	ctx.Label("chunks=%d", min(len(cs.Chunks), 4))
	var ys []mat.Tensor
	var want []ref.M
	var cache any
	at := 0
	for ci, c := range cs.Chunks {
		q, rq := r.xs[at:at+c], r.rxs[at:at+c]
		x, rkv := q, r.rxs[:at+c]
		if cross {
			x, rkv = r.xs[n:], r.rxs[n:]
			if ci > 0 && cs.Change%2 == 0 {
				x = nil // the cached keys and values are used
			} else if ci > 0 && cs.Change%4 == 1 {
				x = r.xs[:1+cs.Change%nIn] // whatever is passed
			}
		}
		y, ws, nc := attnForward(r.m, cache, q, x)
		ry, rws := r.e.attnChunk(r.m, rq, rkv, at)
		if len(y) != c {
			return errf("%s: %d outputs for %d queries", r.what, len(y), c)
		}
		if len(ws) != len(rws) {
			return errf("%s: weights of %d heads, want %d", r.what, len(ws), len(rws))
		}
		for h := range ws {
			for i, w := range ws[h] {
				what := fmt.Sprintf("%s: chunk %d: weights of head %d, query %d", r.what, ci, h, i)
				if err := expectRef(what, w.Value(), cs.M.DT, rws[h][i], 8); err != nil {
					return err
				}
				var sum float64
				for k, v := range vals(w.Value()) {
					if v < 0 {
						return errf("%s: negative weight %v", what, v)
					}
					if mask && k > at+i && v != 0 {
						return errf("%s: weight %v on the later position %d (query position %d)", what, v, k, at+i)
					}
					sum += v
				}
				if math.Abs(sum-1) > 20*epsOf(cs.M.DT)*float64(len(rkv)) {
					return errf("%s: weights sum to %v", what, sum)
				}
			}
		}
		ys, want, cache = append(ys, y...), append(want, ry...), nc
		at += c
	}
	if !cross && (mask || len(cs.Chunks) == 1) {
		// at once
		all, _, _ := attnForward(r.m, nil, r.xs, r.xs)
		for i := range all {
			if err := expectRef(fmt.Sprintf("%s: output %d of the whole sequence", r.what, i), all[i].Value(), cs.M.DT, want[i], 8); err != nil {
				return err
			}
		}
		if mask {
			c := mod(cs.Change, n)
			xs2 := append([]mat.Tensor(nil), r.xs...)
			xs2[c] = mk(cs.M.DT, hmat(cs.M.DT, cs.M.Spec.a(0), 1, cs.M.Seed, 777, 2), false)
			all2, _, _ := attnForward(r.m, nil, xs2, xs2)
			for i := 0; i < c; i++ {
				if err := snapOf(all[i].Value()).same(all2[i].Value()); err != nil {
					return errf("%s: with a causal mask, output %d depends on the later input %d: %v", r.what, i, c, err)
				}
			}
		}
	}
	return r.checkOut(ctx, ys, want)
}

// sdpaCase calls the attention function itself with arbitrary magnitudes.
type sdpaCase struct {
	DT         int
	NQ, NK     int
	D, DV      int
	Seed       uint64
	Mag, Scale F
	Mask       bool
	Gy         []F
}

func evalSDPA(ctx *eng.Ctx, cs sdpaCase) error {
	if cs.Mask {
		cs.NK = max(cs.NK, cs.NQ)
	}
	e := newRefEnv()
	mc := modelCase{DT: cs.DT, In: []int{1}, Req: []int{1}, Gy: cs.Gy}
	r := &modelRun{cs: mc, e: e, what: "attention"}
	leaf := func(rr, cc, obj int, mag float64) (mat.Matrix, ref.M) {
		x := hmat(cs.DT, rr, cc, cs.Seed, obj, mag)
		l := mk(cs.DT, x, true)
		rm := e.t.Leaf(rr, cc, x.Floats())
		r.ins, r.rxs = append(r.ins, l), append(r.rxs, rm)
		return l, rm
	}
	var q []mat.Tensor
	var rq, rk, rv []ref.M
	for i := 0; i < cs.NQ; i++ {
		l, m := leaf(cs.D, 1, i, float64(cs.Mag))
		q, rq = append(q, l), append(rq, m)
	}
	k, km := leaf(cs.NK, cs.D, 100, 1)
	v, vm := leaf(cs.NK, cs.DV, 101, 1)
	for i := 0; i < cs.NK; i++ {
		rk, rv = append(rk, km.Row(i).Col()), append(rv, vm.Row(i).Col())
	}
	sc := gen.Mat{R: 1, C: 1, D: []F{cs.Scale}}.Round(cs.DT)
	ys, ws := attention.ScaledDotProductAttention(q, k, v, mk(cs.DT, sc, false), cs.Mask)
	ry, rw := e.attention(rq, rk, rv, float64(sc.D[0]), cs.Mask, cs.NK-cs.NQ)
	if len(ys) != cs.NQ || len(ws) != cs.NQ {
		return errf("attention: %d outputs and %d weights for %d queries", len(ys), len(ws), cs.NQ)
	}
	for i := range ws {
		if err := expectRef(fmt.Sprintf("attention: weights %d", i), ws[i].Value(), cs.DT, rw[i], 8); err != nil {
			return err
		}
	}
	ctx.Label("mask=%v", cs.Mask)
	_ = ag.Add
	return r.checkOut(ctx, ys, ry)
}

func init() {
	registerModels("C18", "layers", 15000, 400000, "selfattention", "multihead")
	eng.Register("C18", "chunks", "a sequence fed in random chunks with the returned cache: weights, outputs, whole-sequence outputs, causality and gradients; non-trivial when gradients were compared",
		40000, 1000000,
		func(t *rapid.T) attnCase {
			cs := attnCase{M: genModelCase(t, genSpec(t, gen.Pick(t, "selfattention", "multihead"), 0)), KN: gen.UInt(t, 1, 4), Change: gen.U(t, 8)}
			cs.Chunks = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.UInt(t, 1, 3) })
			if gen.Large(t) {
				cs.Chunks[gen.U(t, len(cs.Chunks))] = gen.UInt(t, 20, gen.Pick(t, 40, 70, 130))
			}
			return cs
		}, evalAttn)
	eng.Register("C18", "function", "the attention function on queries of magnitude 0.1 to 1e5; non-trivial when gradients were compared",
		30000, 800000,
		func(t *rapid.T) sdpaCase {
			cs := sdpaCase{DT: gen.Pick(t, 64, 64, 32), NQ: gen.UInt(t, 1, 5), NK: gen.UInt(t, 1, 6), D: gen.Dim(t, 1, 9), DV: gen.Dim(t, 1, 9), Seed: uint64(gen.U(t, 1<<30)),
				Mag: F(gen.Pick(t, 1.0, 1, 0.1, 10, 300, 1e5)), Scale: F(gen.Pick(t, 1, gen.Spread(t, 0.1, 1.5))), Mask: gen.Bool(t)}
			if gen.Large(t) {
				cs.NQ, cs.NK = gen.UInt(t, 5, 40), gen.UInt(t, 6, 40)
			}
			for i := 0; i < 11; i++ {
				cs.Gy = append(cs.Gy, F(gen.Val(t)))
			}
			return cs
		}, evalSDPA)
}
