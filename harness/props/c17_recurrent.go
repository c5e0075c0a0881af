package props

import (
	"fmt"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
)

// rnnCase runs a recurrent model step by step, possibly from an initial state,
// and compares states, gradients, splits and causality.
type rnnCase struct {
	M      modelCase
	Init   int   // 0 none, 1 constant state, 2 leaf state requiring gradients, 3 partial LSTM state, 4 cell only (for others an empty state), 5 an empty state
	Cut    int   // prefix length processed with Forward first
	Change int   // position whose input is changed for the causality check
	Fork   int   `json:",omitempty"` // >0: the state after step Fork-1 is continued a second time
	Poke   []int // which intermediate states receive an output gradient too
}

// stepper drives a recurrent model with opaque states.
type stepper struct {
	m     nn.Model
	state any
}

func (s *stepper) next(x mat.Tensor) (y mat.Tensor) {
	switch m := s.m.(type) {
	case *srn.Model:
		st, _ := s.state.(*srn.State)
		st = m.Next(st, x)
		s.state, y = st, st.Y
	case *gru.Model:
		st, _ := s.state.(*gru.State)
		st = m.Next(st, x)
		s.state, y = st, st.Y
	case *lstm.Model:
		st, _ := s.state.(*lstm.State)
		st = m.Next(st, x)
		s.state, y = st, st.Y
	}
	return
}

func (s *stepper) cell() mat.Tensor {
	if st, ok := s.state.(*lstm.State); ok && st != nil {
		return st.Cell
	}
	return nil
}

func (s *stepper) set(y, cell mat.Tensor) {
	switch s.m.(type) {
	case *srn.Model:
		s.state = &srn.State{Y: y}
	case *gru.Model:
		s.state = &gru.State{Y: y}
	case *lstm.Model:
		s.state = &lstm.State{Y: y, Cell: cell}
	}
}

func evalRNN(ctx *eng.Ctx, cs rnnCase) error {
	ctx.Label("%s", cs.M.Spec.Kind)
	ctx.Label("initial state %d", cs.Init)
	r := newModelRun(cs.M)
	if r.built != nil {
		return r.built
	}
	out := cs.M.Spec.a(1)
	st := &stepper{m: r.m}
	var rs rnnState
	if cs.Init > 0 {
		leaf := func(obj int) (mat.Tensor, ref.M) {
			x := hmat(cs.M.DT, out, 1, cs.M.Seed, obj, 0.8)
			l := mk(cs.M.DT, x, cs.Init > 1)
			rm := r.e.t.Leaf(out, 1, x.Floats())
			if cs.Init > 1 {
				r.ins, r.rxs = append(r.ins, l), append(r.rxs, rm)
				r.cs.In = padTo(r.cs.In, len(r.ins)-1)
				r.cs.In = append(r.cs.In, 1)
			}
			return l, rm
		}
		n := len(r.ins)
		r.cs.In = padTo(r.cs.In, n)
		r.cs.In = r.cs.In[:n]
		var y, c mat.Tensor
		var ry, rc ref.M
		if cs.Init < 4 {
			y, ry = leaf(501)
		}
		if cs.M.Spec.Kind == "lstm" && cs.Init != 3 && cs.Init != 5 {
			c, rc = leaf(502)
		}
		st.set(y, c)
		rs = rnnState{Y: ry, Cell: rc}
	}
	var ys []mat.Tensor
	var want []ref.M
	var forked any
	var rforked rnnState
	for i, x := range r.xs {
		ys = append(ys, st.next(x))
		rs = r.e.rnnStep(r.m, rs, r.rxs[i])
		want = append(want, rs.Y)
		if i == cs.Fork-1 {
			forked, rforked = st.state, rs
		}
		if c := st.cell(); c != nil {
			if err := expectRef(fmt.Sprintf("%s: cell %d", r.what, i), c.Value(), cs.M.DT, rs.Cell, 8); err != nil {
				return err
			}
			if len(cs.Poke) > 0 && cs.Poke[i%len(cs.Poke)] == 1 {
				ys, want = append(ys, c), append(want, rs.Cell)
			}
		}
	}
	if cs.Init == 0 {
		// the whole sequence at once gives the same values
		all := runModel(r.m, r.xs)
		k := 0
		for i := range all {
			for k < len(ys) && ys[k].Value() == nil {
				k++
			}
			if err := expectRef(fmt.Sprintf("%s: Forward output %d", r.what, i), all[i].Value(), cs.M.DT, stepOut(want, ys, all, i, cs), 8); err != nil {
				return err
			}
		}
		// causality: changing input c leaves all outputs before c bit-identical
		c := mod(cs.Change, len(r.xs))
		xs2 := append([]mat.Tensor(nil), r.xs...)
		xs2[c] = mk(cs.M.DT, hmat(cs.M.DT, cs.M.Spec.a(0), 1, cs.M.Seed, 777, 2), false)
		all2 := runModel(r.m, xs2)
		short := runModel(r.m, r.xs[:c])
		for i := 0; i < c; i++ {
			if err := snapOf(all[i].Value()).same(all2[i].Value()); err != nil {
				return errf("%s: output %d depends on the later input %d: %v", r.what, i, c, err)
			}
			if err := snapOf(all[i].Value()).same(short[i].Value()); err != nil {
				return errf("%s: output %d of the sequence differs from that of its prefix of %d inputs: %v", r.what, i, c, err)
			}
		}
	}
	if forked != nil { // as in a beam search
		ctx.Label("forked")
		st.state, rs = forked, rforked
		for i := len(r.xs) - 1; i >= 0; i-- {
			ys = append(ys, st.next(r.xs[i]))
			rs = r.e.rnnStep(r.m, rs, r.rxs[i])
			want = append(want, rs.Y)
		}
	}
	return r.checkOut(ctx, ys, want)
}

// stepOut is the reference of output i, skipping interleaved cells.
func stepOut(want []ref.M, ys, all []mat.Tensor, i int, cs rnnCase) ref.M {
	k := 0
	for j := 0; j < i; j++ {
		k++
		if cs.M.Spec.Kind == "lstm" && len(cs.Poke) > 0 && cs.Poke[j%len(cs.Poke)] == 1 {
			k++
		}
	}
	return want[k]
}

func padTo(in []int, n int) []int {
	o := append([]int(nil), in...)
	for i := len(o); i < n; i++ {
		o = append(o, in[i%len(in)])
	}
	return o
}

// biCase checks the locality of the bidirectional wrapper.
type biCase struct {
	M      modelCase
	Change int
}

func evalBi(ctx *eng.Ctx, cs biCase) error {
	b, ok := cs.M.Spec.build(cs.M.DT).(*birnn.Model)
	if !ok {
		return errf("harness: not a bidirectional model")
	}
	fillParams(cs.M.DT, b, cs.M.Seed, float64(cs.M.Scale))
	ctx.Label("merge %d", cs.M.Spec.Merge)
	in := cs.M.Spec.a(0)
	var xs []mat.Tensor
	for i := 0; i < cs.M.N; i++ {
		xs = append(xs, mk(cs.M.DT, hmat(cs.M.DT, in, 1, cs.M.Seed, i, 1.5), i%2 == 0))
	}
	n := len(xs)
	ys := b.Forward(xs...)
	if len(ys) != n {
		return errf("birnn: %d outputs for %d inputs", len(ys), n)
	}
	// position i merges the forward state over the prefix and the backward
	// state over the suffix, whatever lies on the other sides
	for i := 0; i < n; i++ {
		pos := b.Positive.Forward(xs[:i+1]...)
		var rev []mat.Tensor
		for j := n - 1; j >= i; j-- {
			rev = append(rev, xs[j])
		}
		neg := b.Negative.Forward(rev...)
		p, q := pos[i].Value(), neg[n-1-i].Value()
		var w mat.Tensor
		switch b.MergeMode {
		case birnn.Concat:
			w = ag.Concat(p, q)
		case birnn.Sum:
			w = ag.Add(p, q)
		case birnn.Prod:
			w = ag.Prod(p, q)
		case birnn.Avg:
			w = ag.ProdScalar(ag.Add(p, q), mk(cs.M.DT, gen.Mat{R: 1, C: 1, D: []F{0.5}}, false))
		}
		if err := snapOf(w.Value()).same(ys[i].Value()); err != nil {
			return errf("birnn: output %d is not the merge of prefix and suffix states: %v", i, err)
		}
	}
	ctx.NTIf(n > 1)
	return nil
}

// fbCase feeds every output back as the next input.
type fbCase struct {
	M     modelCase
	Steps int
}

// evalFeedback: the state equations hold when the input of a step is the very
// output of the step before, as in generation.
func evalFeedback(ctx *eng.Ctx, cs fbCase) error {
	ctx.Label("%s", cs.M.Spec.Kind)
	r := newModelRun(cs.M)
	if r.built != nil {
		return r.built
	}
	st := &stepper{m: r.m}
	var rs rnnState
	x, rx := r.xs[0], r.rxs[0]
	var ys []mat.Tensor
	var want []ref.M
	for i := 0; i < cs.Steps; i++ {
		x = st.next(x)
		rs = r.e.rnnStep(r.m, rs, rx)
		rx = rs.Y
		ys, want = append(ys, x), append(want, rx)
	}
	return r.checkOut(ctx, ys, want)
}

func init() {
	eng.Register("C17", "feedback", "every output is the next input: states and gradients equal the recurrence; non-trivial as for layers",
		8000, 200000,
		func(t *rapid.T) fbCase {
			c := fbCase{M: genModelCase(t, genSpec(t, gen.Pick(t, "srn", "gru", "lstm"), 0)), Steps: gen.Ext(t, 2, 5, 20)}
			c.M.N = 1
			c.M.Spec.A[1] = c.M.Spec.A[0]
			return c
		}, evalFeedback)
	registerModels("C17", "layers", 30000, 800000, "srn", "gru", "lstm", "birnn", "bilstm", "bigru", "bibilstm")
	eng.Register("C17", "steps", "step-by-step run (with random initial states) equals the recurrence, its gradients the reference, Forward the steps, and outputs do not depend on later inputs; non-trivial as for layers",
		30000, 800000,
		func(t *rapid.T) rnnCase {
			return rnnCase{M: genModelCase(t, genSpec(t, gen.Pick(t, "srn", "gru", "lstm"), 0)), Init: gen.Pick(t, 0, 0, 0, 1, 2, 3, 4, 5), Fork: gen.Pick(t, 0, 0, 1, 2, 3), Change: gen.U(t, 6),
				Poke: []int{gen.U(t, 2), gen.U(t, 2), gen.U(t, 2)}}
		}, evalRNN)
	eng.Register("C17", "bidirectional", "each output equals bit for bit the merge of separately computed prefix and suffix states; non-trivial with two or more inputs",
		10000, 300000,
		func(t *rapid.T) biCase {
			c := biCase{M: genModelCase(t, genSpec(t, gen.Pick(t, "birnn", "birnn", "bilstm", "bigru"), 0))}
			c.M.N = gen.UInt(t, 1, 6)
			return c
		}, evalBi)
}
