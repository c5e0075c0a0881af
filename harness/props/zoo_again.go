package props

import (
	"fmt"

	"verifharness/eng"

	"github.com/nlpodyssey/spago/mat"
)

// evalAgain runs a model twice on the same input tensors with nothing that
// requires gradients, and modifies the values of the parameters or of the
// inputs in place in between: the outputs are a function of the values at the
// time of the call, not of the identity of the objects.
func evalAgain(ctx *eng.Ctx, cs modelCase) error {
	first := cs
	first.Req, first.In = []int{0}, []int{0}
	if cs.Seed%2 == 0 { // only the inputs are constant
		first.Req = cs.Req
	}
	r := newModelRun(first)
	runModel(r.m, append([]mat.Tensor(nil), r.xs...))
	mod := cs.Seed / 2 % 3
	if mod != 1 && cs.Spec.Kind != "activation" {
		fillParams(cs.DT, r.m, cs.Seed+77, float64(cs.Scale))
	}
	e := newRefEnv()
	rxs := r.rxs[:0:0]
	for i, l := range r.ins {
		if mod != 0 && (i == 0 || l != r.ins[i-1]) {
			s := l.Shape()
			x := hmat(cs.DT, s[0], s[1], cs.Seed+77, i, float64(cs.XS)*1.7)
			l.Value().(mat.Matrix).SetData(mk(cs.DT, x, false).Data())
		}
	}
	for _, l := range r.ins {
		rxs = append(rxs, e.t.Leaf(l.Shape()[0], l.Shape()[1], vals(l)))
	}
	want := e.model(r.m, rxs)
	ys := runModel(r.m, append([]mat.Tensor(nil), r.xs...))
	if len(ys) != len(want) {
		return errf("%s: %d outputs from the second call, want %d", r.what, len(ys), len(want))
	}
	if e.t.Kink < 1e-6*r.rel() || !wellConditioned(cs.DT, want) {
		return nil
	}
	ctx.Label("again")
	for i, y := range ys {
		what := fmt.Sprintf("%s: output %d of a second call after values were modified in place", r.what, i)
		if err := expectRef(what, y.Value(), cs.DT, want[i], 8); err != nil {
			return err
		}
	}
	return nil
}
