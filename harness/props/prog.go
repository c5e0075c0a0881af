package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// A prog is a random computation graph: leaves followed by instructions whose
// operands are resolved among the nodes built so far (so every instruction
// list is a valid program, which lets the shrinker delete anything).
type prog struct {
	Leaves []progLeaf
	Ins    []instr
}

type progLeaf struct {
	M   gen.Mat
	Req int // 0 constant, 1 matrix with gradient, 2 nn.Param, 3 nn.Buffer
}

type instr struct {
	Op      string
	A, B, C int
}

// step is a resolved instruction.
type step struct {
	op   string
	args []int
	i    []int
}

type progOp struct {
	// resolve picks the operands, nil if there are none
	resolve func(p *plan, in instr) *step
	real    func(xs []mat.Tensor, i []int) mat.Tensor
	ref     func(t *ref.Tape, xs []ref.M, i []int) ref.M
}

type plan struct {
	tp     *ref.Tape
	steps  []step // one per non-leaf node
	nLeaf  int
	nodes  []ref.M
	req    []bool
	isOp   []bool // a *ag.Operator
	reqSet []int  // requires-grad kind of the leaves
}

func (p *plan) like(r, c, k int) int {
	var cand []int
	for i, n := range p.nodes {
		if n.R == r && n.C == c {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1
	}
	return cand[mod(k, len(cand))]
}

func (p *plan) where(k int, f func(m ref.M) bool) int {
	var cand []int
	for i, n := range p.nodes {
		if f(n) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1
	}
	return cand[mod(k, len(cand))]
}

func mod(a, n int) int { return ((a % n) + n) % n }

func isVecM(m ref.M) bool { return m.R == 1 || m.C == 1 }

func pUn(real func(x mat.Tensor) mat.Tensor, rf func(v ref.V) ref.V) *progOp {
	return &progOp{
		resolve: func(p *plan, in instr) *step { return &step{args: []int{mod(in.A, len(p.nodes))}} },
		real:    func(xs []mat.Tensor, _ []int) mat.Tensor { return real(xs[0]) },
		ref:     func(_ *ref.Tape, xs []ref.M, _ []int) ref.M { return xs[0].Map(rf) },
	}
}

func pAny(real func(x mat.Tensor, i []int) mat.Tensor, rf func(t *ref.Tape, x ref.M, i []int) ref.M, pick func(x ref.M, in instr) []int) *progOp {
	return &progOp{
		resolve: func(p *plan, in instr) *step {
			a := mod(in.A, len(p.nodes))
			s := &step{args: []int{a}}
			if pick != nil {
				s.i = pick(p.nodes[a], in)
			}
			return s
		},
		real: func(xs []mat.Tensor, i []int) mat.Tensor { return real(xs[0], i) },
		ref:  func(t *ref.Tape, xs []ref.M, i []int) ref.M { return rf(t, xs[0], i) },
	}
}

func pVec(real func(x mat.Tensor) mat.Tensor, rf func(t *ref.Tape, x ref.M) ref.M) *progOp {
	return &progOp{
		resolve: func(p *plan, in instr) *step {
			a := p.where(in.A, isVecM)
			if a < 0 {
				return nil
			}
			return &step{args: []int{a}}
		},
		real: func(xs []mat.Tensor, _ []int) mat.Tensor { return real(xs[0]) },
		ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return rf(t, xs[0]) },
	}
}

func pBin(real func(a, b mat.Tensor) mat.Tensor, rf func(t *ref.Tape, a, b ref.M) ref.M) *progOp {
	return &progOp{
		resolve: func(p *plan, in instr) *step {
			a := mod(in.A, len(p.nodes))
			return &step{args: []int{a, p.like(p.nodes[a].R, p.nodes[a].C, in.B)}}
		},
		real: func(xs []mat.Tensor, _ []int) mat.Tensor { return real(xs[0], xs[1]) },
		ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return rf(t, xs[0], xs[1]) },
	}
}

func pScal(real func(a, b mat.Tensor) mat.Tensor, rf func(a ref.M, s ref.V) ref.M) *progOp {
	return &progOp{
		resolve: func(p *plan, in instr) *step {
			a, b := mod(in.A, len(p.nodes)), p.like(1, 1, in.B)
			if b < 0 {
				return nil
			}
			return &step{args: []int{a, b}}
		},
		real: func(xs []mat.Tensor, _ []int) mat.Tensor { return real(xs[0], xs[1]) },
		ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return rf(xs[0], xs[1].D[0]) },
	}
}

var progOps map[string]*progOp

func init() {
	progOps = map[string]*progOp{
		"Tanh":    pUn(ag.Tanh, ref.V.Tanh),
		"Sigmoid": pUn(ag.Sigmoid, ref.V.Sigmoid),
		"Sin":     pUn(ag.Sin, ref.V.Sin),
		"Neg":     pUn(ag.Neg, ref.V.Neg),
		"Square":  pUn(ag.Square, ref.V.Square),
		"Copy":    pUn(ag.Copy, func(v ref.V) ref.V { return v }),
		"ReLU":    pUn(ag.ReLU, func(v ref.V) ref.V { return v.Max(v.Tape().C(0)) }),
		"T":       pAny(func(x mat.Tensor, _ []int) mat.Tensor { return ag.T(x) }, func(_ *ref.Tape, x ref.M, _ []int) ref.M { return x.T() }, nil),
		"Flatten": pAny(func(x mat.Tensor, _ []int) mat.Tensor { return ag.Flatten(x) }, func(_ *ref.Tape, x ref.M, _ []int) ref.M { return x.RowV() }, nil),
		"RowView": pAny(func(x mat.Tensor, i []int) mat.Tensor { return ag.RowView(x, i[0]) },
			func(_ *ref.Tape, x ref.M, i []int) ref.M { return x.Row(i[0]) },
			func(x ref.M, in instr) []int { return []int{mod(in.B, x.R)} }),
		"ColView": pAny(func(x mat.Tensor, i []int) mat.Tensor { return ag.ColView(x, i[0]) },
			func(_ *ref.Tape, x ref.M, i []int) ref.M {
				return selRef(x.R, 1, func(r, _ int) ref.V { return x.At(r, i[0]) })
			},
			func(x ref.M, in instr) []int { return []int{mod(in.B, x.C)} }),
		"At": pAny(func(x mat.Tensor, i []int) mat.Tensor { return ag.At(x, i...) },
			func(_ *ref.Tape, x ref.M, i []int) ref.M { return colM([]ref.V{x.At(i[0], i[1])}) },
			func(x ref.M, in instr) []int { return []int{mod(in.B, x.R), mod(in.C, x.C)} }),
		"Slice": pAny(func(x mat.Tensor, i []int) mat.Tensor { return ag.Slice(x, i[0], i[1], i[2], i[3]) },
			func(_ *ref.Tape, x ref.M, i []int) ref.M {
				return selRef(i[2]-i[0], i[3]-i[1], func(r, c int) ref.V { return x.At(r+i[0], c+i[1]) })
			},
			func(x ref.M, in instr) []int {
				r, c := mod(in.B, x.R), mod(in.C, x.C)
				return []int{r, c, x.R - mod(in.C, x.R-r), x.C - mod(in.B, x.C-c)}
			}),
		"Sum1": pAny(func(x mat.Tensor, _ []int) mat.Tensor { return ag.ReduceSum(x) },
			func(t *ref.Tape, x ref.M, _ []int) ref.M { return colM([]ref.V{x.Sum(t)}) }, nil),
		"Mean1": pAny(func(x mat.Tensor, _ []int) mat.Tensor { return ag.ReduceMean(x) },
			func(t *ref.Tape, x ref.M, _ []int) ref.M { return colM([]ref.V{ref.MeanV(t, x.D)}) }, nil),
		"Stop": pAny(func(x mat.Tensor, _ []int) mat.Tensor { return ag.StopGrad(x) },
			func(t *ref.Tape, x ref.M, _ []int) ref.M {
				return x.Map(ref.V.Detach)
			}, nil),
		"Softmax":   pVec(ag.Softmax, func(t *ref.Tape, x ref.M) ref.M { return colM(ref.Softmax(t, x.D)) }),
		"LogSumExp": pVec(func(x mat.Tensor) mat.Tensor { return ag.LogSumExp(x) }, func(t *ref.Tape, x ref.M) ref.M { return colM([]ref.V{ref.LogSumExp(t, x.D)}) }),
		"ReduceMax": pVec(ag.ReduceMax, func(t *ref.Tape, x ref.M) ref.M { return colM([]ref.V{foldMax(x.D)}) }),
		"Add":       pBin(ag.Add, func(_ *ref.Tape, a, b ref.M) ref.M { return a.Add(b) }),
		"Sub":       pBin(ag.Sub, func(_ *ref.Tape, a, b ref.M) ref.M { return a.Sub(b) }),
		"Prod":      pBin(ag.Prod, func(_ *ref.Tape, a, b ref.M) ref.M { return a.Prod(b) }),
		"Max":       pBin(ag.Max, func(_ *ref.Tape, a, b ref.M) ref.M { return zipM(a, b, ref.V.Max) }),
		"Dot":       pBin(ag.Dot, func(t *ref.Tape, a, b ref.M) ref.M { return colM([]ref.V{ref.Dot(t, a.D, b.D)}) }),
		"AddS":      pScal(ag.AddScalar, ref.M.AddV),
		"SubS":      pScal(ag.SubScalar, ref.M.SubV),
		"ProdS":     pScal(ag.ProdScalar, ref.M.ScaleV),
		"RSub":      pScal(ag.ReverseSub, func(a ref.M, s ref.V) ref.M { return a.Map(func(v ref.V) ref.V { return s.Sub(v) }) }),
		"Sum3": {
			resolve: func(p *plan, in instr) *step {
				a := mod(in.A, len(p.nodes))
				r, c := p.nodes[a].R, p.nodes[a].C
				return &step{args: []int{a, p.like(r, c, in.B), p.like(r, c, in.C)}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.Sum(xs...) },
			ref:  func(_ *ref.Tape, xs []ref.M, _ []int) ref.M { return xs[0].Add(xs[1]).Add(xs[2]) },
		},
		"Mul": {
			resolve: func(p *plan, in instr) *step {
				a := mod(in.A, len(p.nodes))
				b := p.where(in.B, func(m ref.M) bool { return m.R == p.nodes[a].C && m.C*p.nodes[a].R <= 40 })
				if b < 0 {
					return nil
				}
				return &step{args: []int{a, b}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.Mul(xs[0], xs[1]) },
			ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return xs[0].Mul(t, xs[1]) },
		},
		"MulT": {
			resolve: func(p *plan, in instr) *step {
				a := mod(in.A, len(p.nodes))
				b := p.like(p.nodes[a].R, 1, in.B)
				if b < 0 {
					return nil
				}
				return &step{args: []int{a, b}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.MulT(xs[0], xs[1]) },
			ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return xs[0].T().Mul(t, xs[1]) },
		},
		"Affine": {
			resolve: func(p *plan, in instr) *step {
				w := mod(in.A, len(p.nodes))
				x := p.like(p.nodes[w].C, 1, in.B)
				b := p.like(p.nodes[w].R, 1, in.C)
				if x < 0 || b < 0 {
					return nil
				}
				return &step{args: []int{b, w, x}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.Affine(xs[0], xs[1], xs[2]) },
			ref:  func(t *ref.Tape, xs []ref.M, _ []int) ref.M { return xs[0].Add(xs[1].Mul(t, xs[2])) },
		},
		"Concat": {
			resolve: func(p *plan, in instr) *step {
				a, b, c := p.where(in.A, isVecM), p.where(in.B, isVecM), p.where(in.C, isVecM)
				if a < 0 || len(p.nodes[a].D)+len(p.nodes[b].D)+len(p.nodes[c].D) > 24 {
					return nil
				}
				return &step{args: []int{a, b, c}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.Concat(xs...) },
			ref:  func(_ *ref.Tape, xs []ref.M, _ []int) ref.M { return ref.Concat(xs...) },
		},
		"Stack": {
			resolve: func(p *plan, in instr) *step {
				a := p.where(in.A, func(m ref.M) bool { return isVecM(m) && len(m.D) <= 8 })
				if a < 0 {
					return nil
				}
				b := p.where(in.B, func(m ref.M) bool { return isVecM(m) && len(m.D) == len(p.nodes[a].D) })
				return &step{args: []int{a, b, a}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.Stack(xs...) },
			ref: func(_ *ref.Tape, xs []ref.M, _ []int) ref.M {
				return ref.Concat(xs...).Reshape(len(xs), len(xs[0].D))
			},
		},
		"ScalarMax": {
			resolve: func(p *plan, in instr) *step {
				a, b, c := p.like(1, 1, in.A), p.like(1, 1, in.B), p.like(1, 1, in.C)
				if a < 0 {
					return nil
				}
				return &step{args: []int{a, b, c}}
			},
			real: func(xs []mat.Tensor, _ []int) mat.Tensor { return ag.ScalarMax(xs) },
			ref: func(_ *ref.Tape, xs []ref.M, _ []int) ref.M {
				return colM([]ref.V{foldMax(ref.Concat(xs...).D)})
			},
		},
	}
}

// makePlan resolves the program, computing the reference values.
func makePlan(pr prog, dt int) *plan {
	p := &plan{tp: ref.NewTape(), nLeaf: len(pr.Leaves)}
	for _, l := range pr.Leaves {
		m := l.M.Round(dt)
		p.nodes = append(p.nodes, p.tp.Leaf(m.R, m.C, m.Floats()))
		p.req = append(p.req, l.Req == 1 || l.Req == 2)
		p.reqSet = append(p.reqSet, l.Req)
		p.isOp = append(p.isOp, false)
	}
	add := func(s step, y ref.M) {
		// fresh scalars, so that each node has its own adjoint
		o := y.Map(func(v ref.V) ref.V { return v.Fn(v.X(), 1, 0) })
		p.nodes = append(p.nodes, o)
		p.steps = append(p.steps, s)
		r := false
		if s.op != "Stop" {
			for _, a := range s.args {
				r = r || p.req[a]
			}
		}
		p.req = append(p.req, r)
		p.isOp = append(p.isOp, s.op != "Stop")
	}
	for _, in := range pr.Ins {
		op := progOps[in.Op]
		if op == nil || len(p.nodes) == 0 {
			continue
		}
		s := op.resolve(p, in)
		if s == nil {
			continue
		}
		s.op = in.Op
		xs := make([]ref.M, len(s.args))
		for i, a := range s.args {
			xs[i] = p.nodes[a]
		}
		add(*s, op.ref(p.tp, xs, s.i))
		// keep the values moderate
		last := len(p.nodes) - 1
		for _, v := range p.nodes[last].D {
			if math.Abs(v.X()) > 8 {
				add(step{op: "Tanh", args: []int{last}}, progOps["Tanh"].ref(p.tp, []ref.M{p.nodes[last]}, nil))
				break
			}
		}
	}
	return p
}

// leaves builds the leaf tensors.
func (pr prog) leaves(dt int) []mat.Tensor {
	out := make([]mat.Tensor, len(pr.Leaves))
	for i, l := range pr.Leaves {
		m := mk(dt, l.M.Round(dt), l.Req == 1)
		switch l.Req {
		case 2:
			out[i] = nn.NewParam(m)
		case 3:
			out[i] = nn.Buf(m)
		default:
			out[i] = m
		}
	}
	return out
}

// forward runs the resolved program on the real library.
func (p *plan) forward(leaves []mat.Tensor) []mat.Tensor {
	nodes := append([]mat.Tensor(nil), leaves...)
	for _, s := range p.steps {
		xs := make([]mat.Tensor, len(s.args))
		for i, a := range s.args {
			xs[i] = nodes[a]
		}
		nodes = append(nodes, progOps[s.op].real(xs, s.i))
	}
	return nodes
}

// reach marks the nodes reached by gradients flowing from the roots.
func (p *plan) reach(roots []int) []bool {
	ok := make([]bool, len(p.nodes))
	for _, r := range roots {
		if p.req[r] {
			ok[r] = true
		}
	}
	for i := len(p.nodes) - 1; i >= p.nLeaf; i-- {
		if !ok[i] {
			continue
		}
		for _, a := range p.steps[i-p.nLeaf].args {
			if p.req[a] {
				ok[a] = true
			}
		}
	}
	return ok
}

// outputs returns the indices of operator nodes that require gradients.
func (p *plan) outputs() []int {
	var o []int
	for i := range p.nodes {
		if p.isOp[i] && p.req[i] {
			o = append(o, i)
		}
	}
	return o
}

var progOpNames []string

func genProg(t *rapid.T, maxIns int) prog {
	if progOpNames == nil {
		progOpNames = sortedKeys(progOps)
	}
	var p prog
	r, c := gen.Ext(t, 1, 3, 17), gen.Ext(t, 1, 3, 17)
	p.Leaves = gen.List(t, 1, 5, func(t *rapid.T) progLeaf {
		rr, cc := r, c
		switch gen.U(t, 5) {
		case 0:
			rr, cc = 1, 1
		case 1:
			rr, cc = c, r
		case 2:
			rr, cc = c, 1
		}
		return progLeaf{M: gen.GenericMat(t, rr, cc, 1.5), Req: gen.Pick(t, 1, 1, 2, 0, 1, 2, 3, 1)}
	})
	p.Ins = gen.List(t, 1, maxIns, func(t *rapid.T) instr {
		in := instr{Op: gen.Pick(t, progOpNames...), A: -1 - gen.U(t, 8), B: gen.U(t, 16), C: gen.U(t, 16)}
		if gen.Chance(t, 30) {
			in.Op = gen.Pick(t, "Add", "Prod", "Tanh", "Mul", "Affine", "Sub", "Dot", "Concat")
		}
		if gen.Chance(t, 25) {
			in.A = gen.U(t, 16)
		}
		return in
	})
	return p
}
