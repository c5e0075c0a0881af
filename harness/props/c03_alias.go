package props

import (
	"fmt"
	"sort"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// aliasStep is one call in a history over a pool of live matrices.
type aliasStep struct {
	Op   string
	A, B int // pool positions (resolved modulo the candidates)
	I, J int
	V    F
}

type aliasCase struct {
	Init  []gen.Mat
	DTs   []int
	Steps []aliasStep
}

// aliasObj is a live matrix with what it must look like.
type aliasObj struct {
	m    mat.Matrix
	name string
	s    snap
	g    *snap // expected gradient, nil if none
	r    bool  // whether it requires a gradient
}

func (o *aliasObj) take() {
	o.s = snapOf(o.m)
	o.g = nil
	o.r = o.m.RequiresGrad()
	if o.m.HasGrad() {
		g := snapOf(o.m.Grad())
		o.g = &g
	}
}

func (o *aliasObj) check() error {
	if err := o.s.same(o.m); err != nil {
		return err
	}
	if o.r != o.m.RequiresGrad() {
		return errf("RequiresGrad became %v", !o.r)
	}
	if (o.g != nil) != o.m.HasGrad() {
		return errf("presence of a gradient changed to %v", o.m.HasGrad())
	}
	if o.g != nil {
		if err := o.g.same(o.m.Grad()); err != nil {
			return errf("gradient: %v", err)
		}
	}
	return nil
}

// aliasPool is the interpreter state.
type aliasPool struct {
	objs []*aliasObj
	ext  []func() // mutators of caller-owned slices
	n    int
}

func (p *aliasPool) add(op string, ms ...mat.Matrix) {
	for _, m := range ms {
		p.n++
		o := &aliasObj{m: m, name: fmt.Sprintf("#%d(%s)", p.n, op)}
		o.take()
		p.objs = append(p.objs, o)
		if len(p.objs) > 14 {
			p.objs = p.objs[1:]
		}
	}
}

func (p *aliasPool) pick(i int, ok func(mat.Matrix) bool) *aliasObj {
	var c []*aliasObj
	for _, o := range p.objs {
		if ok == nil || ok(o.m) {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		return nil
	}
	// prefer recent matrices: index counts from the end
	return c[len(c)-1-i%len(c)]
}

func rows(m mat.Tensor) int { return m.Shape()[0] }
func cols(m mat.Tensor) int { return m.Shape()[1] }

type aliasOp struct {
	// needs selects the receiver; other, if set, the argument given the receiver.
	needs func(mat.Matrix) bool
	other func(a, b mat.Matrix) bool
	// pure returns the new matrices; inPlace the receiver as returned (or nil
	// if the method returns nothing).
	pure    func(p *aliasPool, a, b mat.Matrix, s aliasStep) []mat.Matrix
	inPlace func(p *aliasPool, a, b mat.Matrix, s aliasStep) mat.Matrix
	// same is a pure counterpart of an in-place operation.
	same string
}

func isVec(m mat.Matrix) bool         { return mat.IsVector(m) }
func sameDims(a, b mat.Matrix) bool   { return mat.SameDims(a, b) }
func nonEmpty(m mat.Matrix) bool      { return m.Size() > 0 }
func nonEmptyVecM(m mat.Matrix) bool  { return isVec(m) && m.Size() > 0 }
func square(m mat.Matrix) bool        { return rows(m) == cols(m) }
func small(m mat.Matrix) bool         { return m.Size() <= 400 }
func sameTypeM(a, b mat.Matrix) bool  { return dtOf(a) == dtOf(b) }
func one(m mat.Matrix) []mat.Matrix   { return []mat.Matrix{m} }
func anyB(a, b mat.Matrix) bool       { return true }
func sameVecLen(a, b mat.Matrix) bool { return isVec(b) && a.Size() == b.Size() }

func un(f func(a mat.Matrix) mat.Matrix) *aliasOp {
	return &aliasOp{pure: func(_ *aliasPool, a, _ mat.Matrix, _ aliasStep) []mat.Matrix { return one(f(a)) }}
}

func unIf(ok func(mat.Matrix) bool, f func(a mat.Matrix, s aliasStep) mat.Matrix) *aliasOp {
	return &aliasOp{needs: ok, pure: func(_ *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix { return one(f(a, s)) }}
}

func bin(ok func(a, b mat.Matrix) bool, f func(a, b mat.Matrix) mat.Matrix) *aliasOp {
	return &aliasOp{other: ok, pure: func(_ *aliasPool, a, b mat.Matrix, _ aliasStep) []mat.Matrix { return one(f(a, b)) }}
}

func ip(same string, ok func(mat.Matrix) bool, f func(a mat.Matrix, s aliasStep) mat.Matrix) *aliasOp {
	return &aliasOp{needs: ok, same: same, inPlace: func(_ *aliasPool, a, _ mat.Matrix, s aliasStep) mat.Matrix { return f(a, s) }}
}

func ip2(same string, ok func(a, b mat.Matrix) bool, f func(a, b mat.Matrix, s aliasStep) mat.Matrix) *aliasOp {
	return &aliasOp{other: ok, same: same, inPlace: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) mat.Matrix { return f(a, b, s) }}
}

// factor returns a shape for n elements.
func factor(n, i int) (int, int) {
	d := divisors(n)
	if n == 0 {
		return []int{0, 3, 0}[i%3], []int{0, 0, 2}[i%3]
	}
	k := d[i%len(d)]
	return k, n / k
}

var aliasOps = map[string]*aliasOp{
	"Clone":      un(mat.Matrix.Clone),
	"ZerosLike":  un(mat.Matrix.ZerosLike),
	"OnesLike":   un(mat.Matrix.OnesLike),
	"T":          un(mat.Matrix.T),
	"Flatten":    un(mat.Matrix.Flatten),
	"Abs":        un(mat.Matrix.Abs),
	"Sqrt":       un(mat.Matrix.Sqrt),
	"Log":        un(mat.Matrix.Log),
	"Exp":        un(mat.Matrix.Exp),
	"Sigmoid":    un(mat.Matrix.Sigmoid),
	"Sum":        un(mat.Matrix.Sum),
	"Max":        unIf(nonEmpty, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Max() }),
	"Min":        unIf(nonEmpty, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Min() }),
	"Softmax":    unIf(isVec, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Softmax() }),
	"CumSum":     unIf(isVec, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.CumSum() }),
	"Normalize2": unIf(nonEmptyVecM, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Normalize2() }),
	"Norm":       unIf(nonEmptyVecM, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Norm(2) }),
	"Augment": unIf(func(m mat.Matrix) bool { return square(m) && small(m) },
		func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.Augment() }),
	"AddScalar":  unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.AddScalar(float64(s.V)) }),
	"SubScalar":  unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.SubScalar(float64(s.V)) }),
	"ProdScalar": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ProdScalar(float64(s.V)) }),
	"Pow":        unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.Pow(float64(s.I % 4)) }),
	"Apply": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.Apply(func(r, c int, v float64) float64 { return v + float64(s.V) })
	}),
	"ApplyWithAlpha": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.ApplyWithAlpha(func(r, c int, v float64, al ...float64) float64 { return v * al[0] }, float64(s.V))
	}),
	"Reshape": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		r, c := factor(a.Size(), s.I)
		return a.Reshape(r, c)
	}),
	"ReshapeSame":   unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.Reshape(a.Shape()...) }),
	"ResizeVector":  unIf(isVec, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ResizeVector(s.I % 9) }),
	"ResizeSame":    unIf(isVec, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ResizeVector(a.Size()) }),
	"ExtractRow":    unIf(nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ExtractRow(s.I % rows(a)) }),
	"ExtractColumn": unIf(nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ExtractColumn(s.I % cols(a)) }),
	"Slice": unIf(nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix {
		r0, c0 := s.I%rows(a), s.J%cols(a)
		return a.Slice(r0, c0, rows(a), cols(a))
	}),
	"SliceAll": unIf(nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.Slice(0, 0, rows(a), cols(a)) }),
	"Range": unIf(isVec, func(a mat.Matrix, s aliasStep) mat.Matrix {
		i := s.I % (a.Size() + 1)
		return a.Range(i, i+s.J%(a.Size()-i+1))
	}),
	"RangeAll": unIf(isVec, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.Range(0, a.Size()) }),
	"PadRows":  unIf(small, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.PadRows(s.I % 3) }),
	"PadColumns": unIf(small, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.PadColumns(s.I % 3)
	}),
	"SplitV": {needs: isVec, pure: func(_ *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix {
		i := s.I % (a.Size() + 1)
		return a.SplitV(i, a.Size()-i)
	}},
	"SplitVMany": {needs: isVec, pure: func(_ *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix {
		var sizes []int
		for left := a.Size(); left > 0 && len(sizes) < 6; {
			n := min(left, 1+(s.I+len(sizes)*s.J)%3)
			if len(sizes) == 4 {
				n = left
			}
			sizes = append(sizes, n)
			left -= n
		}
		return a.SplitV(sizes...)
	}},
	"SplitV1": {needs: isVec, pure: func(_ *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix {
		return a.SplitV(a.Size())
	}},
	"At": unIf(nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.At(s.I%rows(a), s.J%cols(a)).(mat.Matrix)
	}),
	"Add":     bin(sameDims, mat.Matrix.Add),
	"Sub":     bin(sameDims, mat.Matrix.Sub),
	"Prod":    bin(sameDims, mat.Matrix.Prod),
	"Div":     bin(sameDims, mat.Matrix.Div),
	"Maximum": bin(sameDims, mat.Matrix.Maximum),
	"Minimum": bin(sameDims, mat.Matrix.Minimum),
	"Mul": bin(func(a, b mat.Matrix) bool {
		return cols(a) == rows(b) && rows(a)*cols(b) <= 400 && a.Size()*b.Size() > 0
	}, mat.Matrix.Mul),
	"MulT": bin(func(a, b mat.Matrix) bool {
		return rows(a) == rows(b) && cols(a)*cols(b) <= 400 && cols(b) == 1 && a.Size()*b.Size() > 0
	}, mat.Matrix.MulT),
	"DotUnitary": {needs: isVec, other: sameDims, pure: func(_ *aliasPool, a, b mat.Matrix, _ aliasStep) []mat.Matrix {
		return one(a.DotUnitary(b))
	}},
	"NewConcatV": {needs: isVec, other: func(a, b mat.Matrix) bool { return isVec(b) && b.Size() < 100 && a.Size() < 100 }, pure: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) []mat.Matrix {
		if s.I%3 == 0 {
			return one(a.NewConcatV(a))
		}
		return one(a.NewConcatV(a, b))
	}},
	"NewStack": {needs: isVec, other: sameVecLen, pure: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) []mat.Matrix {
		if s.I%3 == 0 {
			return one(a.NewStack(a))
		}
		return one(a.NewStack(a, b))
	}},
	"AppendRows": {needs: small, other: func(a, b mat.Matrix) bool { return isVec(b) && b.Size() == cols(a) }, pure: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) []mat.Matrix {
		if s.I%3 == 0 {
			return one(a.AppendRows())
		}
		return one(a.AppendRows(b))
	}},
	"NewScalar": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.NewScalar(float64(s.V)) }),
	// Constructors whose shape comes from another matrix or from the caller.
	"NewMatrixLike": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.NewMatrix(mat.WithShape(a.Shape()...)) }),
	"NewFromShapeSlice": {pure: func(p *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix {
		shape := []int{1 + s.I%3, 1 + s.J%3}
		p.ext = append(p.ext, func() { shape[0], shape[1] = shape[1]+1, shape[0]+2 })
		if s.I%2 == 0 {
			return one(mat.NewDense[float32](mat.WithShape(shape...)))
		}
		return one(mat.NewDense[float64](mat.WithShape(shape...)))
	}},
	// NewMatrix is documented as copying the raw data.
	"NewMatrixFromData": {pure: func(p *aliasPool, a, _ mat.Matrix, s aliasStep) []mat.Matrix {
		n := a.Size()
		if dtOf(a) == 32 {
			d := append([]float32(nil), mat.Data[float32](a)...)
			d = append(make([]float32, 0, n), d...)
			p.ext = append(p.ext, func() {
				for i := range d {
					d[i] += 5
				}
			})
			return one(a.NewMatrix(mat.WithShape(rows(a), cols(a)), mat.WithBacking(d)))
		}
		d := append(make([]float64, 0, n), mat.Data[float64](a)...)
		p.ext = append(p.ext, func() {
			for i := range d {
				d[i] += 5
			}
		})
		return one(a.NewMatrix(mat.WithShape(rows(a), cols(a)), mat.WithBacking(d)))
	}},
	"NewMatrixFromMatrix": unIf(nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		if dtOf(a) == 32 {
			return a.NewMatrix(mat.WithShape(rows(a), cols(a)), mat.WithBacking(mat.Data[float32](a)))
		}
		return a.NewMatrix(mat.WithShape(rows(a), cols(a)), mat.WithBacking(mat.Data[float64](a)))
	}),

	// In-place operations.
	"AddInPlace":  ip2("Add", sameDims, func(a, b mat.Matrix, _ aliasStep) mat.Matrix { return a.AddInPlace(b) }),
	"SubInPlace":  ip2("Sub", sameDims, func(a, b mat.Matrix, _ aliasStep) mat.Matrix { return a.SubInPlace(b) }),
	"ProdInPlace": ip2("Prod", sameDims, func(a, b mat.Matrix, _ aliasStep) mat.Matrix { return a.ProdInPlace(b) }),
	"DivInPlace":  ip2("Div", sameDims, func(a, b mat.Matrix, _ aliasStep) mat.Matrix { return a.DivInPlace(b) }),
	"AddScalarInPlace": ip("AddScalar", nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.AddScalarInPlace(float64(s.V))
	}),
	"SubScalarInPlace": ip("SubScalar", nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.SubScalarInPlace(float64(s.V))
	}),
	"ProdScalarInPlace": ip("ProdScalar", nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.ProdScalarInPlace(float64(s.V))
	}),
	"TransposeInPlace": ip("T", nil, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.TransposeInPlace() }),
	"FlattenInPlace":   ip("Flatten", nil, func(a mat.Matrix, _ aliasStep) mat.Matrix { return a.FlattenInPlace() }),
	"ReshapeInPlace": ip("Reshape", nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		r, c := factor(a.Size(), s.I)
		return a.ReshapeInPlace(r, c)
	}),
	"ClipInPlace": ip("", nil, func(a mat.Matrix, s aliasStep) mat.Matrix { return a.ClipInPlace(-1, 1.5) }),
	"SwapInPlace": ip("", nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix {
		return a.SwapInPlace(s.I%rows(a), s.J%rows(a))
	}),
	"ApplyInPlace": ip2("", sameDims, func(a, b mat.Matrix, s aliasStep) mat.Matrix {
		return a.ApplyInPlace(func(r, c int, v float64) float64 { return v*2 + 1 }, b)
	}),
	"ApplyWithAlphaInPlace": ip2("", sameDims, func(a, b mat.Matrix, s aliasStep) mat.Matrix {
		return a.ApplyWithAlphaInPlace(func(r, c int, v float64, al ...float64) float64 { return v + al[0] }, b, float64(s.V))
	}),
	"ProdMatrixScalarInPlace": ip2("", sameDims, func(a, b mat.Matrix, s aliasStep) mat.Matrix {
		return a.ProdMatrixScalarInPlace(b, float64(s.V))
	}),
	"Copy":  ip2("", sameDims, func(a, b mat.Matrix, s aliasStep) mat.Matrix { a.Copy(b); return a }),
	"Zeros": ip("", nil, func(a mat.Matrix, s aliasStep) mat.Matrix { a.Zeros(); return a }),
	"SetScalar": ip("", nonEmpty, func(a mat.Matrix, s aliasStep) mat.Matrix {
		a.SetScalar(float.Interface(float64(s.V)), s.I%rows(a), s.J%cols(a))
		return a
	}),
	"SetAt": {needs: nonEmpty, other: func(a, b mat.Matrix) bool { return b.Size() == 1 }, inPlace: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) mat.Matrix {
		a.SetAt(b, s.I%rows(a), s.J%cols(a))
		return a
	}},
	"SetDataFrom": ip2("", func(a, b mat.Matrix) bool { return a.Size() == b.Size() }, func(a, b mat.Matrix, s aliasStep) mat.Matrix {
		a.SetData(b.Data())
		return a
	}),
	"SetDataSlice": {inPlace: func(p *aliasPool, a, _ mat.Matrix, s aliasStep) mat.Matrix {
		if s.I%2 == 0 {
			d := make([]float32, a.Size())
			for i := range d {
				d[i] = float32(i)
			}
			p.ext = append(p.ext, func() {
				for i := range d {
					d[i] += 3
				}
			})
			if s.J%2 == 0 {
				mat.SetData[float32](a, d)
			} else {
				a.SetData(float.Make(d...))
			}
			return a
		}
		d := make([]float64, a.Size())
		for i := range d {
			d[i] = float64(i)
		}
		p.ext = append(p.ext, func() {
			for i := range d {
				d[i] += 3
			}
		})
		a.SetData(float.Make(d...))
		return a
	}},
	// Gradients: the accumulated tensor must stay independent.
	"AccGrad": {other: func(a, b mat.Matrix) bool {
		return sameDims(a, b) && sameTypeM(a, b) && (!a.HasGrad() || mat.SameDims(a.Grad(), b))
	}, inPlace: func(_ *aliasPool, a, b mat.Matrix, s aliasStep) mat.Matrix {
		a.AccGrad(b)
		return a
	}},
	"SetRequiresGrad": ip("", nil, func(a mat.Matrix, s aliasStep) mat.Matrix {
		a.SetRequiresGrad(s.I%3 > 0)
		return a
	}),
	"ZeroGrad": ip("", nil, func(a mat.Matrix, s aliasStep) mat.Matrix { a.ZeroGrad(); return a }),
	// CallerWrites modifies every slice the caller handed over before.
	"CallerWrites": {inPlace: func(p *aliasPool, a, _ mat.Matrix, s aliasStep) mat.Matrix {
		for _, f := range p.ext {
			f()
		}
		return nil
	}},
}

var gradOps = map[string]bool{"AccGrad": true, "ZeroGrad": true, "SetRequiresGrad": true}

var aliasNames = sortedKeys(aliasOps)

func init() {
	var pure, inplace []string
	for _, n := range aliasNames {
		if aliasOps[n].pure != nil {
			pure = append(pure, n)
		} else {
			inplace = append(inplace, n)
		}
	}
	sort.Strings(pure)
	sort.Strings(inplace)
	dims := []int{1, 2, 3, 4, 1, 6}
	eng.Register("C03", "histories",
		"a history counts when at least one operation produced a new matrix and at least one later in-place operation or caller write was executed",
		160000, 4000000,
		func(t *rapid.T) aliasCase {
			var cs aliasCase
			n := gen.UInt(t, 1, 4)
			for i := 0; i < n; i++ {
				r, c := gen.Pick(t, dims...), gen.Pick(t, dims...)
				if gen.Chance(t, 5) {
					r = 0
				}
				if gen.Chance(t, 5) {
					r, c = gen.Dim(t, 1, 40), 1
				}
				if gen.Large(t) {
					r, c = gen.UInt(t, 40, 1500), gen.UInt(t, 1, 4)
				}
				dt := gen.DT(t)
				cs.DTs = append(cs.DTs, dt)
				cs.Init = append(cs.Init, gen.Matrix(t, r, c).Round(dt))
			}
			cs.Steps = gen.List(t, 2, gen.UInt(t, 3, 24), func(t *rapid.T) aliasStep {
				s := aliasStep{A: gen.U(t, 8), B: gen.U(t, 8), I: gen.U(t, 8), J: gen.U(t, 8), V: F(gen.Val(t))}
				if gen.Chance(t, 50) {
					s.Op = gen.Pick(t, inplace...)
				} else {
					s.Op = gen.Pick(t, pure...)
				}
				if gen.Chance(t, 60) {
					s.A = gen.U(t, 2)
				}
				return s
			})
			return cs
		},
		func(ctx *eng.Ctx, cs aliasCase) error {
			p := &aliasPool{}
			for i, m := range cs.Init {
				p.add("init", mk(cs.DTs[i], m, false))
			}
			made, mutated := false, false
			for k, s := range cs.Steps {
				op := aliasOps[s.Op]
				if op == nil {
					return errf("harness: unknown operation %q", s.Op)
				}
				a := p.pick(s.A, op.needs)
				if a == nil {
					continue
				}
				var b *aliasObj
				if op.other != nil {
					b = p.pick(s.B, func(m mat.Matrix) bool { return op.other(a.m, m) })
					if b == nil {
						continue
					}
				}
				var bm mat.Matrix
				what := fmt.Sprintf("step %d: %s on %s", k, s.Op, a.name)
				if b != nil {
					bm = b.m
					what += " and " + b.name
				}
				ctx.Label("%s", s.Op)
				var outs []mat.Matrix
				changed := (*aliasObj)(nil)
				if op.pure != nil {
					outs = op.pure(p, a.m, bm, s)
					for _, o := range outs {
						if o == nil {
							return errf("%s: nil result", what)
						}
						if o.RequiresGrad() || o.HasGrad() {
							return errf("%s: the result requires a gradient (%v) or has one (%v)", what, o.RequiresGrad(), o.HasGrad())
						}
					}
					made = true
				} else {
					var want mat.Matrix
					if op.same != "" {
						var bc mat.Matrix
						if bm != nil {
							bc = bm.Clone()
						}
						want = aliasOps[op.same].pure(p, a.m.Clone(), bc, s)[0]
					}
					r := op.inPlace(p, a.m, bm, s)
					if s.Op == "CallerWrites" {
						mutated = mutated || made && len(p.ext) > 0
					} else {
						if r != a.m {
							return errf("%s: the returned matrix is not the receiver", what)
						}
						changed = a
						mutated = mutated || made
					}
					if want != nil {
						if err := sameMatrix(a.m, want); err != nil {
							return errf("%s: differs from the copying form: %v", what, err)
						}
					}
				}
				for _, o := range p.objs {
					if o == changed {
						if gradOps[s.Op] {
							if err := o.s.same(o.m); err != nil {
								return errf("%s: the matrix itself changed: %v", what, err)
							}
						} else if (o.g != nil) != o.m.HasGrad() || o.g != nil && o.g.same(o.m.Grad()) != nil {
							return errf("%s: the gradient of %s changed", what, o.name)
						}
						if want := o.r; s.Op != "SetRequiresGrad" && o.m.RequiresGrad() != want || s.Op == "SetRequiresGrad" && o.m.RequiresGrad() != (s.I%3 > 0) {
							return errf("%s: RequiresGrad became %v", what, !want)
						}
						o.take()
						continue
					}
					if err := o.check(); err != nil {
						return errf("%s: %s changed: %v", what, o.name, err)
					}
				}
				for i, o := range outs {
					for _, q := range p.objs {
						if q.m == o {
							return errf("%s: the result is the matrix %s itself", what, q.name)
						}
					}
					for _, q := range outs[:i] {
						if q == o {
							return errf("%s: two results are the same matrix", what)
						}
					}
				}
				p.add(s.Op, outs...)
			}
			ctx.NTIf(made && mutated)
			return nil
		})
}

// sameMatrix compares values (NaN equals NaN) and shapes.
func sameMatrix(a, b mat.Tensor) error {
	if !mat.SameDims(a, b) {
		return errf("shape %v, want %v", a.Shape(), b.Shape())
	}
	x, y := vals(a), vals(b)
	for i := range x {
		if x[i] != y[i] && !(x[i] != x[i] && y[i] != y[i]) {
			return errf("element %d is %v, want %v", i, x[i], y[i])
		}
	}
	return nil
}
