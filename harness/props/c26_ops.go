package props

import (
	"fmt"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
)

// opArgCase is one differentiable function applied to operands that may be
// incompatible, and a backward pass with a gradient that may not fit.
type opArgCase struct {
	Op  string
	DT  []int
	Xs  []gen.Mat
	Req []int
	I   []int
	Gy  []int // what to do to the shape of the output, and two numbers
	GDT int
}

type gradFunc interface {
	Forward() (mat.Tensor, error)
	Backward(mat.Tensor) error
}

type T26 = mat.Tensor

// opArg describes a function: how operands fit together, and for given operand
// shapes the verdict and shape of the result.
type opArg struct {
	fit   int
	n     int // scalar parameters
	check func(d []dims, i []int) (verdict, dims)
	mk    func(x []T26, i []int) gradFunc
}

const (
	fitOne = iota
	fitSame
	fitScalar // all but the first are scalars
	fitMul
	fitMulT
	fitRows // vectors as long as a row
	fitVecs
	fitStack
	fitScalars
	fitAffine
	fitVec
)

func unary26(mk func(x T26) gradFunc) opArg {
	return opArg{fitOne, 0, func(d []dims, _ []int) (verdict, dims) { return valid, d[0] }, func(x []T26, _ []int) gradFunc { return mk(x[0]) }}
}

func same26(mk func(a, b T26) gradFunc) opArg {
	return opArg{fitSame, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0] == d[1]), d[0] },
		func(x []T26, _ []int) gradFunc { return mk(x[0], x[1]) }}
}

func scalar26(n int, mk func(x []T26) gradFunc) opArg {
	return opArg{fitScalar, n, func(d []dims, _ []int) (verdict, dims) {
		v := valid
		for _, s := range d[1 : 1+n] {
			v = v.and(ok(s.size() == 1))
		}
		return v, d[0]
	}, func(x []T26, _ []int) gradFunc { return mk(x) }}
}

func reduce26(nonEmpty bool, mk func(x T26) gradFunc) opArg {
	return opArg{fitOne, 0, func(d []dims, _ []int) (verdict, dims) { return valid, dims{1, 1} },
		func(x []T26, _ []int) gradFunc { return mk(x[0]) }}
}

var opArgs = map[string]opArg{
	"Add":              same26(func(a, b T26) gradFunc { return gradfn.NewAdd(a, b) }),
	"Sub":              same26(func(a, b T26) gradFunc { return gradfn.NewSub(a, b) }),
	"Prod":             same26(func(a, b T26) gradFunc { return gradfn.NewProd(a, b) }),
	"Div":              same26(func(a, b T26) gradFunc { return gradfn.NewDiv(a, b) }),
	"Max":              same26(func(a, b T26) gradFunc { return gradfn.NewMax(a, b) }),
	"Min":              same26(func(a, b T26) gradFunc { return gradfn.NewMin(a, b) }),
	"AddScalar":        scalar26(1, func(x []T26) gradFunc { return gradfn.NewAddScalar(x[0], x[1]) }),
	"SubScalar":        scalar26(1, func(x []T26) gradFunc { return gradfn.NewSubScalar(x[0], x[1]) }),
	"ReverseSubScalar": scalar26(1, func(x []T26) gradFunc { return gradfn.NewReverseSubScalar(x[0], x[1]) }),
	"ProdScalar":       scalar26(1, func(x []T26) gradFunc { return gradfn.NewProdScalar(x[0], x[1]) }),
	"DivScalar":        scalar26(1, func(x []T26) gradFunc { return gradfn.NewDivScalar(x[0], x[1]) }),
	"LeakyReLU":        scalar26(1, func(x []T26) gradFunc { return gradfn.NewLeakyReLU(x[0], x[1]) }),
	"ELU":              scalar26(1, func(x []T26) gradFunc { return gradfn.NewELU(x[0], x[1]) }),
	"CELU":             scalar26(1, func(x []T26) gradFunc { return gradfn.NewCELU(x[0], x[1]) }),
	"SwishB":           scalar26(1, func(x []T26) gradFunc { return gradfn.NewSwishB(x[0], x[1]) }),
	"SoftShrink":       scalar26(1, func(x []T26) gradFunc { return gradfn.NewSoftShrink(x[0], x[1]) }),
	"SELU":             scalar26(2, func(x []T26) gradFunc { return gradfn.NewSELU(x[0], x[1], x[2]) }),
	"SoftPlus":         scalar26(2, func(x []T26) gradFunc { return gradfn.NewSoftPlus(x[0], x[1], x[2]) }),
	"Threshold":        scalar26(2, func(x []T26) gradFunc { return gradfn.NewThreshold(x[0], x[1], x[2]) }),
	"Abs":              unary26(func(x T26) gradFunc { return gradfn.NewAbs(x) }),
	"Copy":             unary26(func(x T26) gradFunc { return gradfn.NewCopy(x) }),
	"Cos":              unary26(func(x T26) gradFunc { return gradfn.NewCos(x) }),
	"Exp":              unary26(func(x T26) gradFunc { return gradfn.NewExp(x) }),
	"GELU":             unary26(func(x T26) gradFunc { return gradfn.NewGELU(x) }),
	"HardSigmoid":      unary26(func(x T26) gradFunc { return gradfn.NewHardSigmoid(x) }),
	"HardTanh":         unary26(func(x T26) gradFunc { return gradfn.NewHardTanh(x) }),
	"Log":              unary26(func(x T26) gradFunc { return gradfn.NewLog(x) }),
	"Mish":             unary26(func(x T26) gradFunc { return gradfn.NewMish(x) }),
	"Neg":              unary26(func(x T26) gradFunc { return gradfn.NewNeg(x) }),
	"Pow":              unary26(func(x T26) gradFunc { return gradfn.NewPow(x, 2) }),
	"ReLU":             unary26(func(x T26) gradFunc { return gradfn.NewReLU(x) }),
	"Reciprocal":       unary26(func(x T26) gradFunc { return gradfn.NewReciprocal(x) }),
	"SiLU":             unary26(func(x T26) gradFunc { return gradfn.NewSiLU(x) }),
	"Sigmoid":          unary26(func(x T26) gradFunc { return gradfn.NewSigmoid(x) }),
	"Sin":              unary26(func(x T26) gradFunc { return gradfn.NewSin(x) }),
	"Softsign":         unary26(func(x T26) gradFunc { return gradfn.NewSoftsign(x) }),
	"Sqrt":             unary26(func(x T26) gradFunc { return gradfn.NewSqrt(x) }),
	"Square":           unary26(func(x T26) gradFunc { return gradfn.NewSquare(x) }),
	"Swish":            unary26(func(x T26) gradFunc { return gradfn.NewSwish(x) }),
	"Tan":              unary26(func(x T26) gradFunc { return gradfn.NewTan(x) }),
	"Tanh":             unary26(func(x T26) gradFunc { return gradfn.NewTanh(x) }),
	"Dropout":          unary26(func(x T26) gradFunc { return gradfn.NewDropout(x, 0.5, rand.NewLockedRand(1)) }),
	"Dropout1":         unary26(func(x T26) gradFunc { return gradfn.NewDropout(x, 1, rand.NewLockedRand(1)) }),
	"ReduceMean":       reduce26(false, func(x T26) gradFunc { return gradfn.NewReduceMean(x) }),
	"ReduceSum":        reduce26(false, func(x T26) gradFunc { return gradfn.NewReduceSum(x) }),
	"ReduceMax": {fitVec, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0].vec()), dims{1, 1} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewReduceMax(x[0]) }},
	"Flatten": {fitOne, 0, func(d []dims, _ []int) (verdict, dims) { return valid, dims{1, d[0].size()} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewFlatten(x[0]) }},
	"Transpose": {fitOne, 0, func(d []dims, _ []int) (verdict, dims) { return valid, dims{d[0].c, d[0].r} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewTranspose(x[0]) }},
	"Softmax": {fitVec, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0].vec()), dims{d[0].size(), 1} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewSoftmax(x[0]) }},
	"SparseMax": {fitVec, 0, func(d []dims, _ []int) (verdict, dims) {
		if !d[0].vec() {
			return maybe, d[0]
		}
		return valid, d[0]
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewSparseMax(x[0]) }},
	"SparseMaxLoss": {fitVec, 0, func(d []dims, _ []int) (verdict, dims) {
		if !d[0].vec() {
			return maybe, d[0]
		}
		return valid, d[0]
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewSparseMaxLoss(x[0]) }},
	"Dot": {fitSame, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0] == d[1]), dims{1, 1} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewDot(x[0], x[1]) }},
	"Mul": {fitMul, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0].c == d[1].r), dims{d[0].r, d[1].c} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewMul(x[0], x[1]) }},
	"MulT": {fitMulT, 0, func(d []dims, _ []int) (verdict, dims) { return ok(d[0].r == d[1].r && d[1].c == 1), dims{d[0].c, 1} },
		func(x []T26, _ []int) gradFunc { return gradfn.NewMulT(x[0], x[1]) }},
	"At": {fitOne, 0, func(d []dims, i []int) (verdict, dims) { return ok(indexOK(d[0], i[:mod(i[3], 4)])), dims{1, 1} },
		func(x []T26, i []int) gradFunc { return gradfn.NewAt(x[0], i[:mod(i[3], 4)]...) }},
	"RowView": {fitOne, 0, func(d []dims, i []int) (verdict, dims) { return ok(i[0] >= 0 && i[0] < d[0].r), dims{1, d[0].c} },
		func(x []T26, i []int) gradFunc { return gradfn.NewRowView(x[0], i[0]) }},
	"ColView": {fitOne, 0, func(d []dims, i []int) (verdict, dims) { return ok(i[0] >= 0 && i[0] < d[0].c), dims{d[0].r, 1} },
		func(x []T26, i []int) gradFunc { return gradfn.NewColView(x[0], i[0]) }},
	"Slice": {fitOne, 0, func(d []dims, i []int) (verdict, dims) {
		return sliceOK(i[0], i[2], d[0].r).and(sliceOK(i[1], i[3], d[0].c)), dims{i[2] - i[0], i[3] - i[1]}
	}, func(x []T26, i []int) gradFunc { return gradfn.NewSlice(x[0], i[0], i[1], i[2], i[3]) }},
	"Reshape": {fitOne, 0, func(d []dims, i []int) (verdict, dims) {
		p, fits := prodOf(i[:2])
		return ok(fits && p == d[0].size()), dims{i[0], i[1]}
	}, func(x []T26, i []int) gradFunc { return gradfn.NewReshape(x[0], i[0], i[1]) }},
	"RotateR": {fitVec, 0, func(d []dims, i []int) (verdict, dims) {
		if d[0].c != 1 || i[0] < 0 || i[0] > d[0].size() { // documented for vectors and positions within them
			return maybe, d[0]
		}
		return valid, d[0]
	}, func(x []T26, i []int) gradFunc { return gradfn.NewRotateR(x[0], i[0]) }},
	"MaxPooling": {fitOne, 0, func(d []dims, i []int) (verdict, dims) {
		if i[0] < 1 || i[1] < 1 {
			if d[0].size() == 0 {
				return maybe, dims{}
			}
			return invalid, dims{}
		}
		return ok(d[0].r%i[0] == 0 && d[0].c%i[1] == 0), dims{d[0].r / i[0], d[0].c / i[1]}
	}, func(x []T26, i []int) gradFunc { return gradfn.NewMaxPooling(x[0], i[0], i[1]) }},
	"Concat": {fitVecs, 0, func(d []dims, _ []int) (verdict, dims) {
		v, n := valid, 0
		for _, x := range d {
			v = v.and(ok(x.vec()))
			n += x.size()
		}
		return v, dims{n, 1}
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewConcat(x) }},
	"Stack": {fitStack, 0, func(d []dims, _ []int) (verdict, dims) {
		v := valid
		for _, x := range d {
			v = v.and(ok(x.vec() && x.size() == d[0].size()))
		}
		return v, dims{len(d), d[0].size()}
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewStack(x) }},
	"AppendRows": {fitRows, 0, func(d []dims, _ []int) (verdict, dims) {
		v := valid
		for _, x := range d[1:] {
			v = v.and(ok(x.vec() && x.size() == d[0].c))
		}
		return v, dims{d[0].r + len(d) - 1, d[0].c}
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewAppendRows(x[0], x[1:]...) }},
	"ScalarMax": {fitScalars, 0, func(d []dims, _ []int) (verdict, dims) {
		v := valid
		for _, x := range d {
			v = v.and(ok(x.size() == 1))
		}
		return v, dims{1, 1}
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewScalarMax(x) }},
	"Affine": {fitAffine, 0, func(d []dims, _ []int) (verdict, dims) {
		y := dims{d[1].r, d[2].c}
		v := ok(d[1].c == d[2].r && d[0] == y)
		if len(d) == 4 {
			return invalid, y
		}
		if len(d) > 4 {
			v = v.and(ok(d[3].c == d[4].r && y == dims{d[3].r, d[4].c}))
		}
		return v, y
	}, func(x []T26, _ []int) gradFunc { return gradfn.NewAffine(x[0], x[1], x[2], x[3:]...) }},
}

// fitting operands.
func fitDims(t *rapid.T, fit int) []dims {
	d := argDims(t)
	vec := func(n int) dims {
		if gen.Bool(t) {
			return dims{n, 1}
		}
		return dims{1, n}
	}
	n := gen.UInt(t, 0, 3)
	ds := []dims{d}
	switch fit {
	case fitOne:
	case fitSame:
		ds = append(ds, d)
	case fitScalar:
		ds = append(ds, dims{1, 1}, dims{1, 1})
	case fitMul:
		k := gen.UInt(t, 1, 4)
		if gen.Bool(t) {
			k = 1
		}
		ds = append(ds, dims{d.c, k})
	case fitMulT:
		ds = append(ds, dims{d.r, 1})
	case fitRows:
		for ; n > 0; n-- {
			ds = append(ds, vec(d.c))
		}
	case fitVec:
		return []dims{vec(gen.UInt(t, 0, 7))}
	case fitVecs:
		ds[0] = vec(d.size())
		for ; n > 0; n-- {
			ds = append(ds, vec(gen.UInt(t, 0, 5)))
		}
	case fitStack:
		ds[0] = vec(d.r)
		for ; n > 0; n-- {
			ds = append(ds, vec(d.r))
		}
	case fitScalars:
		ds[0] = dims{1, 1}
		for ; n > 0; n-- {
			ds = append(ds, dims{1, 1})
		}
	case fitAffine:
		k := gen.UInt(t, 1, 3)
		ds = []dims{{d.r, k}, d, {d.c, k}}
		if gen.Bool(t) {
			m := gen.UInt(t, 0, 3)
			ds = append(ds, dims{d.r, m}, dims{m, k})
		} else if gen.Chance(t, 10) {
			ds = append(ds, d)
		}
	}
	return ds
}

func genOpArg(names []string) func(t *rapid.T) opArgCase {
	return func(t *rapid.T) opArgCase {
		c := opArgCase{Op: names[gen.U(t, len(names))]}
		ds := fitDims(t, opArgs[c.Op].fit)
		if gen.Chance(t, 35) { // one operand of another shape
			k := gen.U(t, len(ds))
			ds[k] = relDims(t, ds[gen.U(t, len(ds))])
		}
		for _, d := range ds {
			dt := gen.DT(t)
			c.DT = append(c.DT, dt)
			c.Req = append(c.Req, gen.U(t, 4))
			c.Xs = append(c.Xs, argMat(t, d).Round(dt))
		}
		for i := 0; i < 4; i++ {
			c.I = append(c.I, argInt(t, ds, i < 3))
		}
		d := ds[0]
		if gen.Chance(t, 60) { // indices that fit
			switch c.Op {
			case "RowView":
				c.I[0] = gen.U(t, d.r+1)
			case "ColView":
				c.I[0] = gen.U(t, d.c+1)
			case "Slice":
				c.I = []int{gen.U(t, d.r+1), gen.U(t, d.c+1), gen.U(t, d.r+1), gen.U(t, d.c+1)}
				for k := 0; k < 2; k++ {
					if c.I[k] > c.I[k+2] {
						c.I[k], c.I[k+2] = c.I[k+2], c.I[k]
					}
				}
			case "Reshape":
				c.I[0] = gen.UInt(t, 1, 6)
				c.I[1] = d.size() / c.I[0]
			case "At":
				c.I[0], c.I[1], c.I[3] = gen.U(t, d.r+1), gen.U(t, d.c+1), 2
			case "MaxPooling":
				for k, n := range []int{d.r, d.c} {
					c.I[k] = gen.UInt(t, 1, 6)
					if gen.Bool(t) || n%c.I[k] != 0 {
						c.I[k] = max(1, n)
					}
				}
			}
		}
		c.Gy = []int{gen.U(t, 12), gen.UInt(t, 0, 6), gen.UInt(t, 0, 6)}
		c.GDT = gen.DT(t)
		return c
	}
}

// gradDims derives the shape of a gradient from that of the output.
func gradDims(y dims, g []int) dims {
	switch g[0] {
	case 0:
		return dims{y.c, y.r}
	case 1:
		return dims{y.size(), 1}
	case 2:
		return dims{1, y.size()}
	case 3:
		return dims{y.r + 1, y.c}
	case 4:
		return dims{y.r, y.c + 1}
	case 5:
		return dims{max(0, y.r-1), y.c}
	case 6:
		return dims{y.r, max(0, y.c-1)}
	case 7:
		return dims{g[1], g[2]}
	case 8:
		return dims{1, 1}
	}
	return y
}

func evalOpArg(ctx *eng.Ctx, c opArgCase) error {
	op := opArgs[c.Op]
	var ds []dims
	var gs []*guarded
	var xs []T26
	var before []snap
	empty := false
	for i, x := range c.Xs {
		g := mkGuarded(c.DT[i], x)
		if c.Req[i] > 0 {
			g.m.SetRequiresGrad(true)
		}
		if c.Req[i] == 3 {
			g.m.AccGrad(g.m.OnesLike())
		}
		gs, xs, ds = append(gs, g), append(xs, g.m), append(ds, dimsOf(x))
		before = append(before, snapOf(g.m))
		empty = empty || ds[i].size() == 0
	}
	v, y := op.check(ds, c.I)
	used := len(xs)
	switch op.fit {
	case fitScalar:
		used = 1 + op.n
	case fitOne, fitVec:
		used = 1
	case fitSame, fitMul, fitMulT:
		used = 2
	}
	if v == valid && empty {
		v = maybe
	}
	what := fmt.Sprintf("%s of %v with %v", c.Op, ds, c.I)
	unchanged := func(stage string) error {
		for i, g := range gs {
			if err := g.intact(); err != nil {
				return errf("%s: %s: operand %d: %v", what, stage, i, err)
			}
			if err := before[i].same(g.m); err != nil {
				return errf("%s: %s: operand %d: %v", what, stage, i, err)
			}
		}
		return nil
	}
	noGrads := func(stage string) error {
		for i, g := range gs {
			if g.m.HasGrad() != (c.Req[i] == 3) {
				return errf("%s: %s: operand %d has a gradient: %v", what, stage, i, g.m.HasGrad())
			}
			if c.Req[i] == 3 {
				for _, v := range vals(g.m.Grad()) {
					if v != 1 {
						return errf("%s: %s changed the gradient of operand %d to %v", what, stage, i, vals(g.m.Grad()))
					}
				}
			}
		}
		return nil
	}

	var fn gradFunc
	var out T26
	var err error
	p := catch(func() {
		fn = op.mk(xs, c.I)
		out, err = fn.Forward()
	})
	rejected := p != nil || err != nil
	names := map[verdict]string{invalid: "invalid", valid: "valid", maybe: "either"}
	ctx.NTIf(v != valid)
	ctx.Label("%s %s", names[v], c.Op)
	if v == invalid && !rejected {
		return errf("%s: incompatible operands gave a result of shape %v", what, out.Shape())
	}
	if v == valid && rejected {
		return errf("%s: a valid call was rejected: %v %v", what, p, err)
	}
	if err := unchanged("forward"); err != nil {
		return err
	}
	if err := noGrads("forward"); err != nil {
		return err
	}
	if rejected {
		return nil
	}
	if v == valid && !shapeIs(out, y.r, y.c) {
		return errf("%s: result of shape %v, want %v", what, out.Shape(), y)
	}
	y = dims{out.Shape()[0], out.Shape()[1]}
	if y.size() != len(vals(out)) {
		return errf("%s: result of shape %v holds %d elements", what, y, len(vals(out)))
	}

	gd := gradDims(y, c.Gy)
	if n, fits := prodOf([]int{gd.r, gd.c}); !fits || n > 1000 {
		gd = y
	}
	gm := gen.Mat{R: gd.r, C: gd.c, D: make([]F, gd.size())}
	for i := range gm.D {
		gm.D[i] = F(i + 2)
	}
	gg := mkGuarded(c.GDT, gm)
	gyBefore := snapOf(gg.m)
	any := false
	for _, r := range c.Req[:used] {
		any = any || r > 0
	}
	// The function yields row gradients even for columns, which an operand with
	// a column gradient rejects; ag.AppendRows transposes columns.
	column := false
	for i, d := range ds {
		column = column || c.Op == "AppendRows" && i > 0 && d.c == 1 && d.r != 1 && c.Req[i] == 3
	}
	bv := valid
	switch {
	case gd.size() != y.size() && any && c.Op == "SparseMax":
		bv = maybe // the repository's own test passes a longer gradient
	case gd.size() != y.size() && any:
		bv = invalid
	case gd != y || v != valid || !any || column:
		bv = maybe
	}
	err = nil
	p = catch(func() { err = fn.Backward(gg.m) })
	rejected = p != nil || err != nil
	ctx.NTIf(bv != valid)
	what += fmt.Sprintf(" (requiring gradients %v), gradient %v for output %v", c.Req, gd, y)
	ctx.Label("gradient %s, %s", names[bv], c.Op)
	if bv == invalid && !rejected {
		return errf("%s was accepted", what)
	}
	if bv == valid && rejected {
		return errf("%s was rejected: %v %v", what, p, err)
	}
	if err := unchanged("backward"); err != nil {
		return err
	}
	if err := gg.intact(); err != nil {
		return errf("%s: gradient: %v", what, err)
	}
	if err := gyBefore.same(gg.m); err != nil {
		return errf("%s: backward changed the gradient it was given: %v", what, err)
	}
	if rejected {
		if column {
			return nil
		}
		return noGrads("the rejected backward pass")
	}
	for i, g := range gs {
		if c.Req[i] == 0 {
			if any && g.m.HasGrad() {
				return errf("%s: operand %d does not require gradients but has one", what, i)
			}
			continue
		}
		if !g.m.HasGrad() {
			if bv == valid && i < used && ds[i].size() > 0 && c.Op != "ScalarMax" {
				return errf("%s: operand %d has no gradient", what, i)
			}
			continue
		}
		if c.Op == "AppendRows" && i > 0 && shapeIs(g.m.Grad(), ds[i].c, ds[i].r) {
			continue // vectors are treated as rows, as the repository's test expects
		}
		if !shapeIs(g.m.Grad(), ds[i].r, ds[i].c) {
			return errf("%s: operand %d has a gradient of shape %v", what, i, g.m.Grad().Shape())
		}
	}
	return nil
}

func init() {
	eng.Register("C26", "operators",
		"operator applied to operands, indices or a gradient whose shape does not fit (or whose documentation leaves it open)",
		1000000, 40000000, genOpArg(sortedKeys(opArgs)), evalOpArg)
}
