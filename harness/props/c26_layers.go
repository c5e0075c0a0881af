package props

import (
	"strings"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/convolution"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
)

// layerCase calls a model with an input that does not fit among inputs that do.
type layerCase struct {
	Model modelCase
	K     int // which input
	How   int
	D     int
}

var layerKinds = []string{"linear", "linear", "highway", "gmlp", "gmlpblock", "mlpmixer", "srn", "gru", "lstm", "selfattention", "multihead", "sqrdist",
	"layernorm", "rmsnorm", "slstm"}

func genLayerCase(t *rapid.T) layerCase {
	spec := genSpec(t, gen.Pick(t, layerKinds...), 0)
	c := layerCase{Model: genModelCase(t, spec), K: gen.U(t, 20), How: gen.U(t, 6), D: gen.UInt(t, 1, 3)}
	if n := c.Model.N; n > 6 {
		c.Model.N = 1 + n%6
	}
	return c
}

func evalLayerCase(ctx *eng.Ctx, c layerCase) error {
	// Asynchronous operators end the program when they reject their operands.
	ag.SetForceSyncExecution(true)
	defer ag.SetForceSyncExecution(false)
	r := newModelRun(c.Model)
	kind := c.Model.Spec.Kind
	if len(r.xs) == 0 || kind == "slstm" && c.Model.Spec.a(2) < 2 { // a single step uses no input
		return nil
	}
	xs := append([]mat.Tensor(nil), r.xs...)
	k := mod(c.K, len(xs))
	s := xs[k].Value().Shape()
	how := c.How
	if s[0] == 1 && (how == 1 || how == 2 && s[0] <= c.D) {
		how = 0
	}
	bad := gen.Mat{R: s[0] + c.D, C: 1}
	switch how {
	case 1: // transposed
		bad = gen.Mat{R: 1, C: s[0]}
	case 2:
		if s[0] > c.D {
			bad.R = s[0] - c.D
		}
	case 3: // too long a sequence
		if kind == "gmlp" || kind == "gmlpblock" || kind == "mlpmixer" || kind == "sgu" {
			bad.R = s[0]
			for want := c.Model.Spec.a(map[string]int{"gmlp": 2, "gmlpblock": 2, "mlpmixer": 3, "sgu": 1}[kind]); len(xs) <= want; {
				xs = append(xs, xs[len(xs)-1])
			}
			k = len(xs) - 1
		}
	}
	bad.D = make([]F, bad.R*bad.C)
	for i := range bad.D {
		bad.D[i] = F(0.25 * float64(i+1))
	}
	g := mkGuarded(c.Model.DT, bad)
	bt := g.m
	xs[k] = bt
	var before []snap
	for _, p := range r.ps {
		before = append(before, snapOf(p))
	}
	var ins []snap
	for _, x := range r.ins {
		ins = append(ins, snapOf(x))
	}
	good := runModel(r.m, r.xs)
	var want []snap
	for _, y := range good {
		want = append(want, snapOf(y))
	}
	ctx.NT()
	ctx.Label("%s %d", kind, how)
	var ys []mat.Tensor
	p := catch(func() { ys = runModel(r.m, xs) })
	if p == nil {
		var shapes []string
		for _, y := range ys {
			shapes = append(shapes, strings.Trim(strings.Join(strings.Fields(itoaShape(y)), "x"), "[]"))
		}
		return errf("%v accepted input %d of shape %d×%d among %d (expected %v): results %v", c.Model.Spec, k, bad.R, bad.C, len(xs), s, shapes)
	}
	if err := g.intact(); err != nil {
		return errf("%v: rejected input: %v", c.Model.Spec, err)
	}
	for i, p := range r.ps {
		if err := before[i].same(p); err != nil {
			return errf("%v: the rejected call changed parameter %s: %v", c.Model.Spec, r.nms[i], err)
		}
		if p.HasGrad() {
			return errf("%v: the rejected call left a gradient on parameter %s", c.Model.Spec, r.nms[i])
		}
	}
	for i, x := range r.ins {
		if err := ins[i].same(x); err != nil {
			return errf("%v: the rejected call changed input %d: %v", c.Model.Spec, i, err)
		}
	}
	for i, y := range runModel(r.m, r.xs) {
		if err := want[i].same(y); err != nil {
			return errf("%v: result %d after a rejected call: %v", c.Model.Spec, i, err)
		}
	}
	return nil
}

func itoaShape(y mat.Tensor) string {
	s := y.Value().Shape()
	return itoa(s[0]) + " " + itoa(s[1])
}

// confCase exercises other documented preconditions.
type confCase struct {
	Op  string
	DT  int
	X   gen.Mat
	W   gen.Mat
	I   []int
	Str string
}

var confOps = []string{"conv1d", "conv2d", "convmask", "crossentropy", "weightedce", "focal", "mse", "mae", "nll", "activation", "nilparam"}

func genConf(t *rapid.T) confCase {
	c := confCase{Op: confOps[gen.U(t, len(confOps))], DT: gen.DT(t)}
	d := argDims(t)
	w := relDims(t, d)
	if gen.Bool(t) { // a kernel that may fit
		w = dims{gen.UInt(t, 0, d.r), gen.UInt(t, 0, d.c)}
		if c.Op == "conv1d" {
			w.r = d.r
		}
	}
	c.X, c.W = argMat(t, d), argMat(t, w)
	for i := 0; i < 4; i++ {
		c.I = append(c.I, gen.Pick(t, gen.UInt(t, 0, 4), gen.UInt(t, 1, 3), 1, argInt(t, []dims{d, w}, true)))
	}
	if c.Op == "activation" {
		n := actNames[gen.U(t, len(actNames))]
		switch gen.U(t, 6) {
		case 0:
			n = strings.ToLower(n)
		case 1:
			n = strings.ToUpper(n)
		case 2:
			n = n[:gen.U(t, len(n))]
		case 3:
			n += gen.Pick(t, " ", "x", n)
		case 4:
			b := []byte(n)
			b[gen.U(t, len(b))] ^= 32
			n = string(b)
		}
		c.Str = n
	}
	return c
}

func evalConf(ctx *eng.Ctx, c confCase) error {
	gx, gw := mkGuarded(c.DT, c.X), mkGuarded(c.DT, c.W)
	x, w := mat.Tensor(gx.m), mat.Tensor(gw.m)
	sx, sw := snapOf(x), snapOf(w)
	d, k := dimsOf(c.X), dimsOf(c.W)
	v := maybe
	var want *dims
	var f func() mat.Tensor
	strideOK := func(n, k, s int) verdict {
		switch {
		case s == 0:
			return invalid
		case s < 0 || k == 0 || n == 0:
			return maybe
		}
		return ok(k <= n && (n-k)%s == 0)
	}
	empty := func() {
		if v == valid && (d.size() == 0 || k.size() == 0) {
			v = maybe
		}
	}
	switch c.Op {
	case "conv1d":
		s := c.I[0]
		if s != 0 && (d.c-k.c)%s == 0 && (d.c-k.c)/s+1 <= 0 && d.r == k.r {
			return nil // no output at all: the operator ends the program
		}
		v = strideOK(d.c, k.c, s).and(ok(d.r == k.r))
		empty()
		if v == valid {
			want = &dims{(d.c-k.c)/s + 1, 1}
		}
		f = func() mat.Tensor { return convolution.Conv1D(w, x, s) }
	case "conv2d":
		s, q := c.I[0], c.I[1]
		for _, a := range [][3]int{{d.r, k.r, s}, {d.c, k.c, q}} {
			if a[2] != 0 && (a[0]-a[1])%a[2] == 0 && (a[0]-a[1])/a[2]+1 <= 0 {
				return nil
			}
		}
		v = strideOK(d.r, k.r, s).and(strideOK(d.c, k.c, q))
		empty()
		if v == valid {
			want = &dims{(d.r-k.r)/s + 1, (d.c-k.c)/q + 1}
		}
		f = func() mat.Tensor { return convolution.Conv2D(w, x, s, q) }
	case "convmask":
		in, out := mod(c.I[0], 5), mod(c.I[1], 5)
		depth := c.I[3]&1 == 1
		var mask []int
		v = ok(!depth || in == out)
		if m := mod(c.I[2], 6); m > 0 {
			mask = make([]int, m)
			v = v.and(ok(m == in))
		}
		f = func() mat.Tensor {
			if c.I[3]&2 == 0 {
				convolution1d.New[float32](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 2, YStride: 1, InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: depth})
			} else {
				convolution2d.New[float64](convolution2d.Config{KernelSizeX: 1, KernelSizeY: 2, XStride: 1, YStride: 1, InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: depth})
			}
			return nil
		}
	case "crossentropy", "weightedce", "focal":
		i := c.I[0]
		v = ok(indexOK(d, []int{i}))
		switch c.Op {
		case "crossentropy":
			f = func() mat.Tensor { return losses.CrossEntropy(x, i) }
		case "focal":
			f = func() mat.Tensor { return losses.FocalLoss(x, i, 2) }
		default:
			v = v.and(ok(indexOK(k, []int{i})))
			f = func() mat.Tensor { return losses.WeightedCrossEntropy(gw.m)(x, i) }
		}
		want = &dims{1, 1}
	case "mse", "mae", "nll":
		v = ok(d == k)
		if d.size() == 0 && v == valid {
			v = maybe
		}
		want = &dims{1, 1}
		f = func() mat.Tensor {
			switch c.Op {
			case "mse":
				return losses.MSE(x, w, c.I[0]&1 == 0)
			case "mae":
				return losses.MAE(x, w, c.I[0]&1 == 0)
			}
			return losses.NLL(x, w)
		}
	case "activation":
		v = invalid
		var a activation.Activation
		for n, k := range actConsts {
			if c.Str == n || c.Str == strings.ToLower(n) {
				v, a = valid, k
			}
		}
		got, err := activation.ParseActivation(c.Str)
		if (err == nil) != (v == valid) || err == nil && got != a {
			return errf("ParseActivation(%q): %v, %v", c.Str, got, err)
		}
		f = func() mat.Tensor {
			if got := activation.MustParseActivation(c.Str); got != a {
				panic("harness: another activation")
			}
			return nil
		}
	case "nilparam":
		v = invalid
		f = func() mat.Tensor { nn.NewParam(nil); return nil }
	}
	ctx.NTIf(v == invalid)
	ctx.Label("%s %s", []string{"invalid", "valid", "either"}[v], c.Op)
	var y mat.Tensor
	p := catch(func() { y = f() })
	what := c.Op + " of " + itoaShape(x) + " and " + itoaShape(w)
	if v == invalid && p == nil {
		return errf("%s, arguments %v %q: accepted", what, c.I, c.Str)
	}
	if v == valid && p != nil {
		return errf("%s, arguments %v %q: rejected: %v", what, c.I, c.Str, p)
	}
	if v == valid && want != nil && !shapeIs(y.Value(), want.r, want.c) {
		return errf("%s, arguments %v: result of shape %v, want %v", what, c.I, y.Value().Shape(), *want)
	}
	for _, e := range []error{gx.intact(), gw.intact(), sx.same(x), sw.same(w)} {
		if e != nil {
			return errf("%s, arguments %v: %v", what, c.I, e)
		}
	}
	return nil
}

func init() {
	eng.Register("C26", "layers", "a layer applied to an input of the wrong shape or to too many inputs, and again to the right ones",
		30000, 2000000, genLayerCase, evalLayerCase)
	eng.Register("C26", "config", "a stride, kernel, class index, target shape, mask, or activation name that does not fit",
		100000, 6000000, genConf, evalConf)
}
