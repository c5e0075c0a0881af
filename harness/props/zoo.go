package props

import (
	"fmt"
	"math"
	"reflect"
	"slices"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// modelSpec describes a model of the library: kind, sizes and configuration.
type modelSpec struct {
	Kind  string
	A     []int
	Act   int         `json:",omitempty"`
	Act2  int         `json:",omitempty"`
	Merge int         `json:",omitempty"`
	Flag  bool        `json:",omitempty"`
	Flag2 bool        `json:",omitempty"`
	Eps   F           `json:",omitempty"`
	P     []F         `json:",omitempty"`
	Mask  []int       `json:",omitempty"`
	Inner []modelSpec `json:",omitempty"`
}

// actNames lists the activations in the order of the harness's numbering.
var actNames = []string{"Identity", "Tanh", "Sigmoid", "ReLU", "GELU", "Softsign", "HardTanh", "HardSigmoid", "PositiveELU", "Swish", "SiLU", "Mish", "Tan", "Softmax", "LogSoftmax", "SparseMax",
	"CELU", "ELU", "SwishB", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink", "Threshold"}

var actConsts = map[string]activation.Activation{
	"Identity": activation.Identity, "Tan": activation.Tan, "Tanh": activation.Tanh, "Sigmoid": activation.Sigmoid, "HardSigmoid": activation.HardSigmoid,
	"HardTanh": activation.HardTanh, "Softsign": activation.Softsign, "ReLU": activation.ReLU, "CELU": activation.CELU, "GELU": activation.GELU,
	"ELU": activation.ELU, "PositiveELU": activation.PositiveELU, "SwishB": activation.SwishB, "Swish": activation.Swish, "SiLU": activation.SiLU,
	"Mish": activation.Mish, "LeakyReLU": activation.LeakyReLU, "SELU": activation.SELU, "SoftPlus": activation.SoftPlus, "SoftShrink": activation.SoftShrink,
	"Threshold": activation.Threshold, "Softmax": activation.Softmax, "LogSoftmax": activation.LogSoftmax, "SparseMax": activation.SparseMax,
}

// number of element-wise activations without and with parameters.
const (
	nElemActs  = 13 // Identity .. Tan
	nPlainActs = 16
)

func act(i int) activation.Activation { return actConsts[actNames[mod(i, nPlainActs)]] }

var actOfConst = func() map[activation.Activation]string {
	o := map[activation.Activation]string{}
	for n, c := range actConsts {
		o[c] = n
	}
	return o
}()

// splitmix64.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// hval is a deterministic value in [-1, 1) for an element of an object.
func hval(seed uint64, obj, el int) float64 {
	u := mix(mix(seed+uint64(obj)*0x9e3779b97f4a7c15) ^ uint64(el)*0xd1b54a32d192ed03)
	return float64(int64(u)>>11) / (1 << 52)
}

// hmat makes a matrix of pseudo-random values.
func hmat(dt, r, c int, seed uint64, obj int, scale float64) gen.Mat {
	m := gen.Mat{R: r, C: c, D: make([]F, r*c)}
	for i := range m.D {
		m.D[i] = F(scale * hval(seed, obj, i))
	}
	return m.Round(dt)
}

var (
	paramType  = reflect.TypeOf((*nn.Param)(nil))
	bufferType = reflect.TypeOf((*nn.Buffer)(nil))
)

// visitParams walks the exported structure of a model independently of spago's
// own traversal, and calls f for each reachable parameter, in structure order
// and as often as it is reachable.
func visitParams(m any, f func(path string, p *nn.Param)) { visitValue(reflect.ValueOf(m), "", f, nil) }

// visitBuffers does the same for buffers.
func visitBuffers(m any, f func(path string, b *nn.Buffer)) {
	visitValue(reflect.ValueOf(m), "", nil, f)
}

func visitValue(v reflect.Value, path string, f func(string, *nn.Param), g func(string, *nn.Buffer)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			visitValue(v.Elem(), path, f, g)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == paramType {
			if f != nil {
				f(path, v.Interface().(*nn.Param))
			}
			return
		}
		if v.Type() == bufferType {
			if g != nil {
				g(path, v.Interface().(*nn.Buffer))
			}
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			visitValue(v.Elem(), path, f, g)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				visitValue(v.Field(i), path+"."+v.Type().Field(i).Name, f, g)
			}
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Array, reflect.Map:
			for i := 0; i < v.Len(); i++ {
				visitValue(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f, g)
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		byName := map[string]reflect.Value{}
		for _, k := range keys {
			byName[fmt.Sprint(k.Interface())] = v.MapIndex(k)
		}
		for _, k := range sortedKeys(byName) {
			visitValue(byName[k], path+"["+k+"]", f, g)
		}
	}
}

func allParams(m any) (ps []*nn.Param, names []string) {
	seen := map[*nn.Param]bool{}
	visitParams(m, func(n string, p *nn.Param) {
		if !seen[p] {
			seen[p] = true
			ps, names = append(ps, p), append(names, n)
		}
	})
	return
}

// setParam overwrites the elements of a parameter.
func setParam(p *nn.Param, m gen.Mat) {
	for i, v := range m.D {
		p.SetScalar(float.Interface(float64(v)), i/max(m.C, 1), i%max(m.C, 1))
	}
}

// fillParams gives every parameter pseudo-random values.
func fillParams(dt int, m any, seed uint64, scale float64) {
	ps, _ := allParams(m)
	for k, p := range ps {
		s := p.Shape()
		setParam(p, hmat(dt, s[0], s[1], seed, 1000+k, scale))
	}
}

// build constructs the model.
func (s modelSpec) build(dt int) nn.Model {
	if dt == 32 {
		return buildModel[float32](s)
	}
	return buildModel[float64](s)
}

func (s modelSpec) a(i int) int { return s.A[i] }

func buildModel[T float.DType](s modelSpec) nn.Model {
	switch s.Kind {
	case "linear":
		return linear.New[T](s.a(0), s.a(1)).WithBiasGrad(!s.Flag)
	case "activation":
		var ps []*nn.Param
		for _, p := range s.P {
			ps = append(ps, nn.NewParam(mat.Scalar(T(p))))
		}
		return activation.New(actConsts[actNames[mod(s.Act, len(actNames))]], ps...)
	case "highway":
		return highway.New[T](s.a(0), act(s.Act))
	case "gmlpblock":
		return gmlp.NewBlock[T](gmlp.BlockConfig{Dim: s.a(0), DimFF: s.a(1), SeqLen: s.a(2), Activation: act(s.Act)})
	case "gmlp":
		return gmlp.New[T](gmlp.Config{Dim: s.a(0), Depth: s.a(1), SeqLen: s.a(2), FFMult: s.a(3), Activation: act(s.Act)})
	case "sgu":
		return sgu.New[T](sgu.Config{Dim: s.a(0), DimSeq: s.a(1), InitEps: 1e-3, Activation: act(s.Act)})
	case "mlpmixer":
		return mlpmixer.New[T](mlpmixer.Config{InputSize: s.a(0), HiddenSizeTokenMixer: s.a(1), HiddenSizeChannelMixer: s.a(2), Channels: s.a(3),
			ActFunctionTokenMixer: act(s.Act), ActFunctionChannelMixer: act(s.Act2), Eps: float64(s.Eps)})
	case "sqrdist":
		return sqrdist.New[T](s.a(0), s.a(1))
	case "flatten":
		return flatten.New()
	case "dropout":
		return dropout.New(float64(s.Eps))
	case "conv1x1":
		return conv1x1.New[T](conv1x1.Config{InputChannels: s.a(0), OutputChannels: s.a(1)})
	case "conv1d":
		return convolution1d.New[T](convolution1d.Config{KernelSizeX: s.a(0), KernelSizeY: s.a(1), YStride: s.a(2), InputChannels: s.a(3), OutputChannels: s.a(4),
			Mask: s.Mask, DepthWise: s.Flag, Activation: act(s.Act)})
	case "conv2d":
		return convolution2d.New[T](convolution2d.Config{KernelSizeX: s.a(0), KernelSizeY: s.a(1), XStride: s.a(2), YStride: s.a(3), InputChannels: s.a(4), OutputChannels: s.a(5),
			Mask: s.Mask, DepthWise: s.Flag, Activation: act(s.Act)})
	case "maxpool":
		return pooling.NewMax(s.a(0), s.a(1))
	case "srn":
		return srn.New[T](s.a(0), s.a(1))
	case "gru":
		return gru.New[T](s.a(0), s.a(1))
	case "lstm":
		return lstm.New[T](s.a(0), s.a(1)).WithRefinedGates(s.Flag)
	case "birnn":
		pos, neg := buildModel[T](s.Inner[0]).(nn.StandardModel), buildModel[T](s.Inner[1]).(nn.StandardModel)
		return birnn.New(pos, neg, birnn.MergeType(s.Merge))
	case "bilstm":
		return birnn.NewBiLSTM[T](s.a(0), s.a(1), birnn.MergeType(s.Merge))
	case "bigru":
		return birnn.NewBiGRU[T](s.a(0), s.a(1), birnn.MergeType(s.Merge))
	case "bibilstm":
		ms := birnn.NewBiBiLSTM[T](s.a(0), s.a(1), birnn.MergeType(s.Merge))
		o := &Stack{}
		for _, m := range ms {
			o.Layers = append(o.Layers, m)
		}
		return o
	case "selfattention":
		return selfattention.New[T](selfattention.Config{InputSize: s.a(0), QuerySize: s.a(1), KeySize: s.a(1), ValueSize: s.a(2),
			ScaleFactor: float64(s.Eps), UseCausalMask: s.Flag, IsCrossAttention: s.Flag2})
	case "multihead":
		return multiheadattention.New[T](s.a(0), s.a(1), s.Flag, s.Flag2)
	case "adanorm":
		return adanorm.New[T](float64(s.Eps))
	case "batchnorm":
		return batchnorm.NewWithMomentum[T](s.a(0), T(s.Eps))
	case "fixnorm":
		return fixnorm.New()
	case "layernorm":
		return layernorm.New[T](s.a(0), float64(s.Eps))
	case "layernormsimple":
		return layernormsimple.New()
	case "rmsnorm":
		return rmsnorm.New[T](s.a(0))
	case "scalenorm":
		return scalenorm.New[T](s.a(0))
	case "embedding":
		return embedding.New[T](s.a(0), s.a(1))
	case "crf":
		return crf.New[T](s.a(0))
	case "slstm":
		return slstm.New[T](slstm.Config{InputSize: s.a(0), OutputSize: s.a(1), Steps: s.a(2)})
	case "stack":
		o := &Stack{}
		for _, in := range s.Inner {
			o.Layers = append(o.Layers, buildModel[T](in).(nn.StandardModel))
		}
		o.repeat(s)
		return o
	case "user":
		o := &User{Map: map[string]nn.StandardModel{}, IntMap: map[int]*linear.Model{}}
		for i, in := range s.Inner {
			m := buildModel[T](in).(nn.StandardModel)
			switch i % 4 {
			case 0:
				o.One = m
			case 1:
				o.List = append(o.List, m)
			case 2:
				o.Map[fmt.Sprint("k", i)] = m
			case 3:
				o.Arr[i%2] = m
			}
		}
		o.Lin = linear.New[T](s.a(0), s.a(1))
		o.P = nn.NewParam(mat.NewDense[T](mat.WithShape(s.a(1), s.a(0))))
		o.Ps = []*nn.Param{nn.NewParam(mat.NewDense[T](mat.WithShape(s.a(0), 1))), nn.NewParam(mat.NewDense[T](mat.WithShape(1, s.a(1))))}
		o.Buf = nn.Buf(mat.NewDense[T](mat.WithShape(s.a(0), s.a(1))))
		o.IntMap[3] = linear.New[T](s.a(1), 1)
		return o
	}
	panic("harness: unknown model kind " + s.Kind)
}

// Stack is a user-defined sequential model.
type Stack struct {
	nn.Module
	Layers nn.ModuleList[nn.StandardModel]
}

// repeat makes one layer occur twice in a row, if the configuration says so.
func (s *Stack) repeat(spec modelSpec) {
	if len(spec.A) > 1 && spec.A[1] > 0 && spec.A[1] <= len(s.Layers) {
		s.Layers = slices.Insert(s.Layers, spec.A[1], s.Layers[spec.A[1]-1])
	}
}

// Forward runs the layers in order.
func (s *Stack) Forward(xs ...mat.Tensor) []mat.Tensor { return s.Layers.Forward(xs...) }

// User is a user-defined model holding sub-models in every kind of container.
type User struct {
	nn.Module
	One    nn.StandardModel
	Lin    *linear.Model
	List   []nn.StandardModel
	Map    map[string]nn.StandardModel
	IntMap map[int]*linear.Model
	Arr    [2]nn.StandardModel
	P      *nn.Param
	Ps     []*nn.Param
	Buf    *nn.Buffer
	Note   string
}

// refEnv maps parameters to the leaves of a tape.
type refEnv struct {
	t     *ref.Tape
	par   map[*nn.Param]ref.M
	order []*nn.Param
}

func newRefEnv() *refEnv { return &refEnv{t: ref.NewTape(), par: map[*nn.Param]ref.M{}} }

// P is the leaf matrix of a parameter.
func (e *refEnv) P(p *nn.Param) ref.M {
	if m, ok := e.par[p]; ok {
		return m
	}
	s := p.Shape()
	m := e.t.Leaf(s[0], s[1], vals(p))
	e.par[p] = m
	e.order = append(e.order, p)
	return m
}

func (e *refEnv) buf(b *nn.Buffer) ref.M {
	s := b.Shape()
	return e.t.Leaf(s[0], s[1], vals(b.Value()))
}

// affine is W1 x1 + W2 x2 + ... + b; pairs with a nil input are left out.
func (e *refEnv) affine(b *nn.Param, wx ...any) ref.M {
	o := e.P(b)
	for i := 0; i < len(wx); i += 2 {
		x, ok := wx[i+1].(ref.M)
		if !ok || x.D == nil {
			continue
		}
		o = o.Add(e.P(wx[i].(*nn.Param)).Mul(e.t, x))
	}
	return o
}

// unaryRef applies an element-wise function with parameters.
func unaryRef(name string, x ref.M, ps []ref.V) ref.M {
	u := unaryFns[name]
	pv := make([]float64, len(ps))
	for i, p := range ps {
		pv[i] = p.X()
	}
	return x.Map(func(v ref.V) ref.V {
		v.Branch(u.kink(v.X(), pv))
		y, d := u.f(v.X(), pv)
		o := v.FnD(y, d, 30+u.scale(v.X(), pv)/math.Max(math.Abs(y), 1e-300), u.derr(v, d, pv))
		if k := u.kink(v.X(), pv); math.Abs(k) < 1e-3 {
			o = o.Slack(2 * v.E()) // the slope on the other side
		}
		if u.dp != nil {
			for i, dp := range u.dp(v.X(), pv) {
				o = o.Add(ps[i].Fn(0, dp, 0))
			}
		}
		return o
	})
}

// derr bounds the error of the derivative d at v.
func (u unaryFn) derr(v ref.V, d float64, pv []float64) float64 {
	const h = 1e-4
	_, l := u.f(v.X()-h, pv)
	_, r := u.f(v.X()+h, pv)
	e := 30 * math.Abs(d)
	if u.dscale != nil {
		e += u.dscale(v.X(), pv)
	}
	if c := math.Max(math.Abs(l-d), math.Abs(r-d)) / h; c < 1e3 {
		e += c * v.E()
	}
	return e
}

func (e *refEnv) act(a activation.Activation, ps []*nn.Param, x ref.M) ref.M {
	name := actOfConst[a]
	var pv []ref.V
	for _, p := range ps {
		pv = append(pv, e.P(p).D[0])
	}
	switch name {
	case "Identity":
		return x
	case "Softmax":
		return ref.M{R: x.R, C: x.C, D: ref.Softmax(e.t, x.D)}
	case "LogSoftmax":
		l := ref.LogSumExp(e.t, x.D)
		return x.SubV(l).Map(func(v ref.V) ref.V { // the implementation takes the logarithm of softmax
			return v.Fn(v.X(), 1, 40*(1+math.Abs(v.X()))/math.Max(math.Abs(v.X()), 1e-300))
		})
	case "SparseMax":
		return ref.M{R: x.R, C: x.C, D: refSparsemax(e.t, x.D)}
	}
	return unaryRef(name, x, pv)
}

func mapMs(xs []ref.M, f func(x ref.M) ref.M) []ref.M {
	o := make([]ref.M, len(xs))
	for i, x := range xs {
		o[i] = f(x)
	}
	return o
}

// model computes the definition of a model.
func (e *refEnv) model(m any, xs []ref.M) []ref.M {
	t := e.t
	switch m := m.(type) {
	case *linear.Model:
		return mapMs(xs, func(x ref.M) ref.M { return e.affine(m.B, m.W, x) })
	case *activation.Model:
		return mapMs(xs, func(x ref.M) ref.M { return e.act(m.Activation, m.Params, x) })
	case *highway.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			g := e.affine(m.BT, m.WT, x).Sigmoid()
			h := e.act(m.Activation, nil, e.affine(m.BIn, m.WIn, x))
			return g.Prod(h).Add(g.Map(func(v ref.V) ref.V { return v.Neg().AddC(1) }).Prod(x))
		})
	case *Stack:
		for _, l := range m.Layers {
			xs = e.model(l, xs)
		}
		return xs
	case *gmlp.Block:
		for _, l := range m.Layers {
			xs = e.model(l, xs)
		}
		return xs
	case *gmlp.PreNorm:
		return e.model(m.Block, e.model(m.Norm, xs))
	case *gmlp.Residual:
		ys := e.model(m.PreNorm, xs)
		o := make([]ref.M, len(ys))
		for i := range ys {
			o[i] = ys[i].Add(xs[i])
		}
		return o
	case *gmlp.Model:
		ys := append([]ref.M(nil), xs...)
		for len(ys) < m.Config.SeqLen {
			ys = append(ys, t.Const(m.Config.Dim, 1, 0))
		}
		for _, l := range m.Layers {
			ys = e.model(l, ys)
		}
		return ys
	case *sgu.Model:
		h := len(xs[0].D) / 2
		var res, gate []ref.M
		for _, x := range xs {
			res = append(res, colM(x.D[:h]))
			gate = append(gate, colM(x.D[h:]))
		}
		gate = e.model(m.Proj, e.model(m.Norm, gate))
		if m.Act != nil {
			gate = e.model(m.Act, gate)
		}
		o := make([]ref.M, len(gate))
		for i := range gate {
			o[i] = gate[i].Prod(res[i])
		}
		return o
	case *mlpmixer.FeedForward:
		for _, l := range m.Layers {
			xs = e.model(l, xs)
		}
		return xs
	case *mlpmixer.MixerBlock:
		n := e.model(m.TokenLayerNorm, xs)
		cols := make([]ref.M, len(xs[0].D))
		for j := range cols {
			vs := make([]ref.V, len(n))
			for i := range n {
				vs[i] = n[i].D[j]
			}
			cols[j] = colM(vs)
		}
		cols = e.model(m.TokenMixerFF, cols)
		mid := make([]ref.M, len(xs))
		for i := range mid {
			vs := make([]ref.V, len(cols))
			for j := range cols {
				vs[j] = cols[j].D[i]
			}
			mid[i] = colM(vs).Add(xs[i])
		}
		out := e.model(m.ChannelMixerFF, e.model(m.ChannelLayerNorm, mid))
		o := make([]ref.M, len(out))
		for i := range out {
			o[i] = out[i].Add(mid[i])
		}
		return o
	case *sqrdist.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			b := e.P(m.B).Mul(t, x)
			return ref.M{R: 1, C: 1, D: []ref.V{ref.Dot(t, b.D, b.D)}}
		})
	case *flatten.Model:
		var vs []ref.V
		for _, x := range xs {
			vs = append(vs, x.D...)
		}
		return []ref.M{colM(vs)}
	case *dropout.Model:
		return xs
	case *conv1x1.Model:
		w, b := e.P(m.W), e.P(m.B)
		o := make([]ref.M, w.R)
		for k := range o {
			vs := make([]ref.V, len(xs[0].D))
			for j := range vs {
				var ps []ref.V
				for i := range xs {
					ps = append(ps, w.At(k, i).Mul(xs[i].D[j]))
				}
				vs[j] = ref.SumV(t, ps).Add(b.D[k])
			}
			o[k] = colM(vs)
		}
		return o
	case *convolution1d.Model:
		c := m.Config
		return e.conv(m.K, m.B, c.InputChannels, c.OutputChannels, 1, c.YStride, c.Mask, c.DepthWise, c.Activation, xs, true)
	case *convolution2d.Model:
		c := m.Config
		return e.conv(m.K, m.B, c.InputChannels, c.OutputChannels, c.XStride, c.YStride, c.Mask, c.DepthWise, c.Activation, xs, false)
	case *pooling.MaxPooling:
		return mapMs(xs, func(x ref.M) ref.M {
			return selRef(x.R/m.Rows, x.C/m.Columns, func(i, j int) ref.V {
				var w []ref.V
				for a := 0; a < m.Rows; a++ {
					for b := 0; b < m.Columns; b++ {
						w = append(w, x.At(i*m.Rows+a, j*m.Columns+b))
					}
				}
				return foldMax(w)
			})
		})
	case *srn.Model, *gru.Model, *lstm.Model:
		var s rnnState
		o := make([]ref.M, len(xs))
		for i, x := range xs {
			s = e.rnnStep(m, s, x)
			o[i] = s.Y
		}
		return o
	case *birnn.Model:
		pos := e.model(m.Positive, xs)
		rev := make([]ref.M, len(xs))
		for i := range xs {
			rev[len(xs)-1-i] = xs[i]
		}
		neg := e.model(m.Negative, rev)
		o := make([]ref.M, len(xs))
		for i := range o {
			a, b := pos[i], neg[len(xs)-1-i]
			switch m.MergeMode {
			case birnn.Concat:
				o[i] = ref.Concat(a, b)
			case birnn.Sum:
				o[i] = a.Add(b)
			case birnn.Prod:
				o[i] = a.Prod(b)
			case birnn.Avg:
				o[i] = a.Add(b).Scale(0.5)
			}
		}
		return o
	case *adanorm.Model:
		k := e.buf(m.Scale).D[0]
		return mapMs(xs, func(x ref.M) ref.M {
			mean := ref.MeanV(t, x.D)
			dev := x.SubV(mean)
			sd := ref.MeanV(t, dev.Map(V2).D).Sqrt()
			sd.Branch(sd.X())
			y := dev.DivV(sd.AddC(1e-10))
			return y.Map(func(v ref.V) ref.V { return v.Mul(v.Detach().MulC(0.1).Neg().AddC(1).Mul(k.Detach())) })
		})
	case *layernorm.Model:
		eps := e.buf(m.Eps).D[0]
		return mapMs(xs, func(x ref.M) ref.M {
			dev := x.SubV(ref.MeanV(t, x.D))
			sd := ref.MeanV(t, dev.Map(V2).D).Add(eps).Sqrt()
			return dev.DivV(sd).Prod(e.P(m.W)).Add(e.P(m.B))
		})
	case *layernormsimple.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			dev := x.SubV(ref.MeanV(t, x.D))
			sd := ref.MeanV(t, dev.Map(V2).D).Sqrt()
			sd.Branch(sd.X())
			return dev.DivV(sd.AddC(1e-10))
		})
	case *rmsnorm.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			rms := ref.MeanV(t, x.Map(V2).D).Sqrt()
			rms.Branch(rms.X())
			return x.DivV(rms.AddC(1e-10)).Prod(e.P(m.W)).Add(e.P(m.B))
		})
	case *scalenorm.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			n := ref.SumV(t, x.Map(V2).D).Sqrt()
			n.Branch(n.X())
			return x.DivV(n.AddC(1e-10)).Prod(e.P(m.Gain))
		})
	case *fixnorm.Model:
		return mapMs(xs, func(x ref.M) ref.M {
			n := ref.SumV(t, x.Map(V2).D).Sqrt()
			n.Branch(n.X())
			return x.DivV(n.AddC(1e-10))
		})
	case *batchnorm.Model:
		mean, sd := e.buf(m.Mean), e.buf(m.StdDev)
		return e.batchNorm(m, xs, mean, sd)
	case *slstm.Model:
		return e.slstm(m, xs)
	case *selfattention.Model:
		att, _ := e.selfAttention(m, xs, xs, 0)
		return att
	case *multiheadattention.Model:
		var heads [][]ref.M
		for _, h := range m.Heads {
			a, _ := e.selfAttention(h, xs, xs, 0)
			heads = append(heads, a)
		}
		o := make([]ref.M, len(xs))
		for i := range o {
			var parts []ref.M
			for _, h := range heads {
				parts = append(parts, h[i])
			}
			o[i] = e.model(m.OutputMerge, []ref.M{ref.Concat(parts...)})[0]
		}
		return o
	}
	panic(fmt.Sprintf("harness: no reference for %T", m))
}

// V2 squares a scalar.
func V2(v ref.V) ref.V { return v.Square() }

func (e *refEnv) batchNorm(m *batchnorm.Model, xs []ref.M, mean, sd ref.M) []ref.M {
	k := e.P(m.W).Div(sd.Map(func(v ref.V) ref.V { return v.AddC(1e-5) }))
	return mapMs(xs, func(x ref.M) ref.M { return x.Sub(mean).Prod(k).Add(e.P(m.B)) })
}

// batchStats are the batch mean and deviation of the training mode.
func (e *refEnv) batchStats(xs []ref.M) (mean, sd ref.M) {
	n := float64(len(xs)) + 1e-5
	sum := xs[0]
	for _, x := range xs[1:] {
		sum = sum.Add(x)
	}
	mean = sum.Scale(1 / n)
	var sq ref.M
	for i, x := range xs {
		d := mean.Sub(x).Map(V2)
		if i == 0 {
			sq = d
		} else {
			sq = sq.Add(d)
		}
	}
	return mean, sq.Scale(1 / n).Map(ref.V.Sqrt)
}

func (e *refEnv) conv(ks, bs []*nn.Param, in, out, xs, ys int, mask []int, depth bool, a activation.Activation, x []ref.M, oneD bool) []ref.M {
	one := func(k ref.M, b ref.V, m ref.M) ref.M {
		h, w := (m.R-k.R)/xs+1, (m.C-k.C)/ys+1
		o := selRef(h, w, func(i, j int) ref.V {
			var ps []ref.V
			for u := 0; u < k.R; u++ {
				for v := 0; v < k.C; v++ {
					ps = append(ps, k.At(u, v).Mul(m.At(i*xs+u, j*ys+v)))
				}
			}
			return ref.SumV(e.t, ps).Add(b)
		})
		if oneD {
			return o.Col()
		}
		return o
	}
	res := make([]ref.M, out)
	for c := range res {
		var o ref.M
		if depth {
			o = one(e.P(ks[c]), e.P(bs[c]).D[0], x[c])
		} else {
			for i := 0; i < in; i++ {
				if mask != nil && mask[i] != 1 {
					continue
				}
				y := one(e.P(ks[c*in+i]), e.P(bs[c*in+i]).D[0], x[i])
				if o.D == nil {
					o = y
				} else {
					o = o.Add(y)
				}
			}
		}
		res[c] = e.act(a, nil, o)
	}
	return res
}

type rnnState struct{ Y, Cell ref.M }

func (e *refEnv) rnnStep(m any, s rnnState, x ref.M) rnnState {
	var prev any
	if s.Y.D != nil {
		prev = s.Y
	}
	switch m := m.(type) {
	case *srn.Model:
		return rnnState{Y: e.affine(m.B, m.W, x, m.WRec, prev).Tanh()}
	case *gru.Model:
		r := e.affine(m.BRes, m.WRes, x, m.WResRec, prev).Sigmoid()
		p := e.affine(m.BPart, m.WPart, x, m.WPartRec, prev).Sigmoid()
		var rp any
		if prev != nil {
			rp = s.Y.Prod(r)
		}
		c := e.affine(m.BCand, m.WCand, x, m.WCandRec, rp).Tanh()
		y := p.Prod(c)
		if prev != nil {
			y = y.Add(p.Map(func(v ref.V) ref.V { return v.Neg().AddC(1) }).Prod(s.Y))
		}
		return rnnState{Y: y}
	case *lstm.Model:
		i := e.affine(m.BIn, m.WIn, x, m.WInRec, prev).Sigmoid()
		o := e.affine(m.BOut, m.WOut, x, m.WOutRec, prev).Sigmoid()
		f := e.affine(m.BFor, m.WFor, x, m.WForRec, prev).Sigmoid()
		c := e.affine(m.BCand, m.WCand, x, m.WCandRec, prev).Tanh()
		if m.UseRefinedGates {
			i, o = i.Prod(x), o.Prod(x)
		}
		cell := i.Prod(c)
		if s.Cell.D != nil {
			cell = cell.Add(f.Prod(s.Cell))
		}
		return rnnState{Y: o.Prod(cell.Tanh()), Cell: cell}
	}
	panic("harness: not a recurrent model")
}

// slstm is the sentence-state LSTM of Zhang et al. (2018).
func (e *refEnv) slstm(m *slstm.Model, xs []ref.M) []ref.M {
	n := len(xs)
	h, c := make([]ref.M, n), make([]ref.M, n)
	g := e.P(m.InitValue)
	for i := range h {
		h[i], c[i] = g, g
	}
	gate := func(l *slstm.HyperLinear4, ctx ref.M, x, g ref.M) ref.M {
		return e.P(l.W).Mul(e.t, ctx).Add(e.P(l.U).Mul(e.t, x)).Add(e.P(l.V).Mul(e.t, g)).Add(e.P(l.B))
	}
	for step := 1; step < m.Config.Steps; step++ {
		nh, nc := make([]ref.M, n), make([]ref.M, n)
		for i := 0; i < n; i++ {
			hl, cl := e.P(m.StartH), e.P(m.StartH)
			if i > 0 {
				hl, cl = h[i-1], c[i-1]
			}
			hr, cr := e.P(m.EndH), e.P(m.EndH)
			if i < n-1 {
				hr, cr = h[i+1], c[i+1]
			}
			ctx := ref.Concat(hl, h[i], hr)
			ig := gate(m.InputGate, ctx, xs[i], g).Sigmoid()
			lg := gate(m.LeftCellGate, ctx, xs[i], g).Sigmoid()
			rg := gate(m.RightCellGate, ctx, xs[i], g).Sigmoid()
			fg := gate(m.CellGate, ctx, xs[i], g).Sigmoid()
			sg := gate(m.SentCellGate, ctx, xs[i], g).Sigmoid()
			og := gate(m.OutputGate, ctx, xs[i], g).Sigmoid()
			u := gate(m.InputActivation, ctx, xs[i], g).Tanh()
			nc[i] = lg.Prod(cl).Add(fg.Prod(c[i])).Add(rg.Prod(cr)).Add(sg.Prod(g)).Add(ig.Prod(u))
			nh[i] = og.Prod(nc[i].Tanh())
		}
		avg := h[0]
		for _, x := range h[1:] {
			avg = avg.Add(x)
		}
		avg = avg.Scale(1 / float64(n))
		fG := e.affine(m.NonLocalSentCellGate.B, m.NonLocalSentCellGate.W, g, m.NonLocalSentCellGate.U, avg).Sigmoid()
		oG := e.affine(m.NonLocalSentOutputGate.B, m.NonLocalSentOutputGate.W, g, m.NonLocalSentOutputGate.U, avg).Sigmoid()
		cg := fG.Prod(g)
		for i := 0; i < n; i++ {
			hg := e.affine(m.NonLocalInputGate.B, m.NonLocalInputGate.W, g, m.NonLocalInputGate.U, h[i]).Sigmoid()
			cg = cg.Add(hg.Prod(c[i]))
		}
		g = oG.Prod(cg.Tanh())
		h, c = nh, nc
	}
	return h
}

// selfAttention is scaled dot-product attention; position i of q may attend to
// keys 0 .. off+i when the mask is on.
func (e *refEnv) selfAttention(m *selfattention.Model, q, kv []ref.M, off int) (att, weights []ref.M) {
	pq, pk, pv := e.model(m.Query, q), e.model(m.Key, kv), e.model(m.Value, kv)
	return e.attention(pq, pk, pv, vals(m.ScaleFactor.Value())[0], m.UseCausalMask, off)
}

func (e *refEnv) attention(q, k, v []ref.M, scale float64, mask bool, off int) (att, weights []ref.M) {
	t := e.t
	for i := range q {
		n := len(k)
		if mask {
			n = min(n, off+i+1)
		}
		sc := make([]ref.V, n)
		for j := range sc {
			sc[j] = ref.Dot(t, q[i].D, k[j].D).MulC(scale)
		}
		w := ref.Softmax(t, sc)
		o := make([]ref.V, len(v[0].D))
		for d := range o {
			ps := make([]ref.V, n)
			for j := range ps {
				ps[j] = w[j].Mul(v[j].D[d])
			}
			o[d] = ref.SumV(t, ps)
		}
		for j := n; j < len(k); j++ {
			w = append(w, t.C(0))
		}
		att = append(att, colM(o))
		weights = append(weights, colM(w))
	}
	return
}

// runModel calls the model's forward function.
func runModel(m nn.Model, xs []mat.Tensor) []mat.Tensor {
	switch m := m.(type) {
	case *selfattention.Model:
		y, _, _ := m.Forward(selfattention.Cache{}, xs, xs)
		return y
	case *multiheadattention.Model:
		y, _, _ := m.Forward(nil, xs, xs)
		return y
	case nn.StandardModel:
		return m.Forward(xs...)
	}
	panic(fmt.Sprintf("harness: cannot run %T", m))
}

// inShapes gives the shapes of n inputs (or of as many as the model wants).
func (s modelSpec) inShapes(n int) [][2]int {
	rep := func(k, r, c int) [][2]int {
		o := make([][2]int, k)
		for i := range o {
			o[i] = [2]int{r, c}
		}
		return o
	}
	switch s.Kind {
	case "activation", "flatten", "dropout":
		o := rep(n, 0, 0)
		for i := range o {
			o[i] = [2]int{s.a(2 * (i % (len(s.A) / 2))), s.a(2*(i%(len(s.A)/2)) + 1)}
		}
		return o
	case "adanorm", "layernormsimple", "fixnorm":
		return rep(n, s.a(0), 1)
	case "gmlpblock":
		return rep(s.a(2), s.a(0), 1)
	case "gmlp":
		return rep(1+mod(n-1, s.a(2)), s.a(0), 1)
	case "sgu":
		return rep(s.a(1), s.a(0), 1)
	case "mlpmixer":
		return rep(s.a(3), s.a(0), 1)
	case "conv1x1":
		return rep(s.a(0), s.a(2), 1)
	case "conv1d":
		return rep(s.a(3), s.a(0), s.a(1)+s.a(2)*s.a(5))
	case "conv2d":
		return rep(s.a(4), s.a(0)+s.a(2)*s.a(6), s.a(1)+s.a(3)*s.a(7))
	case "maxpool":
		return rep(n, s.a(0)*s.a(2), s.a(1)*s.a(3))
	case "stack", "birnn":
		return s.Inner[0].inShapes(n)
	}
	return rep(n, s.a(0), 1)
}

// genSpec draws a configuration of the kind. in is the wanted input size of
// kinds that map vectors to vectors, or 0.
func genSpec(t *rapid.T, kind string, in int) modelSpec {
	s := modelSpec{Kind: kind}
	dim := func() int {
		if gen.Chance(t, 12) {
			if gen.Chance(t, 12) {
				return gen.Dim(t, 1, 70)
			}
			return gen.Dim(t, 1, 18)
		}
		return gen.UInt(t, 1, 5)
	}
	first := func() int {
		if in > 0 {
			return in
		}
		return dim()
	}
	// small, and now and then much larger
	few := func(hi, more int) int {
		if gen.Chance(t, 4) {
			return gen.UInt(t, hi, more)
		}
		return gen.UInt(t, 1, hi)
	}
	elemAct := func() int { return gen.U(t, nElemActs) }
	switch kind {
	case "linear":
		s.A = []int{first(), dim()}
		s.Flag = gen.Chance(t, 15)
	case "activation":
		s.Act = gen.U(t, len(actNames))
		name := actNames[s.Act]
		if u := unaryFns[name]; u != nil && u.params != nil {
			for _, p := range u.params(t) {
				s.P = append(s.P, F(p))
			}
		}
		switch {
		case in > 0:
			s.A = []int{in, 1}
		case name == "Softmax" || name == "LogSoftmax" || name == "SparseMax":
			s.A = []int{dim(), 1}
		default:
			s.A = []int{dim(), gen.Pick(t, 1, 1, dim())}
		}
	case "highway":
		s.A, s.Act = []int{first()}, gen.U(t, nPlainActs)
	case "gmlpblock":
		s.A, s.Act = []int{first(), 2 * few(4, 20), few(4, 20)}, elemAct()
	case "gmlp":
		d, f := first(), few(3, 6)
		if d*f%2 == 1 {
			f++
		}
		s.A, s.Act = []int{d, few(2, 6), few(4, 10), f}, elemAct()
	case "sgu":
		s.A, s.Act = []int{2 * few(5, 20), few(5, 20)}, elemAct()
	case "mlpmixer":
		s.A = []int{first(), dim(), dim(), few(4, 20)}
		s.Act, s.Act2, s.Eps = elemAct(), elemAct(), F(gen.Pick(t, 1e-12, 1e-5, 0.1))
	case "sqrdist":
		s.A = []int{first(), dim()}
	case "flatten":
		for i := few(3, 20); i > 0; i-- {
			s.A = append(s.A, dim(), gen.Pick(t, 1, dim()))
		}
	case "dropout":
		s.A = []int{first(), 1}
	case "conv1x1":
		s.A = []int{few(5, 40), few(5, 40), first()}
	case "conv1d", "conv2d":
		kx, ky := gen.UInt(t, 1, 4), gen.UInt(t, 1, 4)
		inc, outc := gen.UInt(t, 1, 3), gen.UInt(t, 1, 3)
		far := 3
		switch {
		case gen.Chance(t, 3): // many channels
			inc, outc = gen.UInt(t, 1, 12), gen.UInt(t, 1, 12)
		case gen.Chance(t, 3): // wide kernels
			kx, ky, inc, outc = gen.UInt(t, 1, 11), gen.UInt(t, 1, 11), 1, gen.UInt(t, 1, 2)
		case gen.Chance(t, 3): // long inputs
			far, inc = gen.Pick(t, 24, 24, 70), 1
		}
		if s.Flag = gen.Chance(t, 30); s.Flag {
			outc = inc
		}
		if kind == "conv1d" {
			s.A = []int{kx, ky, few(3, 9), inc, outc, gen.UInt(t, 0, far)}
		} else {
			s.A = []int{kx, ky, few(3, 9), few(3, 9), inc, outc, gen.UInt(t, 0, far), gen.UInt(t, 0, far)}
		}
		if !s.Flag && gen.Chance(t, 35) {
			s.Mask = make([]int, inc)
			for i := range s.Mask {
				s.Mask[i] = gen.Pick(t, 1, 0)
			}
			s.Mask[gen.U(t, inc)] = 1
		}
		s.Act = elemAct()
	case "maxpool":
		s.A = []int{gen.UInt(t, 1, 4), gen.UInt(t, 1, 4), gen.UInt(t, 1, 3), gen.UInt(t, 1, 3)}
		if gen.Chance(t, 4) {
			s.A[gen.U(t, 4)] = gen.UInt(t, 4, 24)
		}
	case "srn", "gru", "bilstm", "bigru", "bibilstm":
		s.A, s.Merge = []int{first(), dim()}, gen.U(t, 4)
	case "lstm":
		s.A = []int{first(), dim()}
		if s.Flag = gen.Chance(t, 30); s.Flag {
			s.A[1] = s.A[0]
		}
	case "birnn":
		k := gen.Pick(t, "srn", "gru", "lstm")
		a := genSpec(t, k, in)
		b := genSpec(t, gen.Pick(t, "srn", "gru", "lstm"), a.A[0])
		s.Merge = gen.U(t, 4)
		b.A[0] = a.A[0]
		b.A[1] = a.A[1]
		if b.Kind == "lstm" {
			b.Flag = b.Flag && b.A[0] == b.A[1]
		}
		if s.Merge == 0 && b.Kind != "lstm" && gen.Bool(t) {
			b.A[1] = dim()
		}
		s.A, s.Inner = a.A, []modelSpec{a, b}
	case "selfattention":
		s.A = []int{first(), dim(), dim()}
		s.Eps, s.Flag, s.Flag2 = F(gen.Pick(t, 1, gen.Spread(t, 0.1, 1.5))), gen.Bool(t), gen.Chance(t, 25)
	case "multihead":
		h := gen.UInt(t, 1, 3)
		d := h * gen.UInt(t, 1, 3)
		if gen.Chance(t, 4) { // many heads, or wide ones
			h = gen.Pick(t, 4, 8, 12)
			d = h * gen.UInt(t, 1, 2)
			if gen.Bool(t) {
				h = 1
			}
		}
		if in > 0 {
			d = in
			for d%h != 0 {
				h--
			}
		}
		s.A, s.Flag, s.Flag2 = []int{d, h}, gen.Bool(t), gen.Chance(t, 25)
	case "adanorm":
		s.A, s.Eps = []int{first()}, F(gen.Pick(t, 1, gen.Spread(t, 0.2, 3), gen.Spread(t, -3, 0)))
	case "layernorm":
		s.A, s.Eps = []int{first()}, F(gen.Pick(t, 1e-12, 1e-5, 0.1, 1))
	case "layernormsimple", "fixnorm", "rmsnorm", "scalenorm":
		s.A = []int{first()}
	case "batchnorm":
		s.A, s.Eps = []int{first()}, F(gen.Pick(t, 0.9, 0.5, 0, gen.Unit(t)))
	case "embedding":
		s.A = []int{few(6, 200), dim()}
	case "crf":
		s.A = []int{gen.UInt(t, 1, 4)}
	case "slstm":
		s.A = []int{first(), dim(), few(3, 8)}
	default:
		panic("harness: no generator for " + kind)
	}
	return s
}

// modelCase is a model with pseudo-random parameters and inputs.
type modelCase struct {
	DT    int
	Spec  modelSpec
	N     int
	Seed  uint64
	Scale F
	XS    F
	Req   []int // requires-grad pattern over parameters (0 = off)
	In    []int // inputs: 0 constant, 1 leaf, 2 result of an operator
	Gy    []F
	// Dup, if present: 1 repeats the previous input tensor, 2 is another
	// tensor of the same values.
	Dup []int `json:",omitempty"`
	// Anti: inputs are small integers and antisymmetric, so that sums and means
	// are exactly zero.
	Anti bool `json:",omitempty"`
}

func genModelCase(t *rapid.T, spec modelSpec) modelCase {
	cs := modelCase{DT: gen.Pick(t, 64, 64, 32), Spec: spec, N: gen.Ext(t, 1, 5, 18), Seed: uint64(gen.U(t, 1<<30)),
		Scale: F(gen.Pick(t, 0.7, 0.3, 1.2)), XS: F(gen.Pick(t, 1.0, 1, 0.2, 2))}
	if gen.Large(t) {
		cs.N = gen.UInt(t, 18, 70)
	}
	if gen.Chance(t, 5) {
		cs.XS = F(gen.LogPos(t, -7, 6))
	}
	if gen.Chance(t, 6) {
		for i := 0; i < 4; i++ {
			cs.Dup = append(cs.Dup, gen.Pick(t, 0, 1, 2))
		}
	}
	cs.Anti = gen.Chance(t, 8)
	for i := 0; i < 5; i++ {
		cs.Req = append(cs.Req, gen.Pick(t, 1, 1, 1, 1, 0))
		cs.In = append(cs.In, gen.Pick(t, 1, 2, 1, 0))
	}
	for i := 0; i < 11; i++ {
		cs.Gy = append(cs.Gy, F(gen.Val(t)))
	}
	return cs
}

// antisymmetric makes the elements small integers that cancel in pairs.
func antisymmetric(x gen.Mat) {
	n := len(x.D)
	for i := range (n + 1) / 2 {
		v := F(math.Round(2.7 * math.Tanh(float64(x.D[i]))))
		if 2*i+1 == n {
			v = 0
		}
		x.D[i], x.D[n-1-i] = v, 0-v
	}
}

// modelRun is a forward pass of a case with its reference.
type modelRun struct {
	cs   modelCase
	m    nn.Model
	e    *refEnv
	ins  []mat.Matrix // leaves
	kind []int        // how they were made (see modelCase.In)
	xs   []mat.Tensor // what the model receives
	rxs  []ref.M
	ps   []*nn.Param
	nms  []string
	what string
	// built is what is wrong with the freshly constructed model.
	built error
}

func newModelRun(cs modelCase) *modelRun {
	r := &modelRun{cs: cs, m: cs.Spec.build(cs.DT), e: newRefEnv(), what: cs.Spec.Kind}
	if len(cs.Spec.A) < 2 || cs.Spec.Kind != "stack" { // a repeated layer shares its parameters
		r.built = checkBuilt(cs.DT, cs.Spec, r.m)
	}
	if cs.Spec.Kind != "activation" {
		fillParams(cs.DT, r.m, cs.Seed, float64(cs.Scale))
	}
	r.ps, r.nms = allParams(r.m)
	for i, p := range r.ps {
		if cs.Req[i%len(cs.Req)] == 0 {
			p.SetRequiresGrad(false)
		}
	}
	var objs []int
	for i, s := range cs.Spec.inShapes(cs.N) {
		obj, dup := i, 0
		if len(cs.Dup) > 0 && i > 0 && r.ins[i-1].Shape()[0] == s[0] && r.ins[i-1].Shape()[1] == s[1] {
			dup = cs.Dup[i%len(cs.Dup)]
		}
		if dup == 1 {
			r.ins, r.kind = append(r.ins, r.ins[i-1]), append(r.kind, r.kind[i-1])
			r.xs, r.rxs = append(r.xs, r.xs[i-1]), append(r.rxs, r.rxs[i-1])
			objs = append(objs, objs[i-1])
			continue
		}
		if dup == 2 {
			obj = objs[i-1]
		}
		objs = append(objs, obj)
		x := hmat(cs.DT, s[0], s[1], cs.Seed, obj, float64(cs.XS)*1.7)
		if cs.Anti {
			antisymmetric(x)
		}
		in := cs.In[i%len(cs.In)]
		l := mk(cs.DT, x, in > 0)
		r.ins, r.kind = append(r.ins, l), append(r.kind, in)
		var xt mat.Tensor = l
		if in == 2 {
			xt = ag.Copy(l)
		}
		r.xs = append(r.xs, xt)
		r.rxs = append(r.rxs, r.e.t.Leaf(s[0], s[1], x.Floats()))
	}
	return r
}

// checkOut compares outputs and then, after Backward, all gradients.
func (r *modelRun) checkOut(ctx *eng.Ctx, ys []mat.Tensor, want []ref.M) error {
	cs := r.cs
	if len(ys) != len(want) {
		return errf("%s: %d outputs, want %d", r.what, len(ys), len(want))
	}
	for i, y := range ys {
		if r.e.t.Kink < 1e-6*r.rel() {
			break // rounding may choose the other side of a jump
		}
		if err := expectRef(fmt.Sprintf("%s: output %d", r.what, i), y.Value(), cs.DT, want[i], 8); err != nil {
			return err
		}
	}
	return r.checkGrads(ctx, ys, want)
}

// normKinds are the layers whose only non-differentiable points are where the
// statistic they divide by is zero, so that distances scale with the inputs.
var normKinds = map[string]bool{"adanorm": true, "layernorm": true, "layernormsimple": true, "rmsnorm": true, "scalenorm": true, "fixnorm": true, "batchnorm": true}

// rel is the scale of the distances to non-differentiable points.
func (r *modelRun) rel() float64 {
	if xs := float64(r.cs.XS); normKinds[r.cs.Spec.Kind] && xs > 0 && xs < 1 {
		return xs
	}
	return 1
}

func (r *modelRun) checkGrads(ctx *eng.Ctx, ys []mat.Tensor, want []ref.M) error {
	cs := r.cs
	var roots []mat.Tensor
	var outs []ref.V
	var seeds []float64
	for i, y := range ys {
		gy := gyOf(cs.DT, want[i].R, want[i].C, cs.Gy, i)
		for k, v := range want[i].D {
			outs, seeds = append(outs, v), append(seeds, float64(gy.D[k]))
		}
		if !y.RequiresGrad() { // nothing requires gradients, or they will be missed below
			continue
		}
		y.AccGrad(mk(cs.DT, gy, false))
		if _, ok := y.(*ag.Operator); ok && !slices.Contains(roots, y) {
			roots = append(roots, y)
		}
	}
	if err := ag.Backward(roots...); err != nil {
		return errf("%s: Backward failed: %v", r.what, err)
	}
	if r.e.t.Kink < 2e-3*r.rel() || !wellConditioned(cs.DT, want) {
		return nil
	}
	ctx.NT()
	gr := r.e.t.Backward(outs, seeds)
	for i, p := range r.ps {
		what := fmt.Sprintf("%s: parameter %s", r.what, r.nms[i])
		if cs.Req[i%len(cs.Req)] == 0 || !p.RequiresGrad() {
			if p.HasGrad() {
				return errf("%s does not require gradients but received one", what)
			}
			continue
		}
		rm, ok := r.e.par[p]
		if !ok {
			if p.HasGrad() {
				return errf("%s is not used but received a gradient", what)
			}
			continue
		}
		if err := expectGrad(what, p, cs.DT, rm, gr, 3*gradTol(cs.DT)); err != nil {
			return err
		}
	}
	for i, l := range r.ins {
		if in := cs.In[i%len(cs.In)]; in == 0 && i >= len(r.kind) || i < len(r.kind) && r.kind[i] == 0 {
			if l.HasGrad() {
				return errf("%s: input %d does not require gradients but received one", r.what, i)
			}
			continue
		}
		if err := expectGrad(fmt.Sprintf("%s: input %d", r.what, i), l, cs.DT, r.rxs[i], gr, 3*gradTol(cs.DT)); err != nil {
			return err
		}
	}
	return nil
}

// wellConditioned: rounding of the forward pass stays small against the outputs.
func wellConditioned(dt int, want []ref.M) bool {
	for _, m := range want {
		for _, v := range m.D {
			if !(math.Abs(v.X()) < 1e4) || v.E()*epsOf(dt) > 1e-4*(0.01+math.Abs(v.X())) {
				return false
			}
		}
	}
	return true
}

// callerSlice copies the inputs to a slice with spare capacity, and returns
// with it a check that neither was written to.
func callerSlice(ts []mat.Tensor) ([]mat.Tensor, func(what string) error) {
	const spare = 3
	full := append(slices.Clone(ts), make([]mat.Tensor, spare)...)
	for i := range spare {
		full[len(ts)+i] = mat.Scalar(float64(i))
	}
	want := slices.Clone(full)
	return full[:len(ts)], func(what string) error {
		for i, x := range full {
			if x != want[i] {
				if i < len(ts) {
					return errf("%s: element %d of the caller's slice of %d inputs was replaced", what, i, len(ts))
				}
				return errf("%s: the spare capacity of the caller's slice of %d inputs was written to", what, len(ts))
			}
		}
		return nil
	}
}

func evalModel(ctx *eng.Ctx, cs modelCase) error {
	ctx.Label("%s", cs.Spec.Kind)
	r := newModelRun(cs)
	if r.built != nil {
		return r.built
	}
	var snaps []snap
	for _, l := range r.ins {
		snaps = append(snaps, snapOf(l))
	}
	for _, p := range r.ps {
		snaps = append(snaps, snapOf(p))
	}
	want := r.e.model(r.m, r.rxs)
	xs, spare := callerSlice(r.xs)
	ys := runModel(r.m, xs)
	if err := spare(r.what); err != nil {
		return err
	}
	if err := r.checkOut(ctx, ys, want); err != nil {
		return err
	}
	for i, s := range snaps {
		if i < len(r.ins) {
			if err := s.same(r.ins[i]); err != nil {
				return errf("%s: input %d modified: %v", r.what, i, err)
			}
		} else if err := s.same(r.ps[i-len(r.ins)]); err != nil {
			return errf("%s: parameter %s modified: %v", r.what, r.nms[i-len(r.ins)], err)
		}
	}
	if listKinds[cs.Spec.Kind] {
		if ys := runModel(r.m, nil); len(ys) != 0 {
			return errf("%s: %d outputs for no inputs", r.what, len(ys))
		}
	}
	if cs.Seed/6%4 == 0 {
		return evalAgain(ctx, cs)
	}
	return nil
}

// listKinds map a list of any length to a list of the same length.
var listKinds = map[string]bool{"linear": true, "activation": true, "highway": true, "srn": true, "gru": true, "lstm": true,
	"bilstm": true, "bigru": true, "birnn": true, "bibilstm": true, "slstm": true, "layernorm": true, "layernormsimple": true,
	"rmsnorm": true, "scalenorm": true, "adanorm": true, "fixnorm": true, "dropout": true, "batchnorm": true, "maxpool": true}

func registerModels(prop, name string, quick, thorough int, kinds ...string) {
	eng.Register(prop, name,
		"outputs compared with the definition and gradients of all parameters and inputs compared with the reference; inputs at least 2e-3 away from non-differentiable points and well conditioned",
		quick, thorough,
		func(t *rapid.T) modelCase { return genModelCase(t, genSpec(t, gen.Pick(t, kinds...), 0)) }, evalModel)
}

// outSize is the size of the output vectors of a sequence layer.
func (s modelSpec) outSize() int {
	switch s.Kind {
	case "linear", "srn", "gru", "lstm", "slstm":
		return s.a(1)
	case "bilstm", "bigru", "bibilstm", "birnn":
		if birnn.MergeType(s.Merge) == birnn.Concat {
			if s.Kind == "birnn" {
				return s.Inner[0].a(1) + s.Inner[1].a(1)
			}
			return 2 * s.a(1)
		}
		return s.a(1)
	}
	return s.a(0)
}

// Layers that map a sequence of n vectors to n vectors.
var seqKinds = []string{"linear", "linear", "activation", "highway", "srn", "gru", "lstm", "bilstm", "bigru", "birnn", "bibilstm", "slstm",
	"layernorm", "layernormsimple", "rmsnorm", "scalenorm", "adanorm", "fixnorm", "gmlpblock", "mlpmixer", "conv1x1", "dropout", "linear"}

// genStack draws a sequential model over n vectors of size in.
// genShared is a stack of layers in which one may occur twice in a row.
func genShared(t *rapid.T) modelCase {
	cs := genModelCase(t, modelSpec{Kind: "linear", A: []int{1, 1}})
	cs.N = gen.UInt(t, 1, 5)
	in := gen.UInt(t, 1, 4)
	cs.Spec = genStack(t, in, cs.N, gen.UInt(t, 1, 4))
	for i, l := range cs.Spec.Inner {
		if l.Kind == "activation" { // only those whose parameters may take any value
			cs.Spec.Inner[i].Act, cs.Spec.Inner[i].P = mod(l.Act, nPlainActs), nil
		}
	}
	for i, l := range cs.Spec.Inner {
		out := l.outSize()
		if l.Kind == "conv1x1" {
			out = l.A[2]
		}
		if out == in && gen.Chance(t, 2) {
			cs.Spec.A = append(cs.Spec.A[:1], i+1)
			break
		}
		in = out
	}
	return cs
}

func genStack(t *rapid.T, in, n, depth int, kinds ...string) modelSpec {
	if len(kinds) == 0 {
		kinds = seqKinds
	}
	s := modelSpec{Kind: "stack", A: []int{in}}
	for i := 0; i < depth; i++ {
		l := genSpec(t, gen.Pick(t, kinds...), in)
		switch l.Kind {
		case "gmlpblock":
			l.A[2] = n
		case "mlpmixer":
			l.A[3] = n
		case "conv1x1":
			l.A[0], l.A[1], l.A[2] = n, n, in
		case "lstm":
			if l.Flag = l.Flag && l.A[0] == l.A[1] && l.A[0] == in; true {
				l.A[0] = in
			}
		}
		s.Inner = append(s.Inner, l)
		out := l.outSize()
		if l.Kind == "conv1x1" {
			out = l.A[2]
		}
		in = out
	}
	return s
}
