package props

import (
	"math"
	"reflect"

	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// blueprint assembles, without the library's constructors, the model that the
// configuration describes: layers, parameters of the stated shapes and initial
// values, buffers and settings. The second half of a model check (values and
// gradients) interprets the model's own fields, so it is this comparison that
// ties those fields to the configuration the user asked for.
type blueprint struct{ dt int }

func (b blueprint) full(r, c int, v float64) mat.Matrix {
	return mk(b.dt, hfull(r, c, v), false)
}

func (b blueprint) p(r, c int) *nn.Param { return nn.NewParam(b.full(r, c, 0)) }

func (b blueprint) buf(r, c int, v float64) *nn.Buffer { return nn.Buf(b.full(r, c, v)) }

func (b blueprint) linear(in, out int) *linear.Model {
	return &linear.Model{W: b.p(out, in), B: b.p(out, 1)}
}

func (b blueprint) layernorm(n int, eps float64) *layernorm.Model {
	return &layernorm.Model{W: b.p(n, 1), B: b.p(n, 1), Eps: b.buf(1, 1, eps)}
}

func (b blueprint) lstm(in, out int, refined bool) *lstm.Model {
	w, r, c := func() *nn.Param { return b.p(out, in) }, func() *nn.Param { return b.p(out, out) }, func() *nn.Param { return b.p(out, 1) }
	return &lstm.Model{UseRefinedGates: refined, WIn: w(), WInRec: r(), BIn: c(), WOut: w(), WOutRec: r(), BOut: c(),
		WFor: w(), WForRec: r(), BFor: c(), WCand: w(), WCandRec: r(), BCand: c()}
}

func (b blueprint) gru(in, out int) *gru.Model {
	w, r, c := func() *nn.Param { return b.p(out, in) }, func() *nn.Param { return b.p(out, out) }, func() *nn.Param { return b.p(out, 1) }
	return &gru.Model{WPart: w(), WPartRec: r(), BPart: c(), WRes: w(), WResRec: r(), BRes: c(), WCand: w(), WCandRec: r(), BCand: c()}
}

func (b blueprint) sgu(c sgu.Config) *sgu.Model {
	return &sgu.Model{Config: c, Norm: b.layernorm(c.Dim/2, 1e-12), Act: &activation.Model{Activation: c.Activation},
		Proj: b.conv1x1(c.DimSeq, c.DimSeq)}
}

func (b blueprint) conv1x1(in, out int) *conv1x1.Model {
	return &conv1x1.Model{Config: conv1x1.Config{InputChannels: in, OutputChannels: out}, W: b.p(out, in), B: b.p(out, 1)}
}

func (b blueprint) gmlpBlock(dim, ff, seq int, a activation.Activation) *gmlp.Block {
	return &gmlp.Block{Layers: []nn.StandardModel{b.linear(dim, ff), &activation.Model{Activation: activation.GELU},
		b.sgu(sgu.Config{Dim: ff, DimSeq: seq, InitEps: 1e-3, Activation: a}), b.linear(ff/2, dim)}}
}

func (b blueprint) feedForward(dim, hidden int, a activation.Activation) *mlpmixer.FeedForward {
	return &mlpmixer.FeedForward{Layers: []nn.StandardModel{b.linear(dim, hidden), &activation.Model{Activation: a}, b.linear(hidden, dim)}}
}

func (b blueprint) selfAttention(c selfattention.Config) *selfattention.Model {
	return &selfattention.Model{Config: c, Query: b.linear(c.InputSize, c.QuerySize), Key: b.linear(c.InputSize, c.KeySize),
		Value: b.linear(c.InputSize, c.ValueSize), ScaleFactor: b.buf(1, 1, c.ScaleFactor)}
}

// kernels are the parameters of a convolution: one kernel and one bias per
// channel (depth-wise) or per pair of channels; those of masked input channels
// are frozen.
func (b blueprint) kernels(r, c, in, out int, depth bool, mask []int) (ks, bs []*nn.Param) {
	n := in * out
	if depth {
		n = out
	}
	for i := 0; i < n; i++ {
		k, v := b.p(r, c), b.p(1, 1)
		if len(mask) > 0 && mask[i%in] != 1 {
			k.SetRequiresGrad(false)
			v.SetRequiresGrad(false)
		}
		ks, bs = append(ks, k), append(bs, v)
	}
	return
}

func (b blueprint) biLSTM(in, hidden int, merge birnn.MergeType) *birnn.Model {
	return &birnn.Model{Positive: b.lstm(in, hidden, false), Negative: b.lstm(in, hidden, false), MergeMode: merge}
}

func hfull(r, c int, v float64) gen.Mat {
	m := gen.Mat{R: r, C: c, D: make([]F, r*c)}
	for i := range m.D {
		m.D[i] = F(v)
	}
	return m
}

// model gives the blueprint of a configuration.
func (b blueprint) model(s modelSpec) any {
	switch s.Kind {
	case "linear":
		m := b.linear(s.a(0), s.a(1))
		m.B.SetRequiresGrad(!s.Flag)
		return m
	case "activation":
		m := &activation.Model{Activation: actConsts[actNames[mod(s.Act, len(actNames))]]}
		for _, p := range s.P {
			m.Params = append(m.Params, nn.NewParam(b.full(1, 1, float64(p))))
		}
		return m
	case "highway":
		n := s.a(0)
		return &highway.Model{WIn: b.p(n, n), BIn: b.p(n, 1), WT: b.p(n, n), BT: b.p(n, 1), Activation: act(s.Act)}
	case "gmlpblock":
		return b.gmlpBlock(s.a(0), s.a(1), s.a(2), act(s.Act))
	case "gmlp":
		m := &gmlp.Model{Config: gmlp.Config{Dim: s.a(0), Depth: s.a(1), SeqLen: s.a(2), FFMult: s.a(3), Activation: act(s.Act)}}
		for i := 0; i < s.a(1); i++ {
			m.Layers = append(m.Layers, &gmlp.Residual{PreNorm: &gmlp.PreNorm{Norm: b.layernorm(s.a(0), 1e-12),
				Block: b.gmlpBlock(s.a(0), s.a(0)*s.a(3), s.a(2), act(s.Act))}})
		}
		return m
	case "sgu":
		return b.sgu(sgu.Config{Dim: s.a(0), DimSeq: s.a(1), InitEps: 1e-3, Activation: act(s.Act)})
	case "mlpmixer":
		return &mlpmixer.MixerBlock{Config: mlpmixer.Config{InputSize: s.a(0), HiddenSizeTokenMixer: s.a(1), HiddenSizeChannelMixer: s.a(2), Channels: s.a(3),
			ActFunctionTokenMixer: act(s.Act), ActFunctionChannelMixer: act(s.Act2), Eps: float64(s.Eps)},
			TokenLayerNorm: b.layernorm(s.a(0), float64(s.Eps)), ChannelLayerNorm: b.layernorm(s.a(0), float64(s.Eps)),
			TokenMixerFF: b.feedForward(s.a(3), s.a(1), act(s.Act)), ChannelMixerFF: b.feedForward(s.a(0), s.a(2), act(s.Act2))}
	case "sqrdist":
		return &sqrdist.Model{B: b.p(s.a(1), s.a(0))}
	case "flatten":
		return &flatten.Model{}
	case "dropout":
		return &dropout.Model{P: float64(s.Eps)}
	case "conv1x1":
		return b.conv1x1(s.a(0), s.a(1))
	case "conv1d":
		m := &convolution1d.Model{Config: convolution1d.Config{KernelSizeX: s.a(0), KernelSizeY: s.a(1), YStride: s.a(2), InputChannels: s.a(3), OutputChannels: s.a(4),
			Mask: s.Mask, DepthWise: s.Flag, Activation: act(s.Act)}}
		m.K, m.B = b.kernels(s.a(0), s.a(1), s.a(3), s.a(4), s.Flag, s.Mask)
		return m
	case "conv2d":
		m := &convolution2d.Model{Config: convolution2d.Config{KernelSizeX: s.a(0), KernelSizeY: s.a(1), XStride: s.a(2), YStride: s.a(3), InputChannels: s.a(4), OutputChannels: s.a(5),
			Mask: s.Mask, DepthWise: s.Flag, Activation: act(s.Act)}}
		m.K, m.B = b.kernels(s.a(0), s.a(1), s.a(4), s.a(5), s.Flag, s.Mask)
		return m
	case "maxpool":
		return &pooling.MaxPooling{Rows: s.a(0), Columns: s.a(1)}
	case "srn":
		return &srn.Model{W: b.p(s.a(1), s.a(0)), WRec: b.p(s.a(1), s.a(1)), B: b.p(s.a(1), 1)}
	case "gru":
		return b.gru(s.a(0), s.a(1))
	case "lstm":
		return b.lstm(s.a(0), s.a(1), s.Flag)
	case "birnn":
		return &birnn.Model{Positive: b.model(s.Inner[0]).(nn.StandardModel), Negative: b.model(s.Inner[1]).(nn.StandardModel), MergeMode: birnn.MergeType(s.Merge)}
	case "bilstm":
		return b.biLSTM(s.a(0), s.a(1), birnn.MergeType(s.Merge))
	case "bigru":
		return &birnn.Model{Positive: b.gru(s.a(0), s.a(1)), Negative: b.gru(s.a(0), s.a(1)), MergeMode: birnn.MergeType(s.Merge)}
	case "bibilstm":
		return &Stack{Layers: []nn.StandardModel{b.biLSTM(s.a(0), s.a(1), birnn.Concat), b.biLSTM(2*s.a(1), s.a(1), birnn.MergeType(s.Merge))}}
	case "selfattention":
		return b.selfAttention(selfattention.Config{InputSize: s.a(0), QuerySize: s.a(1), KeySize: s.a(1), ValueSize: s.a(2),
			ScaleFactor: float64(s.Eps), UseCausalMask: s.Flag, IsCrossAttention: s.Flag2})
	case "multihead":
		m := &multiheadattention.Model{OutputMerge: b.linear(s.a(0), s.a(0))}
		d := s.a(0) / s.a(1)
		for i := 0; i < s.a(1); i++ {
			m.Heads = append(m.Heads, b.selfAttention(selfattention.Config{InputSize: s.a(0), QuerySize: d, KeySize: d, ValueSize: d,
				ScaleFactor: 1 / math.Sqrt(float64(d)), UseCausalMask: s.Flag, IsCrossAttention: s.Flag2}))
		}
		return m
	case "adanorm":
		return &adanorm.Model{Scale: b.buf(1, 1, float64(s.Eps))}
	case "batchnorm":
		return &batchnorm.Model{W: nn.NewParam(b.full(s.a(0), 1, 1e-5)), B: b.p(s.a(0), 1), Mean: b.buf(s.a(0), 1, 0), StdDev: b.buf(s.a(0), 1, 0),
			Momentum: b.buf(1, 1, float64(s.Eps))}
	case "fixnorm":
		return &fixnorm.Model{}
	case "layernorm":
		return b.layernorm(s.a(0), float64(s.Eps))
	case "layernormsimple":
		return &layernormsimple.Model{}
	case "rmsnorm":
		return &rmsnorm.Model{W: b.p(s.a(0), 1), B: b.p(s.a(0), 1)}
	case "scalenorm":
		return &scalenorm.Model{Gain: b.p(s.a(0), 1)}
	case "embedding":
		m := &embedding.Model{Size: s.a(0), Dim: s.a(1)}
		for i := 0; i < s.a(0); i++ {
			m.Weights = append(m.Weights, b.p(s.a(1), 1))
		}
		return m
	case "crf":
		return &crf.Model{Size: s.a(0), TransitionScores: b.p(s.a(0)+1, s.a(0)+1)}
	case "slstm":
		in, out := s.a(0), s.a(1)
		g4 := func() *slstm.HyperLinear4 {
			return &slstm.HyperLinear4{W: b.p(out, 3*out), U: b.p(out, in), V: b.p(out, out), B: b.p(out, 1)}
		}
		g3 := func() *slstm.HyperLinear3 {
			return &slstm.HyperLinear3{W: b.p(out, out), U: b.p(out, out), B: b.p(out, 1)}
		}
		return &slstm.Model{Config: slstm.Config{InputSize: in, OutputSize: out, Steps: s.a(2)},
			InputGate: g4(), LeftCellGate: g4(), RightCellGate: g4(), CellGate: g4(), SentCellGate: g4(), OutputGate: g4(), InputActivation: g4(),
			NonLocalSentCellGate: g3(), NonLocalInputGate: g3(), NonLocalSentOutputGate: g3(), StartH: b.p(out, 1), EndH: b.p(out, 1), InitValue: b.p(out, 1)}
	case "stack":
		o := &Stack{}
		for _, in := range s.Inner {
			o.Layers = append(o.Layers, b.model(in).(nn.StandardModel))
		}
		o.repeat(s)
		return o
	}
	panic("harness: no blueprint for " + s.Kind)
}

// checkBuilt compares a freshly constructed model with the blueprint of its
// configuration.
func checkBuilt(dt int, s modelSpec, m nn.Model) error {
	seen := map[*nn.Param]string{}
	return sameBuild(dt, "new "+s.Kind, reflect.ValueOf(m), reflect.ValueOf(blueprint{dt}.model(s)), seen)
}

var actModelType = reflect.TypeOf((*activation.Model)(nil))

func sameBuild(dt int, path string, got, want reflect.Value, seen map[*nn.Param]string) error {
	for got.IsValid() && got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	for want.IsValid() && want.Kind() == reflect.Interface {
		want = want.Elem()
	}
	if !got.IsValid() || !want.IsValid() {
		if got.IsValid() != want.IsValid() {
			return errf("%s: %v, want %v", path, got, want)
		}
		return nil
	}
	if got.Type() != want.Type() {
		return errf("%s is a %v, want a %v", path, got.Type(), want.Type())
	}
	switch got.Kind() {
	case reflect.Ptr:
		switch w := want.Interface().(type) {
		case *nn.Param:
			g := got.Interface().(*nn.Param)
			if g == nil {
				return errf("%s is nil", path)
			}
			if p, ok := seen[g]; ok {
				return errf("%s is the same parameter as %s", path, p)
			}
			seen[g] = path
			if g.RequiresGrad() != w.RequiresGrad() {
				return errf("%s: requires gradients %v, want %v", path, g.RequiresGrad(), w.RequiresGrad())
			}
			if g.HasGrad() {
				return errf("%s has a gradient before any use", path)
			}
			return sameInitial(dt, path, g.Value(), w.Value())
		case *nn.Buffer:
			g := got.Interface().(*nn.Buffer)
			if g == nil {
				return errf("%s is nil", path)
			}
			if g.RequiresGrad() {
				return errf("%s is a buffer that requires gradients", path)
			}
			return sameInitial(dt, path, g.Value(), w.Value())
		}
		if got.Type() == actModelType {
			// no activation is the identity
			id := func(v reflect.Value) bool {
				return v.IsNil() || v.Interface().(*activation.Model).Activation == activation.Identity
			}
			if got.IsNil() || want.IsNil() {
				if !id(got) || !id(want) {
					return errf("%s: activation %v, want %v", path, got.Interface(), want.Interface())
				}
				return nil
			}
		}
		if got.IsNil() || want.IsNil() {
			if got.IsNil() != want.IsNil() {
				return errf("%s: nil %v, want nil %v", path, got.IsNil(), want.IsNil())
			}
			return nil
		}
		return sameBuild(dt, path, got.Elem(), want.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			if f := got.Type().Field(i); f.IsExported() {
				if err := sameBuild(dt, path+"."+f.Name, got.Field(i), want.Field(i), seen); err != nil {
					return err
				}
			}
		}
		return nil
	case reflect.Slice:
		if got.Len() != want.Len() {
			return errf("%s has %d elements, want %d", path, got.Len(), want.Len())
		}
		for i := 0; i < got.Len(); i++ {
			if err := sameBuild(dt, path, got.Index(i), want.Index(i), seen); err != nil {
				return err
			}
		}
		return nil
	}
	if !reflect.DeepEqual(got.Interface(), want.Interface()) {
		return errf("%s = %v, want %v", path, got, want)
	}
	return nil
}

func sameInitial(dt int, path string, got, want mat.Tensor) error {
	g, w := got.(mat.Matrix), want.(mat.Matrix)
	if dtOf(g) != dt {
		return errf("%s holds float%d values, want float%d", path, dtOf(g), dt)
	}
	if gs, ws := g.Shape(), w.Shape(); gs[0] != ws[0] || gs[1] != ws[1] {
		return errf("%s has shape %v, want %v", path, gs, ws)
	}
	gd, wd := vals(g), vals(w)
	for i := range wd {
		if math.Abs(gd[i]-wd[i]) > 4*epsOf(dt)*math.Abs(wd[i]) {
			return errf("%s: initial element %d is %v, want %v", path, i, gd[i], wd[i])
		}
	}
	return nil
}
