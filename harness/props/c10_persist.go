package props

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// Holder keeps any model behind an interface, as user code does.
type Holder struct {
	nn.Module
	Note string
	M    nn.Model
	Emb  embedding.Shared
}

func init() {
	gob.Register(&Stack{})
	gob.Register(&User{})
	gob.Register(&Holder{})
}

// codec is one way to dump and load a model.
type codec struct {
	dump     func(m nn.Model, w io.Writer) error
	load     func(r io.Reader) (nn.Model, error)
	dumpFile func(m nn.Model, f string) error
	loadFile func(f string) (nn.Model, error)
}

func codecOf[T nn.Model]() codec {
	conv := func(v T, err error) (nn.Model, error) { return v, err }
	return codec{
		dump:     func(m nn.Model, w io.Writer) error { return nn.Dump(m, w) },
		load:     func(r io.Reader) (nn.Model, error) { return conv(nn.Load[T](r)) },
		dumpFile: func(m nn.Model, f string) error { return nn.DumpToFile(m.(T), f) },
		loadFile: func(f string) (nn.Model, error) { return conv(nn.LoadFromFile[T](f)) },
	}
}

// ifaceCodec dumps a pointer to an interface value.
var ifaceCodec = codec{
	dump:     func(m nn.Model, w io.Writer) error { return nn.Dump(&m, w) },
	load:     func(r io.Reader) (nn.Model, error) { return nn.Load[nn.Model](r) },
	dumpFile: func(m nn.Model, f string) error { return nn.DumpToFile(&m, f) },
	loadFile: func(f string) (nn.Model, error) { return nn.LoadFromFile[nn.Model](f) },
}

var codecs = map[reflect.Type]codec{}

func addCodec[T nn.Model]() { codecs[reflect.TypeFor[T]()] = codecOf[T]() }

func init() {
	addCodec[*linear.Model]()
	addCodec[*activation.Model]()
	addCodec[*highway.Model]()
	addCodec[*gmlp.Block]()
	addCodec[*gmlp.Model]()
	addCodec[*sgu.Model]()
	addCodec[*mlpmixer.MixerBlock]()
	addCodec[*sqrdist.Model]()
	addCodec[*flatten.Model]()
	addCodec[*dropout.Model]()
	addCodec[*conv1x1.Model]()
	addCodec[*convolution1d.Model]()
	addCodec[*convolution2d.Model]()
	addCodec[*pooling.MaxPooling]()
	addCodec[*srn.Model]()
	addCodec[*gru.Model]()
	addCodec[*lstm.Model]()
	addCodec[*birnn.Model]()
	addCodec[*selfattention.Model]()
	addCodec[*multiheadattention.Model]()
	addCodec[*adanorm.Model]()
	addCodec[*batchnorm.Model]()
	addCodec[*fixnorm.Model]()
	addCodec[*layernorm.Model]()
	addCodec[*layernormsimple.Model]()
	addCodec[*rmsnorm.Model]()
	addCodec[*scalenorm.Model]()
	addCodec[*embedding.Model]()
	addCodec[*crf.Model]()
	addCodec[*slstm.Model]()
	addCodec[*Stack]()
	addCodec[*User]()
	addCodec[*Holder]()
}

func codecFor(m nn.Model, via int) codec {
	if via == 1 {
		return ifaceCodec
	}
	c, ok := codecs[reflect.TypeOf(m)]
	if !ok {
		panic(fmt.Sprintf("harness: no codec for %T", m))
	}
	return c
}

// deepSame compares the exported content of two values: matrices by type,
// shape, bits and gradient flag, scalars by bits; nil and empty collections
// are the same.
func deepSame(path string, a, b reflect.Value) error {
	if a.IsValid() != b.IsValid() {
		return errf("%s: %v became %v", path, a, b)
	}
	if !a.IsValid() {
		return nil
	}
	if a.Type() != b.Type() {
		return errf("%s: type %v became %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return errf("%s: nil is %v, became %v", path, a.IsNil(), b.IsNil())
		}
		return deepSame(path, a.Elem(), b.Elem())
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return errf("%s: nil is %v, became %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return nil
		}
		if x, ok := a.Interface().(mat.Matrix); ok && a.Type() != paramType {
			return sameBits(path, x, b.Interface().(mat.Matrix))
		}
		return deepSame(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			if err := deepSame(path+"."+f.Name, a.Field(i), b.Field(i)); err != nil {
				return err
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return errf("%s: length %d became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := deepSame(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return errf("%s: %d entries became %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if err := deepSame(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k)); err != nil {
				return err
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return errf("%s: %v became %v", path, a, b)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		if a.Interface() != b.Interface() {
			return errf("%s: %v became %v", path, a, b)
		}
	}
	return nil
}

func sameBits(path string, x, y mat.Tensor) error {
	if dtOf(x) != dtOf(y) || fmt.Sprint(x.Shape()) != fmt.Sprint(y.Shape()) {
		return errf("%s: %d bits %v became %d bits %v", path, dtOf(x), x.Shape(), dtOf(y), y.Shape())
	}
	if x.RequiresGrad() != y.RequiresGrad() {
		return errf("%s: requires gradient %v became %v", path, x.RequiresGrad(), y.RequiresGrad())
	}
	p, q := bitsOf(x), bitsOf(y)
	for i := range p {
		if p[i] != q[i] {
			return errf("%s: element %d: bits %x became %x", path, i, p[i], q[i])
		}
	}
	return nil
}

// persistCase is a model with a training prefix.
type persistCase struct {
	DT     int
	Spec   modelSpec
	N      int
	Seed   uint64
	Scale  F
	Req    []int
	O      optSpec
	Pre    int   // optimiser steps before the dump
	Post   int   // ... after it
	Has    []int // which parameters receive gradients
	Via    int   // 0 concrete type, 1 interface, 2 inside a holder
	Bits   int   // >0: parameter Bits-1 holds special values
	Pend   bool  // a gradient is pending at the time of the dump
	Slow   bool  // the reader delivers byte by byte
	Faults []F   // fractions of the dump's length
}

var zooKinds = []string{"linear", "activation", "highway", "gmlpblock", "gmlp", "sgu", "mlpmixer", "sqrdist", "flatten", "dropout", "conv1x1", "conv1d", "conv2d", "maxpool",
	"srn", "gru", "lstm", "birnn", "bilstm", "bigru", "bibilstm", "selfattention", "multihead", "adanorm", "batchnorm", "fixnorm", "layernorm", "layernormsimple",
	"rmsnorm", "scalenorm", "embedding", "crf", "slstm"}

func genPersist(t *rapid.T) persistCase {
	c := persistCase{DT: gen.DT(t), N: gen.UInt(t, 1, 4), Seed: uint64(gen.U(t, 1<<30)), Scale: F(gen.Pick(t, 0.7, 0.2, 3)), O: genOpt(t)}
	switch gen.U(t, 4) {
	case 0:
		c.Spec = genStack(t, gen.UInt(t, 1, 4), c.N, gen.UInt(t, 1, 4))
	case 1:
		c.Spec = modelSpec{Kind: "user", A: []int{gen.UInt(t, 1, 4), gen.UInt(t, 1, 4)}}
		c.Spec.Inner = gen.List(t, 0, 5, func(t *rapid.T) modelSpec {
			return genSpec(t, gen.Pick(t, "linear", "activation", "gru", "layernorm", "batchnorm", "dropout", "conv2d", "bilstm", "gmlp", "adanorm"), 0)
		})
	default:
		c.Spec = genSpec(t, gen.Pick(t, zooKinds...), 0)
	}
	if gen.Large(t) { // longer than any buffer on the way
		c.Spec = modelSpec{Kind: "linear", A: []int{gen.UInt(t, 50, 200), gen.UInt(t, 50, 200)}}
	}
	c.Req = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Pick(t, 1, 1, 1, 0) })
	c.Pre, c.Post = gen.Pick(t, 0, 1, 2, 4), gen.Pick(t, 0, 1, 2, 3)
	c.Has = gen.List(t, 1, 3, func(t *rapid.T) int { return gen.Pick(t, 1, 1, 0) })
	c.Via, c.Pend, c.Slow = gen.U(t, 3), gen.Chance(t, 20), gen.Chance(t, 30)
	if gen.Chance(t, 25) {
		c.Bits = gen.UInt(t, 1, 5)
	}
	c.Faults = gen.List(t, 1, 5, func(t *rapid.T) F {
		return F(gen.Pick(t, gen.Unit(t), gen.Unit(t), 0, math.Nextafter(1, 0), 1-gen.LogPos(t, -5, -1), gen.LogPos(t, -5, -1)))
	})
	return c
}

// trainee is a model under training with prescribed gradients.
type trainee struct {
	m   nn.Model
	run optRun
}

// stepsOn applies optimiser steps [from, to) with the case's gradients.
func (c persistCase) stepsOn(tr *trainee, from, to int) error {
	for k := from; k < to; k++ {
		if k > 0 {
			tr.run.tick()
		}
		ps, names := allParams(tr.m)
		for i, p := range ps {
			if !p.RequiresGrad() || c.Has[(i+k)%len(c.Has)] == 0 {
				continue
			}
			s := p.Shape()
			p.AccGrad(mk(c.DT, hmat(c.DT, s[0], s[1], c.Seed, 5000+100*k+i, 1), false))
			if err := tr.run.strategy.OptimizeParams(p); err != nil {
				return errf("step %d: parameter %s: %v", k, names[i], err)
			}
			if p.HasGrad() {
				return errf("step %d: parameter %s keeps its gradient", k, names[i])
			}
		}
	}
	return nil
}

// persistTarget builds the model of the case and trains it.
func persistTarget(c persistCase) (*trainee, error) {
	m := c.Spec.build(c.DT)
	if c.Spec.Kind != "activation" {
		fillParams(c.DT, m, c.Seed, float64(c.Scale))
	}
	visitBuffers(m, func(n string, b *nn.Buffer) {
		s := b.Shape()
		x := hmat(c.DT, s[0], s[1], c.Seed, 77, 1)
		for i, v := range x.D {
			b.Value().(mat.Matrix).SetScalar(flt(c.DT, math.Abs(float64(v))+0.1), i/s[1], i%s[1])
		}
	})
	ps, _ := allParams(m)
	for i, p := range ps {
		if c.Req[i%len(c.Req)] == 0 {
			p.SetRequiresGrad(false)
		}
		if c.Bits == i+1 {
			sp := []float64{math.Inf(1), math.Copysign(0, -1), 5e-324, math.MaxFloat64, 0, -1e-45, math.Inf(-1)}
			s := p.Shape()
			for k := 0; k < s[0]*s[1]; k++ {
				p.SetScalar(flt(c.DT, sp[(k+i)%len(sp)]), k/s[1], k%s[1])
			}
		}
	}
	if u, ok := m.(*User); ok {
		u.Note = fmt.Sprint("note\x00", c.Seed)
	}
	tr := &trainee{m, c.O.start(c.DT)}
	if err := c.stepsOn(tr, 0, c.Pre); err != nil {
		return nil, err
	}
	if c.Pend {
		for i, p := range ps {
			if p.RequiresGrad() && i%2 == 0 {
				s := p.Shape()
				p.AccGrad(mk(c.DT, hmat(c.DT, s[0], s[1], c.Seed, 99, 1), false))
			}
		}
	}
	if c.Via == 2 {
		h := &Holder{Note: "h", M: m}
		h.Emb = embedding.Shared{Model: embedding.New[float64](3, 2)}
		tr.m = h
	}
	return tr, nil
}

// outputs runs the model in every way it offers.
func (c persistCase) outputs(m nn.Model) (out []mat.Tensor, err error) {
	if h, ok := m.(*Holder); ok {
		m = h.M
	}
	var xs []mat.Tensor
	if c.Spec.Kind != "user" && c.Spec.Kind != "embedding" {
		for i, s := range c.Spec.inShapes(c.N) {
			xs = append(xs, mk(c.DT, hmat(c.DT, s[0], s[1], c.Seed, i, 1.5), false))
		}
	}
	if p := catch(func() {
		switch m := m.(type) {
		case *crf.Model:
			out = append(out, m.NegativeLogLoss(xs, make([]int, len(xs))))
			for _, k := range m.Decode(xs) {
				out = append(out, mat.Scalar(float64(k)))
			}
		case *embedding.Model:
			for i := 0; i < m.Size; i++ {
				e, e2 := m.Embedding(i)
				if e2 != nil {
					err = e2
					return
				}
				out = append(out, ag.Add(e, e))
			}
		case *batchnorm.Model:
			out = append(m.Forward(xs...), m.ForwardT(xs...)...)
		case *User:
			out = append(m.Lin.Forward(mk(c.DT, hmat(c.DT, c.Spec.a(0), 1, c.Seed, 3, 1), false)), m.Buf)
		default:
			out = runModel(m, xs)
		}
	}); p != nil {
		if s := fmt.Sprint(p); strings.HasPrefix(s, "harness:") {
			panic(p)
		}
		return nil, errf("panic: %v", p)
	}
	return out, err
}

// compareLoaded compares a loaded model with the original: structure, values
// and behaviour.
func (c persistCase) compareLoaded(orig, got nn.Model) error {
	if got == nil {
		return errf("the loaded model is nil")
	}
	if err := deepSame("model", reflect.ValueOf(orig), reflect.ValueOf(got)); err != nil {
		return err
	}
	pa, na := allParams(orig)
	pb, _ := allParams(got)
	if len(pa) != len(pb) {
		return errf("%d parameters became %d", len(pa), len(pb))
	}
	for i := range pb {
		if pb[i].HasGrad() {
			return errf("parameter %s of the loaded model has a gradient", na[i])
		}
		for j := range i {
			if pb[i] == pb[j] {
				return errf("parameters %s and %s became one", na[i], na[j])
			}
		}
	}
	return nil
}

func sameOutputs(a, b []mat.Tensor) error {
	if len(a) != len(b) {
		return errf("%d outputs became %d", len(a), len(b))
	}
	for i := range a {
		if err := sameBits(fmt.Sprintf("output %d", i), a[i].Value(), b[i].Value()); err != nil {
			return err
		}
		if a[i].RequiresGrad() != b[i].RequiresGrad() {
			return errf("output %d: requires gradient %v became %v", i, a[i].RequiresGrad(), b[i].RequiresGrad())
		}
	}
	return nil
}

// withoutShared detaches what is documented not to be saved.
func detachShared(m nn.Model) (restore func()) {
	if h, ok := m.(*Holder); ok {
		k := h.Emb
		h.Emb = embedding.Shared{}
		return func() { h.Emb = k }
	}
	return func() {}
}

func evalRoundtrip(ctx *eng.Ctx, c persistCase) error {
	ctx.Label("%s", c.Spec.Kind)
	tr, err := persistTarget(c)
	if err != nil {
		return err
	}
	cd := codecFor(tr.m, c.Via)
	ps, names := allParams(tr.m)
	var before []snap
	for _, p := range ps {
		before = append(before, snapOf(p))
	}
	var buf bytes.Buffer
	if err := cd.dump(tr.m, &buf); err != nil {
		return errf("Dump of %s failed: %v", c.Spec.Kind, err)
	}
	for i, p := range ps {
		if err := before[i].same(p); err != nil {
			return errf("Dump changed parameter %s: %v", names[i], err)
		}
	}
	dump := append([]byte(nil), buf.Bytes()...)
	var r io.Reader = bytes.NewReader(dump)
	if c.Slow {
		r = iotest.OneByteReader(iotest.DataErrReader(r))
	}
	got, err := cd.load(r)
	if err != nil {
		return errf("Load of the dump of %s failed: %v", c.Spec.Kind, err)
	}
	scramble(dump)
	ctx.NTIf(len(ps) > 0)
	restore := detachShared(tr.m)
	err = c.compareLoaded(tr.m, got)
	restore()
	if err != nil {
		return errf("%s after loading: %v", c.Spec.Kind, err)
	}
	if h, ok := got.(*Holder); ok {
		h.Emb = tr.m.(*Holder).Emb
	}
	// continue both
	for _, p := range ps {
		p.ZeroGrad()
	}
	a := tr
	b := &trainee{got, c.O.start(c.DT)}
	for k := 1; k < c.Pre; k++ {
		b.run.tick()
	}
	for k := c.Pre; ; k++ {
		ya, ea := c.outputs(a.m)
		yb, eb := c.outputs(b.m)
		if fmt.Sprint(ea) != fmt.Sprint(eb) {
			return errf("%s after %d further steps: %v for the original, %v for the loaded model", c.Spec.Kind, k-c.Pre, ea, eb)
		}
		if err := sameOutputs(ya, yb); err != nil {
			return errf("%s after %d further steps on both: %v", c.Spec.Kind, k-c.Pre, err)
		}
		if k == c.Pre+c.Post {
			break
		}
		if err := c.stepsOn(a, k, k+1); err != nil {
			return err
		}
		if err := c.stepsOn(b, k, k+1); err != nil {
			return errf("training the loaded %s: %v", c.Spec.Kind, err)
		}
		restore := detachShared(a.m)
		shb := detachShared(b.m)
		err := deepSame("model", reflect.ValueOf(a.m), reflect.ValueOf(b.m))
		restore()
		shb()
		if err != nil {
			return errf("%s: training diverges after %d further steps: %v", c.Spec.Kind, k-c.Pre+1, err)
		}
	}
	// the two are independent
	pb, _ := allParams(got)
	for i, p := range ps {
		if pb[i] == p { // of the shared table
			continue
		}
		s := snapOf(p)
		pb[i].AddScalarInPlace(1)
		pb[i].SetRequiresGrad(!pb[i].RequiresGrad())
		if err := s.same(p); err != nil {
			return errf("parameter %s is shared between the model and its loaded copy: %v", names[i], err)
		}
	}
	return nil
}

// ---- failing destinations and damaged dumps ------------------------------

var errDisk = errors.New("disk failure")

// failWriter accepts limit bytes.
type failWriter struct {
	limit int
	mode  int // 0 nothing is taken, 1 and 2 part is taken before the error
	n     int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.n+len(p) <= w.limit {
		w.n += len(p)
		return len(p), nil
	}
	k := 0
	if w.mode != 0 {
		k = max(0, w.limit-w.n)
	}
	w.n = w.limit + 1 // stays broken
	if w.mode == 1 {
		return k, io.ErrShortWrite
	}
	return k, errDisk
}

func evalFaults(ctx *eng.Ctx, c persistCase) error {
	ctx.Label("%s", c.Spec.Kind)
	tr, err := persistTarget(c)
	if err != nil {
		return err
	}
	cd := codecFor(tr.m, c.Via)
	var buf bytes.Buffer
	if err := cd.dump(tr.m, &buf); err != nil {
		return errf("Dump of %s failed: %v", c.Spec.Kind, err)
	}
	dump := buf.Bytes()
	ctx.NT()
	for i, f := range c.Faults {
		k := min(len(dump)-1, int(float64(f)*float64(len(dump))))
		w := &failWriter{limit: k, mode: i % 3}
		// maps are encoded in any order, so the length may differ a little
		// only in what is written, never below k
		if err := cd.dump(tr.m, w); err == nil {
			return errf("Dump of %s (%d bytes) to a destination that fails after %d bytes (mode %d) reports no error", c.Spec.Kind, len(dump), k, i%3)
		}
		var r io.Reader = bytes.NewReader(dump[:k])
		if c.Slow {
			r = iotest.OneByteReader(r)
		}
		if m, err := cd.load(r); err == nil {
			return errf("Load of the first %d of %d bytes of a dump of %s reports no error (%T)", k, len(dump), c.Spec.Kind, m)
		}
		if _, err := cd.load(io.MultiReader(bytes.NewReader(dump[:k]), iotest.ErrReader(errDisk))); err == nil {
			return errf("Load of %s from a source failing after %d of %d bytes reports no error", c.Spec.Kind, k, len(dump))
		}
	}
	// things that are no dump at all
	var alien bytes.Buffer
	for i, v := range []any{42, "text", []float64{1, 2}, map[string]int{"a": 1}, []byte(nil)} {
		alien.Reset()
		if i < 4 {
			if err := gob.NewEncoder(&alien).Encode(v); err != nil {
				return errf("harness: %v", err)
			}
		} else {
			alien.WriteString("{\"weights\": [1, 2, 3]}\n")
		}
		if m, err := cd.load(&alien); err == nil {
			return errf("Load of the encoding of %v reports no error (%T)", v, m)
		}
	}
	return nil
}

// ---- files -----------------------------------------------------------------

func evalFiles(ctx *eng.Ctx, c persistCase) error {
	tr, err := persistTarget(c)
	if err != nil {
		return err
	}
	cd := codecFor(tr.m, c.Via)
	dir, err := os.MkdirTemp(ctx.Scratch, "f")
	if err != nil {
		return errf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "model")
	if c.Slow { // an older, longer file is replaced
		if err := os.WriteFile(f, bytes.Repeat([]byte{0x5a}, 1<<17), 0o644); err != nil {
			return errf("harness: %v", err)
		}
	}
	if err := cd.dumpFile(tr.m, f); err != nil {
		return errf("DumpToFile of %s failed: %v", c.Spec.Kind, err)
	}
	got, err := cd.loadFile(f)
	if err != nil {
		return errf("LoadFromFile of %s failed: %v", c.Spec.Kind, err)
	}
	ctx.NT()
	if left := openFiles(dir); left != "" {
		return errf("DumpToFile and LoadFromFile leave %s open", left)
	}
	restore := detachShared(tr.m)
	err = c.compareLoaded(tr.m, got)
	restore()
	if err != nil {
		return errf("%s after loading the file: %v", c.Spec.Kind, err)
	}
	st, err := os.Stat(f)
	if err != nil {
		return errf("harness: %v", err)
	}
	var buf bytes.Buffer
	if err := cd.dump(tr.m, &buf); err != nil {
		return errf("Dump failed: %v", err)
	}
	if st.Size() != int64(buf.Len()) {
		return errf("DumpToFile writes %d bytes where Dump writes %d", st.Size(), buf.Len())
	}
	k := min(st.Size()-1, int64(float64(c.Faults[0])*float64(st.Size())))
	if err := os.Truncate(f, k); err != nil {
		return errf("harness: %v", err)
	}
	if _, err := cd.loadFile(f); err == nil {
		return errf("LoadFromFile of %s cut to %d of %d bytes reports no error", c.Spec.Kind, k, st.Size())
	}
	// reached through a link in the scratch directory: a dump that removes or
	// replaces its destination must not touch the device itself
	full := filepath.Join(dir, "full")
	if err := os.Symlink("/dev/full", full); err != nil {
		return errf("harness: %v", err)
	}
	for _, bad := range []string{full, filepath.Join(dir, "no", "such"), dir} {
		if err := cd.dumpFile(tr.m, bad); err == nil {
			if st, err := os.Lstat(full); bad == full && err == nil && st.Mode().IsRegular() {
				continue // replaced by a complete file
			}
			return errf("DumpToFile of %s to %s reports no error", c.Spec.Kind, strings.Replace(bad, dir, "SCRATCH", 1))
		}
	}
	for _, bad := range []string{filepath.Join(dir, "nothing"), dir, "/dev/null"} {
		if m, err := cd.loadFile(bad); err == nil {
			return errf("LoadFromFile from %s reports no error (%T)", strings.Replace(bad, dir, "SCRATCH", 1), m)
		}
	}
	if left := openFiles(dir); left != "" {
		return errf("failing DumpToFile and LoadFromFile leave %s open", left)
	}
	return nil
}

// openFiles names a file in dir (or a device used above) that this process has
// open for its own use, or nothing.
func openFiles(dir string) string {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if n, _ := strconv.Atoi(fd.Name()); n > 2 {
			if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && (l == "/dev/full" || strings.HasPrefix(l, dir+"/")) {
				return strings.Replace(l, dir, "SCRATCH", 1)
			}
		}
	}
	return ""
}

// ---- injected system call failures --------------------------------------------

// sysCase dumps to a file in a process whose calls on that file fail.
type sysCase struct {
	P    persistCase
	Call string // close, write, openat
	Err  string
	When int
}

func genSys(t *rapid.T) sysCase {
	c := sysCase{P: genPersist(t), Call: gen.Pick(t, "close", "close", "write", "write", "openat"), Err: gen.Pick(t, "EIO", "ENOSPC", "EDQUOT"), When: 1}
	if c.Call == "write" {
		c.When = gen.Pick(t, 1, 1, 2, 3)
		if gen.Bool(t) { // larger than the buffer, so that there are several writes
			c.P.Spec = modelSpec{Kind: "linear", A: []int{gen.UInt(t, 20, 40), gen.UInt(t, 20, 50)}}
		}
	}
	return c
}

const sysEnv = "VERIF_DUMP_TO"

func evalSys(ctx *eng.Ctx, c sysCase) error {
	if f := os.Getenv(sysEnv); f != "" { // the traced process
		tr, err := persistTarget(c.P)
		if err != nil {
			return err
		}
		err = codecFor(tr.m, c.P.Via).dumpFile(tr.m, f)
		return errf("dump-result reported=%v (%v)", err != nil, err)
	}
	strace, err := exec.LookPath("strace")
	if err != nil {
		ctx.Label("no strace")
		return nil
	}
	dir, err := os.MkdirTemp(ctx.Scratch, "s")
	if err != nil {
		return errf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	tr, err := persistTarget(c.P)
	if err != nil {
		return err
	}
	raw, err := json.Marshal(c)
	if err != nil {
		return errf("harness: %v", err)
	}
	cf := filepath.Join(dir, "case.json")
	f := filepath.Join(dir, "model")
	log := filepath.Join(dir, "trace")
	if err := os.WriteFile(cf, raw, 0o644); err != nil {
		return errf("harness: %v", err)
	}
	self, _ := os.Executable()
	cmd := exec.Command(strace, "-f", "-o", log, "-P", f, "-e", "trace="+c.Call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", c.Call, c.Err, c.When),
		self, "eval", "C10", "syscalls", cf, dir)
	cmd.Env = append(os.Environ(), sysEnv+"="+f)
	out, _ := cmd.CombinedOutput()
	trace, _ := os.ReadFile(log)
	injected := bytes.Contains(trace, []byte("(INJECTED)"))
	text := string(out)
	if !strings.Contains(text, "dump-result") {
		ctx.Label("could not trace")
		return nil
	}
	reported := strings.Contains(text, "dump-result reported=true")
	ctx.Label("%s injected=%v", c.Call, injected)
	ctx.NTIf(injected)
	if injected && !reported {
		return errf("DumpToFile of %s reports no error although %s of the file failed with %s", c.P.Spec.Kind, c.Call, c.Err)
	}
	if !injected && reported {
		return errf("DumpToFile of %s reports an error although nothing failed: %s", c.P.Spec.Kind, text)
	}
	if !reported {
		got, err := codecFor(tr.m, c.P.Via).loadFile(f)
		if err != nil {
			return errf("DumpToFile reported success and LoadFromFile fails: %v", err)
		}
		restore := detachShared(tr.m)
		defer restore()
		return c.P.compareLoaded(tr.m, got)
	}
	return nil
}

func init() {
	eng.Register("C10", "roundtrip", "the model has parameters", 15000, 300000, genPersist, evalRoundtrip)
	eng.Register("C10", "faults", "every case", 6000, 120000, genPersist, evalFaults)
	eng.Register("C10", "sizes", "every case", 12, 300, func(t *rapid.T) sizesCase {
		return sizesCase{From: gen.UInt(t, 0, gen.Pick(t, 4500, 70000)), File: gen.Chance(t, 25), Via: gen.U(t, 2)}
	}, evalSizes)
	eng.Register("C10", "files", "every case", 1500, 30000, genPersist, evalFiles)
	eng.Register("C10", "syscalls", "a system call on the dump failed", 160, 2000, genSys, evalSys)
}

// sizesCase dumps models of consecutive sizes, so that the dump's length takes
// every remainder modulo any buffer size up to the length of the sweep.
type sizesCase struct {
	From int
	File bool
	Via  int
}

func evalSizes(ctx *eng.Ctx, c sizesCase) error {
	ctx.NT()
	ctx.Label("file=%v", c.File)
	h := &Holder{M: &linear.Model{W: nn.NewParam(mat.Scalar(1.5)), B: nn.NewParam(mat.Scalar(-2.25))}}
	cd := codecFor(h, c.Via)
	text := make([]byte, c.From+4100)
	for i := range text {
		text[i] = byte('a' + i*7%26 + i/4096%2)
	}
	n := 4100
	file := ""
	if c.File {
		n = 400
		dir, err := os.MkdirTemp(ctx.Scratch, "s")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		file = filepath.Join(dir, "m")
	}
	for k := 0; k < n; k++ {
		h.Note = string(text[:c.From+k])
		var got nn.Model
		var err error
		if c.File {
			if err = cd.dumpFile(h, file); err != nil {
				return errf("dump of a model with a note of %d bytes: %v", len(h.Note), err)
			}
			got, err = cd.loadFile(file)
		} else {
			var buf bytes.Buffer
			if err = cd.dump(h, &buf); err != nil {
				return errf("dump of a model with a note of %d bytes: %v", len(h.Note), err)
			}
			got, err = cd.load(&buf)
		}
		if err != nil {
			return errf("model with a note of %d bytes: loading what was dumped: %v", len(h.Note), err)
		}
		g, ok := got.(*Holder)
		if !ok || g.Note != h.Note {
			return errf("model with a note of %d bytes: loaded %T with another note", len(h.Note), got)
		}
		if err := deepSame("model", reflect.ValueOf(h.M), reflect.ValueOf(g.M)); err != nil {
			return errf("model with a note of %d bytes: %v", len(h.Note), err)
		}
	}
	return nil
}
