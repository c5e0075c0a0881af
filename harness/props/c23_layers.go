package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/sgu"
)

// layerInitCase initialises a layer which has its own initialisation.
type layerInitCase struct {
	Kind  int // 0 lstm, 1 self-attention, 2 multi-head attention, 3 spatial gating
	DT    int
	A, B  int
	N     int
	Eps   F
	Seed  uint64
	Dirty bool // the parameters hold something before
	Flag  bool
}

func genLayerInit(t *rapid.T) layerInitCase {
	c := layerInitCase{Kind: gen.U(t, 4), DT: gen.DT(t), Seed: genSeed(t), Dirty: gen.Bool(t), Flag: gen.Bool(t)}
	c.A, c.B, c.N = gen.Dim(t, 1, 14), gen.Dim(t, 1, 14), gen.UInt(t, 1, 4)
	c.Eps = F(gen.LogPos(t, -4, 1))
	return c
}

// initPart is a parameter with its expected contents: uniform within ±lim,
// the constant fix, or untouched.
type initPart struct {
	name string
	m    mat.Matrix
	lim  float64
	fix  *float64
	keep []uint64
}

func layerInitParts[T float.DType](c layerInitCase, seed uint64) ([]initPart, *rand.LockedRand) {
	one := 1.0
	rng := rand.NewLockedRand(seed)
	var parts []initPart
	val := func(t mat.Tensor) mat.Matrix { return t.Value().(mat.Matrix) }
	xavier := func(name string, t mat.Tensor) {
		sh := t.Shape()
		parts = append(parts, initPart{name: name, m: val(t), lim: math.Sqrt(6 / float64(sh[0]+sh[1]))})
	}
	keep := func(name string, t mat.Tensor) {
		parts = append(parts, initPart{name: name, m: val(t), keep: bitsOf(t)})
	}
	dirty := func(m nn.Model) {
		if !c.Dirty {
			return
		}
		k := 0
		nn.ForEachParam(m, func(p *nn.Param) {
			v := p.Value().(mat.Matrix)
			for i := 0; i < v.Shape()[0]; i++ {
				for j := 0; j < v.Shape()[1]; j++ {
					k++
					v.SetScalar(float.Interface(float64(100+k)), i, j)
				}
			}
		})
	}
	self := func(pre string, m *selfattention.Model) {
		xavier(pre+"query weights", m.Query.W)
		xavier(pre+"key weights", m.Key.W)
		xavier(pre+"value weights", m.Value.W)
		keep(pre+"query bias", m.Query.B)
		keep(pre+"key bias", m.Key.B)
		keep(pre+"value bias", m.Value.B)
		keep(pre+"scale factor", m.ScaleFactor)
	}
	switch c.Kind {
	case 0:
		m := lstm.New[T](c.A, c.B)
		dirty(m)
		if m.Init(rng) != m {
			panic(errf("Init returns another model"))
		}
		xavier("WIn", m.WIn)
		xavier("WInRec", m.WInRec)
		xavier("BIn", m.BIn)
		xavier("WOut", m.WOut)
		xavier("WOutRec", m.WOutRec)
		xavier("BOut", m.BOut)
		xavier("WFor", m.WFor)
		xavier("WForRec", m.WForRec)
		parts = append(parts, initPart{name: "BFor", m: val(m.BFor), fix: &one})
		xavier("WCand", m.WCand)
		xavier("WCandRec", m.WCandRec)
		xavier("BCand", m.BCand)
	case 1:
		m := selfattention.New[T](selfattention.Config{InputSize: c.A, QuerySize: c.B, KeySize: c.B, ValueSize: c.A + c.N, ScaleFactor: 0.5, UseCausalMask: c.Flag})
		dirty(m)
		self("", m)
		m.Init(rng)
	case 2:
		m := multiheadattention.New[T](c.A*c.N, c.N, c.Flag, !c.Flag)
		dirty(m)
		xavier("merge weights", m.OutputMerge.W)
		keep("merge bias", m.OutputMerge.B)
		for i, h := range m.Heads {
			self(fmt.Sprintf("head %d: ", i), h)
		}
		m.Init(rng)
	default:
		act := activation.Identity
		if c.Flag {
			act = activation.Tanh
		}
		m := sgu.New[T](sgu.Config{Dim: 2 * c.A, DimSeq: c.B, InitEps: float64(c.Eps), Activation: act})
		dirty(m)
		parts = append(parts, initPart{name: "projection weights", m: val(m.Proj.W), lim: float64(c.Eps) / float64(c.B)})
		parts = append(parts, initPart{name: "projection bias", m: val(m.Proj.B), fix: &one})
		keep("norm weights", m.Norm.W)
		keep("norm bias", m.Norm.B)
		m.Initialize(seed)
		rng = nil
	}
	return parts, rng
}

func evalLayerInit(ctx *eng.Ctx, c layerInitCase) error {
	get := func(seed uint64) ([]initPart, *rand.LockedRand) {
		if c.DT == 32 {
			return layerInitParts[float32](c, seed)
		}
		return layerInitParts[float64](c, seed)
	}
	ctx.Label("kind %d", c.Kind)
	parts, rng := get(c.Seed)
	again, rng2 := get(c.Seed)
	other, _ := get(c.Seed + 1)
	if rng != nil {
		if a, b := rng.Uint64(), rng2.Uint64(); a != b {
			return errf("the generator is at different places after the same initialisation: %d, %d", a, b)
		}
	}
	var all []float64 // normalised to ±1
	n, same := 0, 0
	for k, p := range parts {
		xs, ys, zs := vals(p.m), vals(again[k].m), vals(other[k].m)
		n += len(xs)
		if len(xs) != len(ys) || len(xs) != len(zs) {
			return errf("harness: sizes differ")
		}
		if p.keep != nil {
			got := bitsOf(p.m)
			for i := range got {
				if got[i] != p.keep[i] {
					return errf("%s: element %d was changed to %v", p.name, i, xs[i])
				}
			}
			continue
		}
		for i, x := range xs {
			switch {
			case math.Float64bits(x) != math.Float64bits(ys[i]):
				return errf("%s: the same seed gives %v and %v for element %d", p.name, x, ys[i], i)
			case p.fix != nil:
				if x != roundTo(c.DT, *p.fix) {
					return errf("%s: element %d is %v, want %v", p.name, i, x, *p.fix)
				}
			case !(math.Abs(x) <= p.lim*(1+4*epsOf(c.DT))):
				return errf("%s: element %d is %v, outside ±%v", p.name, i, x, p.lim)
			default:
				all = append(all, x/p.lim)
				if x == zs[i] {
					same++
				}
			}
		}
		// within half of the range by chance: 2^-n
		if p.fix == nil && len(xs) >= 48 {
			big := 0.0
			for _, x := range xs {
				big = math.Max(big, math.Abs(x))
			}
			if big < p.lim/2 {
				return errf("%s: all %d elements are within ±%v, the range is ±%v", p.name, len(xs), big, p.lim)
			}
		}
	}
	if same > len(all)/4+8 {
		return errf("%d of %d elements are the same under another seed", same, len(all))
	}
	// float32 values repeat, and so do normalised ones
	if err := distinctEnough(fmt.Sprintf("layer kind %d", c.Kind), all, 1<<22); err != nil {
		return err
	}
	ctx.NTIf(len(all) > 1)
	return checkCDF(fmt.Sprintf("layer kind %d", c.Kind), all, uniCDF(-1, 1), 8*epsOf(c.DT))
}

func init() {
	eng.Register("C23", "layer-init", "more than one element is drawn", 8000, 200000, genLayerInit, evalLayerInit)
}
