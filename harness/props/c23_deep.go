package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
)

// deepCase takes hundreds of thousands to millions of draws from one law, so
// that its tails and its rare outcomes are frequent enough to be counted.
type deepCase struct {
	Kind int
	DT   int
	Seed uint64
	R, C int
	N    int
	P    F
	A, B F
}

const deepKinds = 12

func genDeep(t *rapid.T) deepCase {
	c := deepCase{Kind: gen.U(t, deepKinds), DT: gen.DT(t), Seed: genSeed(t)}
	c.R, c.C = gen.UInt(t, 250, 700), gen.UInt(t, 250, 700)
	c.N = gen.UInt(t, 1, 40)
	c.P = F(gen.Pick(t, gen.Unit(t), 0.9999, 0.9995, 0.999, 0.99, 0.01, 1e-3, 5e-4, 1e-4))
	c.A, c.B = F(gen.LogUniform(t, -1, 1)), F(gen.LogPos(t, -1, 1))
	return c
}

// checkDeep compares the draws with their law: bins of equal probability and
// both tails down to a few hundred expected draws.
func checkDeep(what string, xs []float64, cdf func(float64) float64) error {
	const bins = 256
	var cnt [bins]int
	tails := []float64{1.0 / 512, 1.0 / 1024, 1.0 / 2048, 1.0 / 4096, 1.0 / 8192, 1.0 / 16384}
	lo, hi := make([]int, len(tails)), make([]int, len(tails))
	for _, x := range xs {
		f := cdf(x)
		if !(f >= 0 && f <= 1) {
			return errf("%s: draw %v", what, x)
		}
		cnt[min(bins-1, int(f*bins))]++
		for k, p := range tails {
			if f >= p && 1-f >= p {
				break
			}
			if f < p {
				lo[k]++
			} else {
				hi[k]++
			}
		}
	}
	for k, v := range cnt {
		if err := checkFreq(fmt.Sprintf("%s: draws in bin %d of %d", what, k, bins), v, len(xs), 1.0/bins); err != nil {
			return err
		}
	}
	for k, p := range tails {
		if err := checkFreq(fmt.Sprintf("%s: draws in the lower tail of probability %v", what, p), lo[k], len(xs), p); err != nil {
			return err
		}
		if err := checkFreq(fmt.Sprintf("%s: draws in the upper tail of probability %v", what, p), hi[k], len(xs), p); err != nil {
			return err
		}
	}
	return nil
}

func evalDeep(ctx *eng.Ctx, c deepCase) error {
	ctx.NT()
	ctx.Label("deep %d", c.Kind)
	g := rand.NewLockedRand(c.Seed)
	p, a, b := float64(c.P), float64(c.A), float64(c.B)
	const n = 2000000
	seq := func(f func() float64) []float64 {
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = f()
		}
		return xs
	}
	blank := func() mat.Matrix {
		m := gen.Mat{R: c.R, C: c.C, D: make([]F, c.R*c.C)}
		return mk(c.DT, m, false)
	}
	switch c.Kind {
	case 0:
		return checkDeep("NormFloat64", seq(g.NormFloat64), normCDF(0, 1))
	case 1:
		return checkDeep("normal", seq(normal.New(b, a, g).Next), normCDF(a, b))
	case 2:
		return checkDeep("uniform", seq(uniform.New(a, a+b, g).Next), uniCDF(a, a+b))
	case 3:
		if c.DT == 32 {
			return checkDeep("Float32", seq(func() float64 { return float64(g.Float32()) }), uniCDF(0, 1))
		}
		return checkDeep("Float64", seq(g.Float64), uniCDF(0, 1))
	case 4:
		if c.DT == 32 {
			return checkDeep("Float[float32]", seq(func() float64 { return float64(rand.Float[float32]()) }), uniCDF(0, 1))
		}
		return checkDeep("Float[float64]", seq(rand.Float[float64]), uniCDF(0, 1))
	case 5: // bounded integers
		cnt := make([][]int, 4)
		for k := range cnt {
			cnt[k] = make([]int, c.N)
		}
		m := n / 4
		for i := 0; i < m; i++ {
			cnt[0][g.Intn(c.N)]++
			cnt[1][g.Int31n(int32(c.N))]++
			cnt[2][g.Int63n(int64(c.N))]++
			cnt[3][g.Uint64n(uint64(c.N))]++
		}
		for k := range cnt {
			for v, q := range cnt[k] {
				if err := checkFreq(fmt.Sprintf("integers below %d (kind %d): %d", c.N, k, v), q, m, 1/float64(c.N)); err != nil {
					return err
				}
			}
		}
		return nil
	case 6: // every permutation
		k := c.N%4 + 2
		cnt := map[string]int{}
		m := n / 10
		key := func(kind byte, p []int) string {
			s := []byte{kind}
			for _, v := range p {
				s = append(s, byte('0'+v))
			}
			return string(s)
		}
		for i := 0; i < m; i++ {
			cnt[key('p', g.Perm(k))]++
			q := iota0(k)
			g.Shuffle(k, func(i, j int) { q[i], q[j] = q[j], q[i] })
			cnt[key('s', q)]++
			cnt[key('i', rand.ShuffleInPlace(iota0(k), g))]++
			cnt[key('g', rand.ShuffleInPlace(iota0(k), nil))]++
		}
		f := 1
		for i := 2; i <= k; i++ {
			f *= i
		}
		if len(cnt) != 4*f {
			return errf("%d kinds of permutations of %d in %d draws of each of four functions", len(cnt), k, m)
		}
		for s, v := range cnt {
			if err := checkFreq("permutation "+s, v, m, 1/float64(f)); err != nil {
				return err
			}
		}
		return nil
	case 7: // a weighted choice with rare outcomes
		k := c.N%12 + 2
		w := make([]float64, k)
		var sum float64
		for i := range w {
			w[i] = math.Exp(-6 * hval(c.Seed, 1, i))
			sum += w[i]
		}
		for i := range w {
			w[i] /= sum
		}
		cnt := make([]int, k)
		m := n / 2
		w32 := make([]float32, k)
		for i := range w {
			w32[i] = float32(w[i])
		}
		for i := 0; i < m; i++ {
			if c.DT == 32 {
				cnt[rand.WeightedChoice(w32)]++
			} else {
				cnt[rand.WeightedChoice(w)]++
			}
		}
		for i, v := range cnt {
			// the rounding of the weights moves the probabilities by less than
			// one draw in m
			if d := math.Abs(float64(v) - float64(m)*w[i]); d > freqBound(m, w[i])+1 {
				return errf("WeightedChoice: outcome %d of probability %v chosen %d times of %d", i, w[i], v, m)
			}
		}
		return nil
	case 8:
		ones, total := 0, 0
		for total < n {
			var m mat.Matrix
			if c.DT == 32 {
				m = bernulli.Distribution(c.R, c.C, float32(p), g)
			} else {
				m = bernulli.Distribution(c.R, c.C, p, g)
			}
			for i, v := range vals(m) {
				if v != 0 && v != 1 {
					return errf("Bernoulli p=%v: element %d is %v", p, i, v)
				}
				ones += int(v)
			}
			total += c.R * c.C
		}
		return checkFreq(fmt.Sprintf("Bernoulli p=%v: ones", p), ones, total, 1-roundTo(c.DT, p))
	case 9:
		m := blank()
		initializers.Achlioptas(m, g)
		s3 := roundTo(c.DT, math.Sqrt(3))
		var cnt [3]int
		for i, v := range vals(m) {
			switch v {
			case 0:
				cnt[0]++
			case s3:
				cnt[1]++
			case -s3:
				cnt[2]++
			default:
				return errf("Achlioptas: element %d is %v", i, v)
			}
		}
		for k, p := range []float64{2.0 / 3, 1.0 / 6, 1.0 / 6} {
			if err := checkFreq(fmt.Sprintf("Achlioptas of %dx%d: value kind %d", c.R, c.C, k), cnt[k], c.R*c.C, p); err != nil {
				return err
			}
		}
		return nil
	case 10:
		m := blank()
		fan := float64(c.R + c.C)
		switch c.N % 4 {
		case 0:
			initializers.Uniform(m, a, a+b, g)
			return checkDeep("Uniform initialiser", vals(m), uniCDF(a, a+b))
		case 1:
			initializers.Normal(m, a, b, g)
			return checkDeep("Normal initialiser", vals(m), normCDF(a, b))
		case 2:
			initializers.XavierUniform(m, b, g)
			lim := b * math.Sqrt(6/fan)
			return checkDeep("XavierUniform", vals(m), uniCDF(-lim, lim))
		default:
			initializers.XavierNormal(m, b, g)
			return checkDeep("XavierNormal", vals(m), normCDF(0, b*math.Sqrt(2/fan)))
		}
	default:
		ag.ManualSeed(c.Seed)
		m := blank()
		initializers.Constant(m, 3)
		kept, total := 0, 0
		for total < n {
			for _, v := range vals(ag.Dropout(m, p).Value()) {
				if v != 0 {
					kept++
				}
			}
			total += c.R * c.C
		}
		return checkFreq(fmt.Sprintf("dropout p=%v: kept elements", p), kept, total, 1-p)
	}
}

func init() {
	eng.Register("C23", "deep", "every case: hundreds of thousands to millions of draws from one law", 150, 1500, genDeep, evalDeep)
}
