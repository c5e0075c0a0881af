package props

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"sync"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/dropout"
)

// Statistical bounds. Every bound is a finite-sample inequality with failure
// probability at most delta for a perfect generator, so that a case alarms by
// chance with probability below 1e-10.
const logTwoOverDelta = 32 // delta = 2 exp(-32) = 2.5e-14

// freqBound is Bernstein's bound on |count - n p|.
func freqBound(n int, p float64) float64 {
	const l = logTwoOverDelta
	return l/3.0 + math.Sqrt(l*l/9.0+2*float64(n)*p*(1-p)*l)
}

func checkFreq(what string, count, n int, p float64) error {
	if d := math.Abs(float64(count) - float64(n)*p); d > freqBound(n, p)+1e-9 {
		return errf("%s: %d of %d draws, expected about %.1f (+-%.1f)", what, count, n, float64(n)*p, freqBound(n, p))
	}
	return nil
}

// checkCDF compares the empirical distribution with cdf (Dvoretzky, Kiefer,
// Wolfowitz). slack is the discretisation step of the samples in terms of
// probability.
func checkCDF(what string, xs []float64, cdf func(float64) float64, slack float64) error {
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	n := float64(len(s))
	if n == 0 {
		return nil
	}
	lim := math.Sqrt(logTwoOverDelta/(2*n)) + slack
	for i, v := range s {
		f := cdf(v)
		if math.IsNaN(v) || math.Abs(f-float64(i)/n) > lim+1/n {
			return errf("%s: %v of %d draws are below %v where the distribution has %v (bound %v)", what, float64(i)/n, len(s), v, f, lim)
		}
	}
	return nil
}

func normCDF(mean, std float64) func(float64) float64 {
	return func(x float64) float64 { return 0.5 * math.Erfc(-(x-mean)/(std*math.Sqrt2)) }
}

func uniCDF(a, b float64) func(float64) float64 {
	return func(x float64) float64 { return math.Min(1, math.Max(0, (x-a)/(b-a))) }
}

// Seeds whose first uniform draw is within 2^-25 of 1 or of 0 with the PCG
// generator of this library: the places where rounding to float32 matters.
var edgeSeeds = []uint64{5529123, 26891332, 58935016, 184106508, 185029992, 67810626, 80183983, 92579558}

func genSeed(t *rapid.T) uint64 {
	switch gen.U(t, 8) {
	case 0:
		return edgeSeeds[gen.U(t, len(edgeSeeds))]
	case 1:
		return gen.Pick(t, uint64(0), 1, 2, 42, math.MaxUint64, 1<<63, 12345)
	case 2, 3:
		return uint64(gen.U(t, 1000))
	}
	return uint64(gen.U(t, 1<<30))<<32 ^ uint64(gen.U(t, 1<<30))
}

// ---- streams ----------------------------------------------------------

// drawOp is one call on a generator.
type drawOp struct {
	G    int    // generator
	Kind int    // see draw
	N    uint64 `json:",omitempty"`
}

const drawKinds = 17

func genDraw(t *rapid.T, gens int) drawOp {
	o := drawOp{G: gen.U(t, gens), Kind: gen.U(t, drawKinds)}
	switch gen.U(t, 6) {
	case 0:
		o.N = gen.Pick(t, uint64(1), 2, 1<<31-1, 1<<31, 1<<32+1, 3<<61, 1<<63-1, 1<<62+1)
	case 1:
		o.N = uint64(gen.UInt(t, 1, 1<<20))
	default:
		o.N = uint64(gen.UInt(t, 1, 24))
	}
	return o
}

// draw performs the call; the result determines everything it returned. Out
// of range results are errors.
func draw(g *rand.LockedRand, o drawOp) (string, error) {
	in := func(v, lo, hi float64) error {
		if !(v >= lo && v < hi) {
			return errf("draw kind %d(%d): %v is outside [%v, %v)", o.Kind, o.N, v, lo, hi)
		}
		return nil
	}
	i63 := int64(min(o.N, 1<<63-1))
	i31 := int32(min(o.N, 1<<31-1))
	size := int(o.N % 40)
	switch o.Kind {
	case 0:
		return fmt.Sprint(g.Uint64()), nil
	case 1:
		v := g.Int63()
		return fmt.Sprint(v), in(float64(v), 0, math.Inf(1))
	case 2:
		return fmt.Sprint(g.Uint32()), nil
	case 3:
		v := g.Int31()
		return fmt.Sprint(v), in(float64(v), 0, 1<<31)
	case 4:
		v := g.Int()
		return fmt.Sprint(v), in(float64(v), 0, math.Inf(1))
	case 5:
		v := g.Uint64n(o.N)
		if v >= o.N {
			return "", errf("Uint64n(%d) gives %d", o.N, v)
		}
		return fmt.Sprint(v), nil
	case 6:
		v := g.Int63n(i63)
		if v < 0 || v >= i63 {
			return "", errf("Int63n(%d) gives %d", i63, v)
		}
		return fmt.Sprint(v), nil
	case 7:
		v := g.Int31n(i31)
		if v < 0 || v >= i31 {
			return "", errf("Int31n(%d) gives %d", i31, v)
		}
		return fmt.Sprint(v), nil
	case 8:
		n := int(min(i63, int64(math.MaxInt)))
		v := g.Intn(n)
		if v < 0 || v >= n {
			return "", errf("Intn(%d) gives %d", n, v)
		}
		return fmt.Sprint(v), nil
	case 9:
		v := g.Float32()
		return fmt.Sprint(math.Float32bits(v)), in(float64(v), 0, 1)
	case 10:
		v := g.Float64()
		return fmt.Sprint(math.Float64bits(v)), in(v, 0, 1)
	case 11:
		v := g.NormFloat64()
		return fmt.Sprint(math.Float64bits(v)), in(v, -40, 40)
	case 12:
		p := g.Perm(size)
		return fmt.Sprint(p), isPerm(p, size)
	case 13:
		b := make([]byte, size)
		n, err := g.Read(b)
		if n != size || err != nil {
			return "", errf("Read of %d bytes gives %d, %v", size, n, err)
		}
		return fmt.Sprint(b), nil
	case 14:
		p := iota0(size)
		g.Shuffle(size, func(i, j int) { p[i], p[j] = p[j], p[i] })
		return fmt.Sprint(p), isPerm(p, size)
	case 15:
		a, b := g.TwoInt63()
		if err := in(float64(min(a, b)), 0, math.Inf(1)); err != nil {
			return "", err
		}
		return fmt.Sprint(a, b), nil
	default:
		p := iota0(size)
		q := rand.ShuffleInPlace(p, g)
		if size > 0 && &q[0] != &p[0] {
			return "", errf("ShuffleInPlace returns another slice")
		}
		return fmt.Sprint(p), isPerm(p, size)
	}
}

func iota0(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

func isPerm(p []int, n int) error {
	seen := make([]bool, n)
	for _, v := range p {
		if v < 0 || v >= n || seen[v] {
			return errf("%v is not a permutation of 0..%d", p, n-1)
		}
		seen[v] = true
	}
	if len(p) != n {
		return errf("%v is not a permutation of 0..%d", p, n-1)
	}
	return nil
}

type streamCase struct {
	Seeds  []uint64
	Ops    []drawOp
	Reseed int  // generator 0 is re-seeded with its seed after this many operations
	Other  bool // the global generators are used in between
	Procs  bool // ... by other goroutines
}

func genStreams(t *rapid.T) streamCase {
	c := streamCase{Other: gen.Bool(t), Procs: gen.Chance(t, 15)}
	c.Seeds = gen.List(t, 1, 4, genSeed)
	c.Ops = gen.List(t, 1, 40, func(t *rapid.T) drawOp { return genDraw(t, len(c.Seeds)) })
	c.Reseed = gen.U(t, len(c.Ops)+1)
	return c
}

func useGlobals() {
	rand.Float[float32]()
	rand.Float[float64]()
	rand.ShuffleInPlace([]int{1, 2, 3}, nil)
	rand.WeightedChoice([]float64{0.5, 0.5})
	ag.Rand().Float64()
}

func evalStreams(ctx *eng.Ctx, c streamCase) error {
	gens := make([]*rand.LockedRand, len(c.Seeds))
	for i, s := range c.Seeds {
		gens[i] = rand.NewLockedRand(s)
	}
	var wg sync.WaitGroup
	if c.Procs {
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := rand.NewLockedRand(c.Seeds[0])
				for i := 0; i < 60; i++ {
					useGlobals()
					o.Uint64()
				}
			}()
		}
	}
	type rec struct {
		op  drawOp
		res string
	}
	logs := make([][]rec, len(gens))
	reseedAt := -1
	for i, o := range c.Ops {
		if i == c.Reseed {
			gens[0].Seed(c.Seeds[0])
			reseedAt = len(logs[0])
		}
		if c.Other {
			useGlobals()
		}
		r, err := draw(gens[o.G], o)
		if err != nil {
			wg.Wait()
			return err
		}
		logs[o.G] = append(logs[o.G], rec{o, r})
	}
	wg.Wait()
	ctx.NTIf(len(c.Ops) > 4)
	for k, lg := range logs {
		g := rand.NewLockedRand(c.Seeds[k])
		for i, r := range lg {
			if k == 0 && i == reseedAt {
				g = rand.NewLockedRand(c.Seeds[0])
			}
			got, err := draw(g, r.op)
			if err != nil {
				return err
			}
			if got != r.res {
				return errf("generator %d (seed %d): call %d (kind %d, n %d) gave %s when interleaved with other generators and %s alone", k, c.Seeds[k], i, r.op.Kind, r.op.N, r.res, got)
			}
		}
	}
	// different seeds must not give one stream
	for i := range c.Seeds {
		for j := range i {
			a, b := rand.NewLockedRand(c.Seeds[i]), rand.NewLockedRand(c.Seeds[j])
			same := true
			for k := 0; k < 4; k++ {
				same = a.Uint64() == b.Uint64() && same
			}
			if same != (c.Seeds[i] == c.Seeds[j]) {
				return errf("seeds %d and %d: identical streams is %v", c.Seeds[i], c.Seeds[j], same)
			}
		}
	}
	return nil
}

// ---- laws ---------------------------------------------------------------

type lawCase struct {
	Seed uint64
	Kind int
	N    uint64
	A, B F
}

func genLaw(t *rapid.T) lawCase {
	c := lawCase{Seed: genSeed(t), Kind: gen.U(t, 13)}
	switch gen.U(t, 4) {
	case 0:
		c.N = gen.Pick(t, uint64(3)<<61, 1<<63+1<<62, 1<<63-1, 1<<31-1, 1<<32+1<<31, 1<<62+1<<61)
	case 1:
		c.N = uint64(gen.UInt(t, 2, 1000))
	default:
		c.N = uint64(gen.UInt(t, 1, 9))
	}
	c.A = F(gen.LogUniform(t, -3, 3))
	c.B = F(gen.LogPos(t, -3, 3))
	c.A, c.B = extremeScale(t, c.A, c.B)
	return c
}

// extremeScale sometimes replaces a location and a scale by tiny or huge ones.
func extremeScale(t *rapid.T, a, b F) (F, F) {
	if !gen.Chance(t, 6) {
		return a, b
	}
	b = F(gen.LogPos(t, -15, 12))
	return b * F(gen.Pick(t, 0.0, -1, 0.5)), b
}

func evalLaw(ctx *eng.Ctx, c lawCase) error {
	ctx.NT()
	g := rand.NewLockedRand(c.Seed)
	const n = 3000
	xs := make([]float64, n)
	fill := func(f func() float64) []float64 {
		for i := range xs {
			xs[i] = f()
		}
		return xs
	}
	i63 := int64(min(c.N, 1<<63-1))
	i31 := int32(min(c.N, 1<<31-1))
	nn := float64(c.N)
	discrete := func(what string, n float64, f func() float64) error {
		fill(f)
		cdf := func(x float64) float64 { return x / n } // P(X < x)
		if err := checkCDF(what, xs, cdf, 1/n); err != nil {
			return err
		}
		if n > 64 {
			return distinctEnough(what, xs, n)
		}
		cnt := make([]int, int(n))
		pairs := make([]int, int(n*n))
		for i, v := range xs {
			cnt[int(v)]++
			if i%2 == 1 {
				pairs[int(xs[i-1])*int(n)+int(v)]++
			}
		}
		for v, k := range cnt {
			if err := checkFreq(fmt.Sprintf("%s: value %d", what, v), k, len(xs), 1/n); err != nil {
				return err
			}
		}
		for v, k := range pairs {
			if err := checkFreq(fmt.Sprintf("%s: pair (%d, %d)", what, v/int(n), v%int(n)), k, len(xs)/2, 1/(n*n)); err != nil {
				return err
			}
		}
		return nil
	}
	cont := func(what string, cdf func(float64) float64, f func() float64) error {
		fill(f)
		if err := checkCDF(what, xs, cdf, 0); err != nil {
			return err
		}
		// neighbouring draws are independent
		var q [16]int
		for i := 0; i+1 < n; i += 2 {
			q[min(3, int(4*cdf(xs[i])))*4+min(3, int(4*cdf(xs[i+1])))]++
		}
		for k, v := range q {
			if err := checkFreq(fmt.Sprintf("%s: quartile pair (%d, %d)", what, k/4, k%4), v, n/2, 1.0/16); err != nil {
				return err
			}
		}
		return nil
	}
	ctx.Label("law %d", c.Kind)
	switch c.Kind {
	case 0:
		return discrete(fmt.Sprintf("Uint64n(%d)", c.N), nn, func() float64 { return float64(g.Uint64n(c.N)) })
	case 1:
		return discrete(fmt.Sprintf("Int63n(%d)", i63), float64(i63), func() float64 { return float64(g.Int63n(i63)) })
	case 2:
		return discrete(fmt.Sprintf("Int31n(%d)", i31), float64(i31), func() float64 { return float64(g.Int31n(i31)) })
	case 3:
		m := int(min(i63, int64(math.MaxInt)))
		return discrete(fmt.Sprintf("Intn(%d)", m), float64(m), func() float64 { return float64(g.Intn(m)) })
	case 4:
		if err := cont("Float64", uniCDF(0, 1), g.Float64); err != nil {
			return err
		}
		return distinctEnough("Float64", xs, 1<<53)
	case 5:
		if err := cont("Float32", uniCDF(0, 1), func() float64 { return float64(g.Float32()) }); err != nil {
			return err
		}
		return distinctEnough("Float32", xs, 1<<24)
	case 6:
		if err := cont("NormFloat64", normCDF(0, 1), g.NormFloat64); err != nil {
			return err
		}
		return distinctEnough("NormFloat64", xs, 1<<26)
	case 7: // bits of the integer draws
		for b := 0; b < 64; b++ {
			var a [6]int
			h := rand.NewLockedRand(c.Seed + uint64(b))
			for i := 0; i < 300; i++ {
				a[0] += int(h.Uint64() >> b & 1)
				a[1] += int(uint64(h.Int63()) >> b & 1)
				a[2] += int(uint64(h.Uint32()) >> b & 1)
				a[3] += int(uint64(h.Int31()) >> b & 1)
				a[4] += int(uint64(h.Int()) >> b & 1)
				x, y := h.TwoInt63()
				a[5] += int(uint64(x^y) >> b & 1)
			}
			for k, w := range []int{64, 63, 32, 31, bits.UintSize - 1, 63} {
				p := 0.5
				if b >= w {
					p = 0
				}
				if err := checkFreq(fmt.Sprintf("bit %d of integer draw kind %d", b, k), a[k], 300, p); err != nil {
					return err
				}
				if p == 0 && a[k] != 0 {
					return errf("bit %d of integer draw kind %d is set", b, k)
				}
			}
		}
		return nil
	case 8: // permutations: every value at every place
		m := int(c.N%9) + 1
		cnt := make([]int, m*m*3)
		for r := 0; r < 800; r++ {
			p := g.Perm(m)
			q := iota0(m)
			g.Shuffle(m, func(i, j int) { q[i], q[j] = q[j], q[i] })
			s := rand.ShuffleInPlace(iota0(m), nil)
			for i := range p {
				cnt[i*m+p[i]]++
				cnt[m*m+i*m+q[i]]++
				cnt[2*m*m+i*m+s[i]]++
			}
		}
		for k, v := range cnt {
			if err := checkFreq(fmt.Sprintf("permutation kind %d of %d: value %d at place %d", k/(m*m), m, k%m, k/m%m), v, 800, 1/float64(m)); err != nil {
				return err
			}
		}
		return nil
	case 9:
		a, b := float64(c.A), float64(c.A)+float64(c.B)
		u := uniform.New(a, b, g)
		if err := cont(fmt.Sprintf("uniform [%v, %v)", a, b), uniCDF(a, b), u.Next); err != nil {
			return err
		}
		for _, v := range xs {
			if slack := 4 * eps64 * math.Max(math.Abs(a), math.Abs(b)); v < a-slack || v > b+slack {
				return errf("uniform [%v, %v): draw %v", a, b, v)
			}
		}
		return nil
	case 10:
		return cont("normal", normCDF(float64(c.A), float64(c.B)), normal.New(float64(c.B), float64(c.A), g).Next)
	case 11:
		if err := cont("Float[float32]", uniCDF(0, 1), func() float64 { return float64(rand.Float[float32]()) }); err != nil {
			return err
		}
		for _, v := range xs {
			if !(v >= 0 && v < 1) {
				return errf("Float[float32] gives %v", v)
			}
		}
		return nil
	default:
		if err := cont("Float[float64]", uniCDF(0, 1), rand.Float[float64]); err != nil {
			return err
		}
		for _, v := range xs {
			if !(v >= 0 && v < 1) {
				return errf("Float[float64] gives %v", v)
			}
		}
		return distinctEnough("Float[float64]", xs, 1<<53)
	}
}

// distinctEnough bounds the number of coinciding draws from about size
// equally likely values.
func distinctEnough(what string, xs []float64, size float64) error {
	m := map[float64]struct{}{}
	for _, v := range xs {
		m[v] = struct{}{}
	}
	n := float64(len(xs))
	size = math.Min(size, 1<<53)
	// the number of repetitions is dominated by a sum with mean n^2/(2 size)
	mean := n * n / (2 * size)
	if rep := n - float64(len(m)); rep > mean+math.Sqrt(2*mean*logTwoOverDelta)+logTwoOverDelta {
		return errf("%s: only %d distinct values in %d draws from %v", what, len(m), len(xs), size)
	}
	return nil
}

// ---- choices --------------------------------------------------------------

type choiceCase struct {
	Kind  int // 0 unique ints, 1 unique indices, 2 weighted choice, 3 shuffle
	N     int
	Max   int
	Idx   []int
	Ban   []int // values rejected by the validity predicate
	W     []F
	DT    int
	Draws int
	Seed  uint64
	Glob  bool // shuffle with the global source
}

func genChoice(t *rapid.T) choiceCase {
	c := choiceCase{Kind: gen.U(t, 4), DT: gen.DT(t)}
	switch c.Kind {
	case 3:
		c.Idx = gen.List(t, 0, 9, func(t *rapid.T) int { return gen.UInt(t, -9, 9) })
		c.Seed, c.Glob = genSeed(t), gen.Chance(t, 40)
	case 0:
		c.Max = gen.UInt(t, 1, 12)
		if gen.Chance(t, 3) {
			c.Max = gen.UInt(t, 100, gen.Pick(t, 1000, 5000))
		}
		c.Ban = gen.List(t, 0, 4, func(t *rapid.T) int { return gen.U(t, 12) })
		n := 0
		for v := 0; v < c.Max; v++ {
			if !hasInt(c.Ban, v) {
				n++
			}
		}
		c.N = gen.U(t, n+1)
		if gen.Chance(t, 40) && n < 1000 {
			c.N = n
		}
	case 1:
		c.Max = gen.UInt(t, 1, 10)
		base := gen.UInt(t, -5, 5)
		for i := 0; i < c.Max; i++ {
			c.Idx = append(c.Idx, base+i*gen.UInt(t, 1, 2)*1)
			if i > 0 && c.Idx[i] <= c.Idx[i-1] {
				c.Idx[i] = c.Idx[i-1] + 1
			}
		}
		c.Ban = gen.List(t, 0, 4, func(t *rapid.T) int { return gen.UInt(t, -5, 12) })
		n := 0
		for _, v := range c.Idx {
			if !hasInt(c.Ban, v) {
				n++
			}
		}
		c.N = gen.U(t, n+1)
		if gen.Chance(t, 40) {
			c.N = n
		}
	default:
		c.W = gen.List(t, 1, 8, func(t *rapid.T) F { return F(gen.Pick(t, 0, 1, 1, 2, 5, gen.LogPos(t, -2, 1))) })
		var s float64
		for _, w := range c.W {
			s += float64(w)
		}
		if s == 0 {
			c.W[0], s = 1, 1
		}
		for i := range c.W {
			c.W[i] = F(roundTo(c.DT, float64(c.W[i])/s))
		}
	}
	return c
}

func hasInt(xs []int, x int) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

func evalChoice(ctx *eng.Ctx, c choiceCase) error {
	ctx.Label("kind %d", c.Kind)
	if c.Kind == 3 {
		return evalShuffle(ctx, c)
	}
	if c.Kind == 2 {
		ctx.NTIf(len(c.W) > 1)
		const n = 1500
		cnt := make([]int, len(c.W))
		w32 := make([]float32, len(c.W))
		w64 := make([]float64, len(c.W))
		for i, w := range c.W {
			w32[i], w64[i] = float32(w), float64(w)
		}
		for k := 0; k < n; k++ {
			var i int
			if c.DT == 32 {
				i = rand.WeightedChoice(w32)
			} else {
				i = rand.WeightedChoice(w64)
			}
			if i < 0 || i >= len(c.W) {
				return errf("WeightedChoice of %d weights gives %d", len(c.W), i)
			}
			cnt[i]++
		}
		for i, k := range cnt {
			// index 0 also takes what rounding leaves of the unit interval
			if c.W[i] == 0 && i > 0 && k > 0 {
				return errf("WeightedChoice(%v) chose %d, which has probability 0", c.W, i)
			}
			if err := checkFreq(fmt.Sprintf("WeightedChoice(%v): %d", c.W, i), k, n, math.Min(1, float64(c.W[i]))); err != nil {
				return err
			}
		}
		return nil
	}
	valid := func(r int) bool { return !hasInt(c.Ban, r) }
	var pool []int
	if c.Kind == 0 {
		pool = iota0(c.Max)
	} else {
		pool = append(pool, c.Idx...)
	}
	adm := map[int]int{}
	for _, v := range pool {
		if valid(v) {
			adm[v] = 0
		}
	}
	ctx.NTIf(c.N > 0)
	draws := 60
	if len(pool) > 12 {
		draws = 8
	}
	bins := map[string]int{} // of the admitted values: parity, half
	bin := func(v int) []string {
		return []string{fmt.Sprintf("v mod 2 = %d", mod(v, 2)), fmt.Sprintf("v mod 3 = %d", mod(v, 3)), fmt.Sprintf("quarter %d", v*4/max(1, c.Max))}
	}
	inBin := map[string]int{}
	if len(pool) > 12 {
		for v := range adm {
			for _, b := range bin(v) {
				inBin[b]++
			}
		}
	}
	for k := 0; k < draws; k++ {
		var got []int
		if c.Kind == 0 {
			got = rand.GetUniqueRandomInt(c.N, c.Max, valid)
		} else {
			idx := append([]int(nil), c.Idx...)
			got = rand.GetUniqueRandomIndices(c.N, idx, valid)
			sort.Ints(idx)
			for i := range idx {
				if idx[i] != c.Idx[i] {
					return errf("GetUniqueRandomIndices changed the candidates %v to %v", c.Idx, idx)
				}
			}
		}
		if len(got) != c.N {
			return errf("%d values requested, %d returned", c.N, len(got))
		}
		seen := map[int]bool{}
		for _, v := range got {
			if _, ok := adm[v]; !ok || seen[v] {
				return errf("choice %v of %d from %v without %v", got, c.N, pool, c.Ban)
			}
			seen[v] = true
			adm[v]++
			if len(pool) > 12 {
				for _, b := range bin(v) {
					bins[b]++
				}
			}
		}
	}
	if len(pool) > 12 {
		// drawn without replacement, so varying less than independent draws
		for b, n := range inBin {
			if err := checkFreq(fmt.Sprintf("unique choice of %d below %d without %v: %s", c.N, c.Max, c.Ban, b), bins[b], draws*c.N, float64(n)/float64(len(adm))); err != nil {
				return err
			}
		}
		return nil
	}
	for v, k := range adm {
		if err := checkFreq(fmt.Sprintf("unique choice of %d from %v without %v: value %d", c.N, pool, c.Ban, v), k, draws, float64(c.N)/float64(len(adm))); err != nil {
			return err
		}
	}
	return nil
}

// evalShuffle: a shuffle permutes the given slice in place, a seed fixes the
// sequence of permutations, and every position is as likely to receive any of
// the elements.
func evalShuffle(ctx *eng.Ctx, c choiceCase) error {
	n := len(c.Idx)
	ctx.NTIf(n > 1)
	var a, b *rand.LockedRand
	if !c.Glob {
		a, b = rand.NewLockedRand(c.Seed), rand.NewLockedRand(c.Seed)
	}
	const draws = 300
	at := make([][]int, n) // at[i][j]: how often the element at i moved to j
	for i := range at {
		at[i] = make([]int, n)
	}
	pos := iota0(n) // distinct elements
	back := make([]int, n+2)
	for k := 0; k < draws; k++ {
		xs := back[1 : 1+n]
		back[0], back[n+1] = -77, -78
		src := c.Idx
		if k > 0 {
			src = pos
		}
		copy(xs, src)
		ys := rand.ShuffleInPlace(xs, a)
		if len(ys) != n || n > 0 && &ys[0] != &xs[0] {
			return errf("ShuffleInPlace does not return the given slice")
		}
		if back[0] != -77 || back[n+1] != -78 {
			return errf("ShuffleInPlace wrote outside the slice")
		}
		s, w := append([]int(nil), xs...), append([]int(nil), src...)
		sort.Ints(s)
		sort.Ints(w)
		for i := range s {
			if s[i] != w[i] {
				return errf("ShuffleInPlace of %v gives %v", src, xs)
			}
		}
		if b != nil {
			zs := rand.ShuffleInPlace(append([]int(nil), src...), b)
			for i := range zs {
				if zs[i] != xs[i] {
					return errf("shuffles %d with the same seed %d differ: %v and %v", k, c.Seed, xs, zs)
				}
			}
		}
		if k > 0 {
			for j, i := range xs {
				at[i][j]++
			}
		}
	}
	if b != nil && !c.Glob {
		if x, y := a.Uint64(), b.Uint64(); x != y {
			return errf("generators of the same seed differ after the same shuffles")
		}
	}
	for i := range at {
		for j, k := range at[i] {
			if err := checkFreq(fmt.Sprintf("shuffle of %d elements: %d to %d", n, i, j), k, draws-1, 1/float64(n)); err != nil {
				return err
			}
		}
	}
	return nil
}

// tailCase is a long distribution whose sum, accumulated with rounding, stays
// below one.
type tailCase struct {
	Zeros, N int
	After    int
}

// evalTail: an outcome of probability zero is never chosen, whatever rounding
// leaves of the unit interval.
func evalTail(ctx *eng.Ctx, c tailCase) error {
	w := make([]float32, c.Zeros+c.N+c.After)
	var sum float32
	for i := 0; i < c.N; i++ {
		w[c.Zeros+i] = 1 / float32(c.N)
		sum += w[c.Zeros+i]
	}
	ctx.NTIf(sum < 1-1e-6)
	ctx.Label("gap above 1e-5: %v", sum < 1-1e-5)
	draws := 400000000 / len(w) / 10
	for k := 0; k < draws; k++ {
		if i := rand.WeightedChoice(w); i < 0 || i >= len(w) || w[i] == 0 {
			return errf("WeightedChoice chose %d, which has probability 0, among %d+%d zeros and %d weights 1/%d", i, c.Zeros, c.After, c.N, c.N)
		}
	}
	return nil
}

// ---- initialisers ---------------------------------------------------------

type initCase struct {
	Kind int
	DT   int
	R, C int
	A, B F
	Seed uint64
	Act  int
}

func genInit(t *rapid.T) initCase {
	c := initCase{Kind: gen.U(t, 9), DT: gen.DT(t), Seed: genSeed(t)}
	c.R, c.C = gen.Ext(t, 0, 20, 150), gen.Ext(t, 0, 20, 150)
	c.A, c.B = F(gen.LogUniform(t, -2, 2)), F(gen.LogPos(t, -2, 2))
	if gen.Chance(t, 15) {
		c.A, c.B = 0, 1
	}
	c.A, c.B = extremeScale(t, c.A, c.B)
	c.Act = gen.U(t, 25)
	return c
}

func evalInit(ctx *eng.Ctx, c initCase) error {
	ctx.Label("kind %d", c.Kind)
	a, b := float64(c.A), float64(c.B)
	fresh := func() mat.Matrix {
		m := gen.Mat{R: c.R, C: c.C, D: make([]F, c.R*c.C)}
		for i := range m.D {
			m.D[i] = F(math.NaN())
		}
		return mk(c.DT, m, false)
	}
	wantGain := 1.0
	act := activation.Activation(c.Act)
	switch act {
	case activation.ReLU:
		wantGain = math.Sqrt2
	case activation.Tanh:
		wantGain = 5.0 / 3
	}
	if g := initializers.Gain(act); math.Abs(g-wantGain) > 1e-12 {
		return errf("Gain(%v) = %v, want %v", act, g, wantGain)
	}
	n := c.R * c.C
	fan := float64(c.R + c.C)
	var run func(m mat.Matrix, g *rand.LockedRand) mat.Matrix
	var cdf func(float64) float64
	lo, hi := math.Inf(-1), math.Inf(1)
	var fixed *float64
	switch c.Kind {
	case 0:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Uniform(m, a, a+b, g) }
		cdf, lo, hi = uniCDF(a, a+b), a, a+b
	case 1:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Normal(m, a, b, g) }
		cdf = normCDF(a, b)
	case 2:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Constant(m, a) }
		fixed = &a
	case 3:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Ones(m) }
		one := 1.0
		fixed = &one
	case 4:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Zeros(m) }
		zero := 0.0
		fixed = &zero
	case 5, 8:
		lim := b * math.Sqrt(6/fan)
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierUniform(m, b, g) }
		cdf, lo, hi = uniCDF(-lim, lim), -lim, lim
	case 6:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierNormal(m, b, g) }
		cdf = normCDF(0, b*math.Sqrt(2/fan))
	default:
		run = func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Achlioptas(m, g) }
	}
	ctx.NTIf(n > 1 && fixed == nil)
	m := fresh()
	out := run(m, rand.NewLockedRand(c.Seed))
	if out != m {
		return errf("the initialiser does not return the given matrix")
	}
	if !shapeIs(m, c.R, c.C) {
		return errf("shape %v, want %v", m.Shape(), []int{c.R, c.C})
	}
	if dtOf(m) != c.DT {
		return errf("element type changed")
	}
	xs := vals(m)
	again := fresh()
	run(again, rand.NewLockedRand(c.Seed))
	ys := vals(again)
	diff := fresh()
	run(diff, rand.NewLockedRand(c.Seed+1))
	zs := vals(diff)
	samez := 0
	for i := range xs {
		if math.IsNaN(xs[i]) {
			return errf("element %d was not initialised", i)
		}
		if xs[i] != ys[i] {
			return errf("the same seed gives %v and %v at element %d", xs[i], ys[i], i)
		}
		if xs[i] == zs[i] {
			samez++
		}
		if fixed != nil && xs[i] != roundTo(c.DT, *fixed) {
			return errf("element %d is %v, want %v", i, xs[i], *fixed)
		}
		// rounding to the element type may reach the excluded end and half a
		// step beyond
		if sl := 2 * epsOf(c.DT) * math.Max(math.Abs(lo), math.Abs(hi)); cdf != nil && !math.IsInf(lo, 0) && !(xs[i] >= lo-sl && xs[i] <= hi+sl) {
			return errf("element %d is %v, outside [%v, %v]", i, xs[i], lo, hi)
		}
	}
	if fixed != nil {
		return nil
	}
	if c.Kind == 7 {
		s3 := roundTo(c.DT, math.Sqrt(3))
		cnt := [3]int{}
		for i, v := range xs {
			switch v {
			case 0:
				cnt[0]++
			case s3:
				cnt[1]++
			case -s3:
				cnt[2]++
			default:
				return errf("Achlioptas: element %d is %v", i, v)
			}
		}
		for k, p := range []float64{2.0 / 3, 1.0 / 6, 1.0 / 6} {
			if err := checkFreq(fmt.Sprintf("Achlioptas: value kind %d", k), cnt[k], n, p); err != nil {
				return err
			}
		}
		return checkFreq("Achlioptas: elements equal under another seed", samez, n, 0.5)
	}
	// float32 elements stand for an interval of values
	slack := 0.0
	if c.DT == 32 {
		slack = 4 * eps32 * (1 + math.Abs(a)/b)
	}
	if err := checkCDF(fmt.Sprintf("initialiser kind %d of %dx%d", c.Kind, c.R, c.C), xs, cdf, slack); err != nil {
		return err
	}
	size := float64(1 << 26)
	if c.DT == 32 {
		size = float64(1<<22) / (1 + math.Abs(a)/b)
	}
	if err := distinctEnough(fmt.Sprintf("initialiser kind %d", c.Kind), xs, size); err != nil {
		return err
	}
	if samez > n/4+8 {
		return errf("%d of %d elements are the same under another seed", samez, n)
	}
	return nil
}

// ---- dropout ----------------------------------------------------------------

type dropCase struct {
	DT    int
	Xs    []gen.Mat
	P     F
	Seed  uint64
	Model bool
	Func  bool
	Grad  []bool
	Gy    F
	// Same: one tensor is the input at every place.
	Same bool `json:",omitempty"`
}

func genDrop(t *rapid.T) dropCase {
	c := dropCase{DT: gen.DT(t), Seed: genSeed(t), Model: gen.Bool(t), Func: gen.Bool(t)}
	c.P = F(gen.Pick(t, gen.Unit(t), gen.Unit(t), 0.5, 0.1, 0.25, 0, 1, 0.999, 1e-3, math.Nextafter(1, 0), 1e-300))
	el := func(t *rapid.T) float64 {
		v := gen.Generic(t, 4)
		if v == 0 {
			v = 1
		}
		return v
	}
	hi := 12
	if gen.Chance(t, 30) {
		hi = 70
	}
	c.Xs = gen.List(t, 1, 3, func(t *rapid.T) gen.Mat {
		return gen.MatOf(t, gen.Ext(t, 1, hi, 2*hi), gen.Ext(t, 1, hi, 2*hi), el)
	})
	c.Grad = gen.List(t, 1, 3, gen.Bool)
	c.Gy = F(gen.Pick(t, 1, -2.5, 0.3))
	if c.Same = gen.Chance(t, 5); c.Same {
		for len(c.Xs) < 3 {
			c.Xs = append(c.Xs, c.Xs[0])
		}
		for i := range c.Xs {
			c.Xs[i] = c.Xs[0]
		}
		c.Grad = c.Grad[:1]
	}
	return c
}

func evalDrop(ctx *eng.Ctx, c dropCase) error {
	p := float64(c.P)
	q := 1 - p
	type res struct{ y, gx []float64 }
	var xsv [][]float64
	run := func() ([]res, error) {
		ag.ManualSeed(c.Seed)
		var xs []mat.Tensor
		xsv = nil
		for i, x := range c.Xs {
			m := mk(c.DT, x, c.Grad[i%len(c.Grad)])
			if c.Same && i > 0 {
				m = xs[0].(mat.Matrix)
			}
			xs = append(xs, m)
			xsv = append(xsv, vals(m))
		}
		var ys []mat.Tensor
		switch {
		case c.Model:
			ys = dropout.New(p).Forward(xs...)
		case c.Func:
			ys = ag.Map(ag.DropoutFunc(p), xs)
		default:
			for _, x := range xs {
				ys = append(ys, ag.Dropout(x, p))
			}
		}
		if len(ys) != len(xs) {
			return nil, errf("%d outputs for %d inputs", len(ys), len(xs))
		}
		var out []res
		for i, y := range ys {
			if !shapeIs(y, c.Xs[i].R, c.Xs[i].C) {
				return nil, errf("shape %v, want %v", y.Shape(), []int{c.Xs[i].R, c.Xs[i].C})
			}
			if dtOf(y) != c.DT {
				return nil, errf("the output has another element type")
			}
			r := res{y: vals(y)}
			want := c.Grad[i%len(c.Grad)]
			if y.RequiresGrad() != want {
				return nil, errf("output %d: RequiresGrad is %v, the input's is %v", i, y.RequiresGrad(), want)
			}
			if want {
				gy := gen.Mat{R: c.Xs[i].R, C: c.Xs[i].C, D: make([]F, len(c.Xs[i].D))}
				for k := range gy.D {
					gy.D[k] = c.Gy * F(1+k%3)
				}
				if c.Same {
					xs[i].ZeroGrad()
				}
				y.AccGrad(mk(c.DT, gy, false))
				if err := ag.Backward(y); err != nil {
					return nil, err
				}
				if !xs[i].HasGrad() {
					return nil, errf("input %d has no gradient", i)
				}
				r.gx = vals(xs[i].Grad())
			}
			if !y.RequiresGrad() && xs[i].HasGrad() {
				return nil, errf("input %d does not require a gradient but has one", i)
			}
			out = append(out, r)
			for k, v := range vals(xs[i]) {
				if v != xsv[i][k] {
					return nil, errf("dropout changed its input")
				}
			}
		}
		return out, nil
	}
	r1, err := run()
	if err != nil {
		return err
	}
	r2, err := run()
	if err != nil {
		return err
	}
	eps := epsOf(c.DT)
	n := 0
	kept := 0
	pairs, differ := 0, 0
	ctx.NTIf(p > 0 && p < 1)
	for i, r := range r1 {
		mask := make([]bool, len(r.y))
		for k, y := range r.y {
			if y != r2[i].y[k] {
				return errf("the same seed gives %v and then %v at element %d of input %d", y, r2[i].y[k], k, i)
			}
			x := xsv[i][k]
			want := x / q
			switch {
			case y == 0:
			case math.Abs(y-want) <= 4*eps*math.Abs(want) && p < 1:
				mask[k] = true
				kept++
			case math.IsInf(y, 0) && math.Abs(want) > maxOf(c.DT):
				mask[k] = true
				kept++
			default:
				return errf("dropout p=%v: element %v became %v, want 0 or %v", p, x, y, want)
			}
			n++
			if r.gx != nil {
				gy := roundTo(c.DT, float64(c.Gy*F(1+k%3)))
				wg := 0.0
				if mask[k] {
					wg = gy / q
				}
				if r.gx[k] != r2[i].gx[k] && r.gx[k] == r.gx[k] {
					return errf("gradients differ under the same seed")
				}
				if d := math.Abs(r.gx[k] - wg); !(d <= 4*eps*math.Abs(wg)) && !(math.IsInf(r.gx[k], 0) && math.Abs(wg) > maxOf(c.DT)) {
					return errf("dropout p=%v: gradient %v at element %d (kept: %v), want %v", p, r.gx[k], k, mask[k], wg)
				}
			}
		}
		if p == 0 {
			continue
		}
		// neighbours in a row, in a column, and in the next input are independent
		cc := c.Xs[i].C
		for k := range mask {
			if k%cc%2 == 1 {
				pairs++
				if mask[k] != mask[k-1] {
					differ++
				}
			}
		}
		var vp, vd int
		for k := range mask {
			if k/cc%2 == 1 {
				vp++
				if mask[k] != mask[k-cc] {
					vd++
				}
			}
		}
		if err := checkFreq(fmt.Sprintf("dropout p=%v of %dx%d: elements unlike the one above", p, c.Xs[i].R, cc), vd, vp, 2*p*q); err != nil {
			return err
		}
		if i > 0 {
			d, m := 0, min(len(mask), len(r1[i-1].y))
			for k := 0; k < m; k++ {
				if mask[k] != (r1[i-1].y[k] != 0) {
					d++
				}
			}
			if err := checkFreq(fmt.Sprintf("dropout p=%v: elements unlike those of the previous input", p), d, m, 2*p*q); err != nil {
				return err
			}
		}
	}
	if p == 0 {
		if kept != n {
			return errf("dropout with p=0 is not the identity")
		}
		return nil
	}
	if err := checkFreq(fmt.Sprintf("dropout p=%v: elements unlike their neighbour in the row", p), differ, pairs, 2*p*q); err != nil {
		return err
	}
	return checkFreq(fmt.Sprintf("dropout p=%v: kept elements", p), kept, n, q)
}

// ---- Bernoulli masks -----------------------------------------------------------

type bernCase struct {
	DT   int
	R, C int
	P    F
	Seed uint64
}

func evalBern(ctx *eng.Ctx, c bernCase) error {
	g := rand.NewLockedRand(c.Seed)
	var m mat.Matrix
	if c.DT == 32 {
		m = bernulli.Distribution(c.R, c.C, float32(c.P), g)
	} else {
		m = bernulli.Distribution(c.R, c.C, float64(c.P), g)
	}
	ctx.NTIf(c.R*c.C > 0)
	if !shapeIs(m, c.R, c.C) {
		return errf("shape %v, want %v", m.Shape(), []int{c.R, c.C})
	}
	if dtOf(m) != c.DT {
		return errf("element type of the mask")
	}
	ones := 0
	for i, v := range vals(m) {
		if v != 0 && v != 1 {
			return errf("Bernoulli mask (p=%v, seed %d): element %d is %v", c.P, c.Seed, i, v)
		}
		if v == 1 {
			ones++
		}
	}
	return checkFreq(fmt.Sprintf("Bernoulli p=%v: ones", c.P), ones, c.R*c.C, 1-roundTo(c.DT, float64(c.P)))
}

// ---- concurrent draws ------------------------------------------------------------

// atomCase has several goroutines draw from one generator; the results must be
// explained by some order of whole calls.
type atomCase struct {
	Seed uint64
	Ops  [][]drawOp
}

func genAtom(t *rapid.T) atomCase {
	c := atomCase{Seed: genSeed(t)}
	k := gen.UInt(t, 2, 4)
	for i := 0; i < k; i++ {
		c.Ops = append(c.Ops, gen.List(t, 1, 8, func(t *rapid.T) drawOp { return genDraw(t, 1) }))
	}
	return c
}

func evalAtom(ctx *eng.Ctx, c atomCase) error {
	g := rand.NewLockedRand(c.Seed)
	res := make([][]string, len(c.Ops))
	errs := make([]error, len(c.Ops))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range c.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range c.Ops[i] {
				r, err := draw(g, o)
				if err != nil {
					errs[i] = err
					return
				}
				res[i] = append(res[i], r)
				rand.Float[float64]()
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	ctx.NT()
	total := 0
	for _, o := range c.Ops {
		total += len(o)
	}
	// depth-first search for an explaining order
	pos := make([]int, len(c.Ops))
	dead := map[string]bool{}
	budget := 4000
	var hist []drawOp
	var search func() bool
	search = func() bool {
		if len(hist) == total {
			return true
		}
		// the generator's state depends on the order of the calls so far
		key := fmt.Sprint(pos, hist)
		if dead[key] {
			return false
		}
		tried := map[string]bool{}
		for i := range c.Ops {
			if pos[i] == len(c.Ops[i]) {
				continue
			}
			o := c.Ops[i][pos[i]]
			if budget--; budget < 0 {
				return true // undecided
			}
			h := rand.NewLockedRand(c.Seed)
			for _, p := range hist {
				draw(h, p)
			}
			got, _ := draw(h, o)
			id := fmt.Sprint(o.Kind, o.N, got, len(c.Ops[i])-pos[i], i)
			if got != res[i][pos[i]] || tried[id] {
				continue
			}
			tried[id] = true
			pos[i]++
			hist = append(hist, o)
			if search() {
				return true
			}
			hist = hist[:len(hist)-1]
			pos[i]--
		}
		dead[key] = true
		return false
	}
	if !search() {
		return errf("the results of concurrent draws from one generator are not those of any order of whole calls: %v", res)
	}
	if budget < 0 {
		ctx.Label("undecided")
	}
	return nil
}

func init() {
	eng.Register("C23", "streams", "more than four draws", 6000, 200000, genStreams, evalStreams)
	eng.Register("C23", "laws", "every case", 1500, 30000, genLaw, evalLaw)
	eng.Register("C23", "choices", "something is chosen", 6000, 100000, genChoice, evalChoice)
	eng.Register("C23", "weighted-tail", "the rounded sum of the weights is below one by more than 1e-6", 24, 400, func(t *rapid.T) tailCase {
		return tailCase{Zeros: gen.UInt(t, 1, 3), N: gen.UInt(t, 5000, 60000), After: gen.UInt(t, 0, 3)}
	}, evalTail)
	eng.Register("C23", "initializers", "a random initialiser of more than one element", 8000, 200000, genInit, evalInit)
	eng.Register("C23", "dropout", "0 < p < 1", 6000, 150000, genDrop, evalDrop)
	eng.Register("C23", "bernoulli", "a non-empty mask", 4000, 100000, func(t *rapid.T) bernCase {
		return bernCase{DT: gen.DT(t), R: gen.Ext(t, 0, 20, 100), C: gen.Ext(t, 0, 20, 100), P: F(gen.Pick(t, gen.Unit(t), 0, 1, 0.5, 0.1)), Seed: genSeed(t)}
	}, evalBern)
	eng.Register("C23", "concurrent-race", "every case", 400, 8000, genAtom, evalAtom, eng.Race())
}
