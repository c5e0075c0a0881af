package props

import (
	"math"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/optimizers/decay"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
)

// decayCase follows a schedule, or queries it at single points.
type decayCase struct {
	Hyper bool
	Init  F
	Ratio F // final = Init * Ratio
	Times int
	Rate  F
	Extra int
	Skip  []int // the schedule is applied at steps t advancing by 1+Skip[i]
	LR    F     // single query: lr = final * LR
	T     int
	Far   int // the number of steps of the schedule in the single query
}

func genDecay(t *rapid.T) decayCase {
	c := decayCase{Hyper: gen.Bool(t), Init: F(gen.LogPos(t, -6, 2)), Times: gen.UInt(t, 1, 30), Extra: gen.UInt(t, 0, 10)}
	if gen.Chance(t, 25) {
		c.Times = gen.UInt(t, 30, 3000)
	}
	c.Ratio = F(gen.Pick(t, gen.LogPos(t, -6, 0), 1, 0.5, 0.1, 0.999999, math.Nextafter(1, 0)))
	if gen.Chance(t, 10) {
		c.Ratio = F(gen.Pick(t, 1.0001, 2, 10))
	}
	c.Rate = F(gen.Pick(t, gen.LogPos(t, -4, 1), 0.5, 0, 1))
	c.Skip = []int{0}
	if gen.Chance(t, 30) {
		c.Skip = gen.List(t, 1, 4, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 1, 3) })
	}
	c.LR, c.T = F(gen.Pick(t, gen.LogPos(t, -1, 3), 1)), gen.UInt(t, 0, 40)
	if gen.Chance(t, 20) {
		c.T = int(gen.LogPos(t, 1, 9))
	}
	c.Far = c.Times
	if gen.Chance(t, 20) {
		c.Far = max(1, c.T+gen.Pick(t, 0, 1, 2, -1, 100, int(gen.LogPos(t, 1, 9))))
	}
	return c
}

func evalDecay(ctx *eng.Ctx, c decayCase) error {
	init := float64(c.Init)
	final := init * float64(c.Ratio)
	mk := func(times int) decay.Function {
		if c.Hyper {
			return hyperbolic.New(init, final, float64(c.Rate))
		}
		return exponential.New(init, final, times)
	}
	var f decay.Function
	p := catch(func() { f = mk(c.Times) })
	if (p != nil) != (init < final) {
		return errf("New(initial %v, final %v): panic is %v", init, final, p)
	}
	if p != nil {
		ctx.Label("rejected")
		return nil
	}
	ctx.Label("hyper=%v", c.Hyper)
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Abs(b) }
	// what the documented formula gives at one point
	formula := func(lr float64, t, times int) float64 {
		switch {
		case t <= 1 || lr <= final:
			return lr
		case c.Hyper && c.Rate == 0:
			return lr
		case c.Hyper:
			return math.Max(final, init/(1+float64(c.Rate)*float64(t)))
		case t >= times:
			return final
		}
		k := float64(times - t)
		return math.Pow(lr, k/(k+1)) * math.Pow(final, 1/(k+1))
	}
	if lr := final * float64(c.LR); true {
		f := mk(c.Far)
		got, want := f.Decay(lr, c.T), formula(lr, c.T, c.Far)
		if !near(got, want) {
			return errf("Decay(%v, %d) is %v, want %v (initial %v, final %v, times %d, rate %v)", lr, c.T, got, want, init, final, c.Far, c.Rate)
		}
		if again := f.Decay(lr, c.T); again != got {
			return errf("Decay(%v, %d) is %v, then %v", lr, c.T, got, again)
		}
	}
	// following the schedule
	lr := init
	n := c.Times + c.Extra
	if c.Hyper {
		n = 50 + c.Times
	}
	unit := len(c.Skip) == 1 && c.Skip[0] == 0
	for t, k := 1, 0; t <= n; t, k = t+1+c.Skip[k%len(c.Skip)], k+1 {
		next := f.Decay(lr, t)
		if !(next > 0) || next > lr*(1+1e-12) || next < final*(1-1e-9) {
			return errf("step %d: the rate goes from %v to %v (initial %v, final %v, times %d)", t, lr, next, init, final, c.Times)
		}
		if !near(next, formula(lr, t, c.Times)) {
			return errf("step %d: the rate goes from %v to %v, want %v", t, lr, next, formula(lr, t, c.Times))
		}
		lr = next
		if unit && !c.Hyper && c.Times > 1 {
			q := math.Min(1, float64(t-1)/float64(c.Times-1))
			if want := init * math.Pow(float64(c.Ratio), q); math.Abs(lr-want) > 1e-8*want {
				return errf("step %d of %d: the rate is %v, want %v (from %v to %v)", t, c.Times, lr, want, init, final)
			}
		}
		if !c.Hyper && t >= c.Times && t > 1 && !near(lr, final) {
			return errf("after step %d of %d the rate is %v, want %v", t, c.Times, lr, final)
		}
	}
	if c.Hyper && c.Rate > 0 && init/(1+float64(c.Rate)*float64(n-5)) < final && !near(lr, final) {
		return errf("after %d steps the rate is %v, want %v", n, lr, final)
	}
	ctx.NTIf(final < init)
	return nil
}

func init() {
	eng.Register("C15", "schedule", "the final rate is below the initial rate", 120000, 2400000, genDecay, evalDecay)
}
