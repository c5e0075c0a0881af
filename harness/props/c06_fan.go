package props

import (
	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// fanCase is one result consumed by many operators. All numbers are small
// integers, so that every gradient is exact.
type fanCase struct {
	DT    int
	D     int
	N     int // consumers
	Op    int // how the result is consumed: see evalFan
	Join  int // 0 a sum, 1 a chain of additions, 2 all consumers are outputs, 3 a stack, 4 a concatenation
	Leaf  bool
	Times int
	Seed  uint64
}

func evalFan(ctx *eng.Ctx, cs fanCase) error {
	if cs.D < 1 || cs.N < 1 {
		return nil
	}
	small := func(obj, i int) int { return int(mix(cs.Seed+uint64(obj)*1000+uint64(i))%5) - 2 }
	vec := func(obj int, req bool) (mat.Matrix, []float64) {
		m := gen.Mat{R: cs.D, C: 1}
		for i := 0; i < cs.D; i++ {
			m.D = append(m.D, F(small(obj, i)))
		}
		return mk(cs.DT, m, req), m.Floats()
	}
	x, _ := vec(1, true)
	c, cv := vec(2, false)
	total := make([]float64, cs.D) // the leaf accumulates over the passes
	for k := 0; k < cs.Times; k++ {
		var s mat.Tensor = x
		if !cs.Leaf {
			s = ag.Copy(x)
		}
		pass := make([]float64, cs.D)
		var cons []mat.Tensor
		var coef [][]float64 // d consumer / d result, elementwise
		for i := 0; i < cs.N; i++ {
			var y mat.Tensor
			co := make([]float64, cs.D)
			switch (cs.Op + i%2*(cs.Op%3)) % 5 {
			case 0:
				y = ag.Copy(s)
				for j := range co {
					co[j] = 1
				}
			case 1:
				y = ag.Prod(s, c)
				copy(co, cv)
			case 2:
				y = ag.Neg(s)
				for j := range co {
					co[j] = -1
				}
			case 3:
				y = ag.Add(s, s)
				for j := range co {
					co[j] = 2
				}
			default:
				y = ag.Sub(c, s)
				for j := range co {
					co[j] = -1
				}
			}
			cons, coef = append(cons, y), append(coef, co)
		}
		var outs []mat.Tensor
		seed := func(i, j int) float64 { return 1 }
		g, gv := vec(3, false)
		switch cs.Join {
		case 0:
			outs = []mat.Tensor{ag.Sum(cons...)}
			seed = func(_, j int) float64 { return gv[j] }
		case 1:
			acc := cons[0]
			for _, y := range cons[1:] {
				acc = ag.Add(acc, y)
			}
			outs = []mat.Tensor{acc}
			seed = func(_, j int) float64 { return gv[j] }
		case 2:
			outs = cons
			seed = func(i, j int) float64 { return float64((i%3 - 1)) * gv[j] }
		case 3:
			outs = []mat.Tensor{ag.Stack(cons...)}
			seed = func(i, j int) float64 { return float64(i%3 - 1) }
		default:
			outs = []mat.Tensor{ag.Concat(cons...)}
			seed = func(i, j int) float64 { return float64(i%3 - 1) }
		}
		for i := range cons {
			for j := range pass {
				pass[j] += coef[i][j] * seed(i, j)
				total[j] += coef[i][j] * seed(i, j)
			}
		}
		for i, o := range outs {
			gm := g
			switch cs.Join {
			case 2:
				gm = g.ProdScalar(float64(i%3 - 1))
			case 3, 4:
				m := gen.Mat{R: o.Value().Shape()[0], C: o.Value().Shape()[1]}
				for q := 0; q < cs.N*cs.D; q++ {
					m.D = append(m.D, F(q/cs.D%3-1))
				}
				gm = mk(cs.DT, m, false)
			}
			o.AccGrad(gm)
		}
		if err := ag.Backward(outs...); err != nil {
			return errf("fan of %d: Backward: %v", cs.N, err)
		}
		check := func(what string, t mat.Tensor, want []float64) error {
			if !t.HasGrad() {
				return errf("fan of %d consumers (join %d), pass %d: %s has no gradient", cs.N, cs.Join, k, what)
			}
			for j, v := range vals(t.Grad()) {
				if v != want[j] {
					return errf("fan of %d consumers (join %d), pass %d: gradient element %d of %s is %v, want %v", cs.N, cs.Join, k, j, what, v, want[j])
				}
			}
			return nil
		}
		if err := check("the leaf", x, total); err != nil {
			return err
		}
		if !cs.Leaf {
			if err := check("the shared result", s, pass); err != nil {
				return err
			}
		}
	}
	ctx.NTIf(cs.N > 1)
	ctx.Label("consumers<=%d", pow10(cs.N))
	return nil
}

func pow10(n int) int {
	p := 1
	for p < n {
		p *= 10
	}
	return p
}

func init() {
	eng.Register("C06", "fan",
		"one result consumed by up to 300 (now and then 70000) operators joined in five ways, in small integers, so that the gradients are exact; non-trivial with several consumers",
		4000, 60000, func(t *rapid.T) fanCase {
			cs := fanCase{DT: gen.DT(t), D: gen.Dim(t, 1, 5), N: gen.Pick(t, gen.UInt(t, 1, 20), gen.UInt(t, 1, 20), gen.UInt(t, 20, 300), 255, 256, 257), Op: gen.U(t, 5), Join: gen.U(t, 5), Leaf: gen.Chance(t, 30), Times: gen.Pick(t, 1, 1, 2), Seed: uint64(gen.U(t, 1<<20))}
			if gen.Large(t) {
				cs.N = gen.Pick(t, gen.UInt(t, 300, 3000), 1024, 4096)
				if gen.Chance(t, 5) {
					cs.N = gen.Pick(t, 65535, 65536, 65537, gen.UInt(t, 30000, 70000))
				}
			}
			return cs
		}, evalFan)
}
