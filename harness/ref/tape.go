// Package ref holds the reference models: a scalar automatic-differentiation
// tape over float64 with a running rounding-error bound, and naive matrix
// helpers written on top of it.
package ref

import (
	"fmt"
	"math"
)

// Tape records scalar operations.
type Tape struct {
	val, err []float64
	p1, p2   []int32
	d1, d2   []float64
	// error bounds of d1 and d2 in units of the machine epsilon
	e1, e2 []float64
	// Kink is the smallest distance to a non-differentiable point met so far.
	Kink float64
}

// V is a scalar on a tape.
type V struct {
	t *Tape
	i int32
}

// NewTape returns an empty tape.
func NewTape() *Tape { return &Tape{Kink: math.Inf(1)} }

func (t *Tape) push(v, e float64, a int32, da float64, b int32, db float64) V {
	return t.pushD(v, e, a, da, 0, b, db, 0)
}

func (t *Tape) pushD(v, e float64, a int32, da, ea float64, b int32, db, eb float64) V {
	t.e1 = append(t.e1, ea)
	t.e2 = append(t.e2, eb)
	t.val = append(t.val, v)
	t.err = append(t.err, e)
	t.p1 = append(t.p1, a)
	t.p2 = append(t.p2, b)
	t.d1 = append(t.d1, da)
	t.d2 = append(t.d2, db)
	return V{t, int32(len(t.val) - 1)}
}

// Len is the number of recorded scalars.
func (t *Tape) Len() int { return len(t.val) }

// C returns a constant or leaf.
func (t *Tape) C(v float64) V { return t.push(v, 0, -1, 0, -1, 0) }

// X returns the value.
func (v V) X() float64 { return v.t.val[v.i] }

// E returns the accumulated error bound in units of the machine epsilon.
func (v V) E() float64 { return v.t.err[v.i] }

// Tape returns the tape of the scalar.
func (v V) Tape() *Tape { return v.t }

func (t *Tape) kink(d float64) {
	if d = math.Abs(d); d < t.Kink {
		t.Kink = d
	}
}

// un records a unary function with value y, derivative d and intrinsic error
// ulps.
func (v V) un(y, d, ulps float64) V {
	return v.unD(y, d, ulps, 0)
}

// unD is un with the error bound of the derivative.
func (v V) unD(y, d, ulps, ed float64) V {
	return v.t.pushD(y, math.Abs(d)*v.E()+ulps*math.Abs(y), v.i, d, ed, -1, 0, 0)
}

// Fn records an arbitrary unary function.
func (v V) Fn(y, d, ulps float64) V { return v.un(y, d, ulps) }

// FnD is Fn with the error bound of the derivative.
func (v V) FnD(y, d, ulps, ed float64) V { return v.unD(y, d, ulps, ed) }

func (v V) Add(o V) V {
	y := v.X() + o.X()
	return v.t.push(y, v.E()+o.E()+math.Abs(y), v.i, 1, o.i, 1)
}

func (v V) Sub(o V) V {
	y := v.X() - o.X()
	return v.t.push(y, v.E()+o.E()+math.Abs(y), v.i, 1, o.i, -1)
}

func (v V) Mul(o V) V {
	a, b := v.X(), o.X()
	return v.t.pushD(a*b, math.Abs(a)*o.E()+math.Abs(b)*v.E()+math.Abs(a*b), v.i, b, o.E(), o.i, a, v.E())
}

func (v V) Div(o V) V {
	a, b := v.X(), o.X()
	y := a / b
	b2 := b * b
	return v.t.pushD(y, v.E()/math.Abs(b)+math.Abs(y/b)*o.E()+2*math.Abs(y), v.i, 1/b, o.E()/b2, o.i, -y/b, v.E()/b2+2*math.Abs(y)/b2*o.E())
}

func (v V) Neg() V                { return v.un(-v.X(), -1, 0) }
func (v V) AddC(c float64) V      { return v.un2(v.X()+c, 1, math.Abs(v.X()+c)) }
func (v V) MulC(c float64) V      { return v.un(v.X()*c, c, 1) }
func (v V) un2(y, d, e float64) V { return v.un3(y, d, e, 0) }
func (v V) un3(y, d, e, ed float64) V {
	return v.t.pushD(y, math.Abs(d)*v.E()+e, v.i, d, ed, -1, 0, 0)
}
func (v V) Exp() V { y := math.Exp(v.X()); return v.unD(y, y, 4, y*v.E()) }
func (v V) Log() V {
	x := v.X()
	return v.un3(math.Log(x), 1/x, 4*math.Abs(math.Log(x))+1e-300, v.E()/(x*x))
}
func (v V) Sqrt() V {
	y := math.Sqrt(v.X())
	return v.unD(y, 0.5/y, 1, 0.25/math.Abs(y*v.X())*v.E())
}
func (v V) Tanh() V {
	y := math.Tanh(v.X())
	return v.unD(y, 1-y*y, 4, 2*math.Abs(y)*(1-y*y)*v.E()+8*math.Abs(y))
}
func (v V) Sin() V {
	return v.un3(math.Sin(v.X()), math.Cos(v.X()), 4, math.Abs(math.Sin(v.X()))*v.E()+4)
}
func (v V) Cos() V {
	return v.un3(math.Cos(v.X()), -math.Sin(v.X()), 4, math.Abs(math.Cos(v.X()))*v.E()+4)
}
func (v V) Tan() V {
	y := math.Tan(v.X())
	return v.un3(y, 1+y*y, 4+4*math.Abs(y), 2*math.Abs(y)*(1+y*y)*v.E()+8*(1+y*y))
}
func (v V) Square() V {
	return v.Mul(v)
}

// Sigmoid is 1/(1+e^-x), computed stably.
func (v V) Sigmoid() V {
	x := v.X()
	var y, d float64
	if x >= 0 {
		e := math.Exp(-x)
		y = 1 / (1 + e)
		d = e / ((1 + e) * (1 + e))
	} else {
		e := math.Exp(x)
		y = e / (1 + e)
		d = e / ((1 + e) * (1 + e))
	}
	return v.unD(y, d, 8, d*v.E()+8*y)
}

// Pow raises to a constant power.
func (v V) Pow(p float64) V {
	y := math.Pow(v.X(), p)
	d := p * math.Pow(v.X(), p-1)
	if p == 0 {
		d = 0
	}
	ed := 0.0
	if p != 0 && p != 1 {
		ed = math.Abs(p*(p-1)*math.Pow(v.X(), p-2)) * v.E()
	}
	return v.unD(y, d, 4, ed)
}

// Abs is |x|.
func (v V) Abs() V {
	v.t.kink(v.X())
	if v.X() < 0 {
		return v.un(-v.X(), -1, 0)
	}
	return v.un(v.X(), 1, 0)
}

// Max is the maximum of two scalars.
func (v V) Max(o V) V {
	v.t.kink(v.X() - o.X())
	w := o
	if v.X() > o.X() {
		w = v
	}
	// near a tie the other one may win
	return v.t.push(w.X(), math.Max(v.E(), o.E()), w.i, 1, -1, 0)
}

// Min is the minimum of two scalars.
func (v V) Min(o V) V {
	v.t.kink(v.X() - o.X())
	w := o
	if v.X() < o.X() {
		w = v
	}
	// near a tie the other one may win
	return v.t.push(w.X(), math.Max(v.E(), o.E()), w.i, 1, -1, 0)
}

// Slack is the same value with the error bound increased by e.
func (v V) Slack(e float64) V { return v.t.push(v.X(), v.E()+e, v.i, 1, -1, 0) }

// Branch registers a non-differentiable point at distance d.
func (v V) Branch(d float64) { v.t.kink(d) }

// Grads holds the result of Backward.
type Grads struct {
	t        *Tape
	adj, abs []float64
	err      []float64 // error bound in units of the machine epsilon
}

// Backward computes adjoints for the weighted sum of outs.
func (t *Tape) Backward(outs []V, seeds []float64) *Grads {
	g := &Grads{t: t, adj: make([]float64, len(t.val)), abs: make([]float64, len(t.val)), err: make([]float64, len(t.val))}
	for k, o := range outs {
		g.adj[o.i] += seeds[k]
		g.abs[o.i] += math.Abs(seeds[k])
	}
	for i := len(t.val) - 1; i >= 0; i-- {
		a, b := g.adj[i], g.abs[i]
		if b == 0 {
			continue
		}
		if p := t.p1[i]; p >= 0 {
			g.adj[p] += a * t.d1[i]
			g.abs[p] += b * math.Abs(t.d1[i])
			g.err[p] += (g.err[i]+4*b)*math.Abs(t.d1[i]) + math.Abs(a)*t.e1[i]
		}
		if p := t.p2[i]; p >= 0 {
			g.adj[p] += a * t.d2[i]
			g.abs[p] += b * math.Abs(t.d2[i])
			g.err[p] += (g.err[i]+4*b)*math.Abs(t.d2[i]) + math.Abs(a)*t.e2[i]
		}
	}
	return g
}

// Of returns the adjoint of v.
func (g *Grads) Of(v V) float64 { return g.adj[v.i] }

// AbsOf returns the sum of absolute path contributions, the scale at which the
// adjoint of v is subject to rounding.
func (g *Grads) AbsOf(v V) float64 { return g.abs[v.i] }

// ErrOf returns the error bound of the adjoint of v in units of the machine
// epsilon.
func (g *Grads) ErrOf(v V) float64 { return g.err[v.i] }

// M is a matrix of scalars.
type M struct {
	R, C int
	D    []V
}

// NewM allocates a matrix.
func NewM(r, c int) M { return M{r, c, make([]V, r*c)} }

// Leaf makes a matrix of leaves.
func (t *Tape) Leaf(r, c int, d []float64) M {
	if len(d) != r*c {
		panic(fmt.Sprintf("ref: leaf %dx%d with %d elements", r, c, len(d)))
	}
	m := NewM(r, c)
	for i, x := range d {
		m.D[i] = t.C(x)
	}
	return m
}

// Const makes a constant matrix.
func (t *Tape) Const(r, c int, v float64) M {
	m := NewM(r, c)
	for i := range m.D {
		m.D[i] = t.C(v)
	}
	return m
}

func (m M) At(i, j int) V { return m.D[i*m.C+j] }

// Map applies f to each element.
func (m M) Map(f func(V) V) M {
	o := NewM(m.R, m.C)
	for i, v := range m.D {
		o.D[i] = f(v)
	}
	return o
}

func (m M) zip(b M, f func(a, b V) V) M {
	if len(m.D) != len(b.D) {
		panic(fmt.Sprintf("ref: size mismatch %dx%d vs %dx%d", m.R, m.C, b.R, b.C))
	}
	o := NewM(m.R, m.C)
	for i, v := range m.D {
		o.D[i] = f(v, b.D[i])
	}
	return o
}

func (m M) Add(b M) M         { return m.zip(b, V.Add) }
func (m M) Sub(b M) M         { return m.zip(b, V.Sub) }
func (m M) Prod(b M) M        { return m.zip(b, V.Mul) }
func (m M) Div(b M) M         { return m.zip(b, V.Div) }
func (m M) Scale(c float64) M { return m.Map(func(v V) V { return v.MulC(c) }) }
func (m M) ScaleV(s V) M      { return m.Map(func(v V) V { return v.Mul(s) }) }
func (m M) AddV(s V) M        { return m.Map(func(v V) V { return v.Add(s) }) }
func (m M) SubV(s V) M        { return m.Map(func(v V) V { return v.Sub(s) }) }
func (m M) DivV(s V) M        { return m.Map(func(v V) V { return v.Div(s) }) }
func (m M) Tanh() M           { return m.Map(V.Tanh) }
func (m M) Sigmoid() M        { return m.Map(V.Sigmoid) }

// T is the transpose.
func (m M) T() M {
	o := NewM(m.C, m.R)
	for i := 0; i < m.R; i++ {
		for j := 0; j < m.C; j++ {
			o.D[j*m.R+i] = m.At(i, j)
		}
	}
	return o
}

// Col views the data as a column vector.
func (m M) Col() M { return M{len(m.D), 1, m.D} }

// RowV views the data as a row vector.
func (m M) RowV() M { return M{1, len(m.D), m.D} }

// Reshape views the data with other dimensions.
func (m M) Reshape(r, c int) M { return M{r, c, m.D} }

// Row extracts row i as 1xC.
func (m M) Row(i int) M { return M{1, m.C, m.D[i*m.C : (i+1)*m.C]} }

// Mul is the matrix product. Empty inner dimensions give zeros.
func (m M) Mul(t *Tape, b M) M {
	if m.C != b.R {
		panic(fmt.Sprintf("ref: mul %dx%d by %dx%d", m.R, m.C, b.R, b.C))
	}
	o := NewM(m.R, b.C)
	for i := 0; i < m.R; i++ {
		for j := 0; j < b.C; j++ {
			var s V
			ok := false
			for k := 0; k < m.C; k++ {
				p := m.At(i, k).Mul(b.At(k, j))
				if !ok {
					s, ok = p, true
				} else {
					s = s.Add(p)
				}
			}
			if !ok {
				s = t.C(0)
			}
			o.D[i*b.C+j] = s
		}
	}
	return o
}

// Sum adds all elements.
func (m M) Sum(t *Tape) V { return SumV(t, m.D) }

// SumV adds scalars.
func SumV(t *Tape, vs []V) V {
	if len(vs) == 0 {
		return t.C(0)
	}
	s := vs[0]
	for _, v := range vs[1:] {
		s = s.Add(v)
	}
	return s
}

// MeanV averages scalars.
func MeanV(t *Tape, vs []V) V { return SumV(t, vs).MulC(1 / float64(len(vs))) }

// Dot is the inner product.
func Dot(t *Tape, a, b []V) V {
	ps := make([]V, len(a))
	for i := range a {
		ps[i] = a[i].Mul(b[i])
	}
	return SumV(t, ps)
}

// Softmax of a vector, stably; the shift is treated as a constant, which
// leaves value and derivative unchanged.
func Softmax(t *Tape, vs []V) []V {
	mx := math.Inf(-1)
	for _, v := range vs {
		mx = math.Max(mx, v.X())
	}
	es := make([]V, len(vs))
	for i, v := range vs {
		es[i] = v.AddC(-mx).Exp()
	}
	s := SumV(t, es)
	out := make([]V, len(vs))
	for i := range es {
		out[i] = es[i].Div(s)
	}
	return out
}

// LogSumExp of scalars, stably.
func LogSumExp(t *Tape, vs []V) V {
	mx := math.Inf(-1)
	for _, v := range vs {
		mx = math.Max(mx, v.X())
	}
	es := make([]V, len(vs))
	for i, v := range vs {
		es[i] = v.AddC(-mx).Exp()
	}
	return SumV(t, es).Log().AddC(mx)
}

// Concat joins vectors into a column.
func Concat(ms ...M) M {
	var d []V
	for _, m := range ms {
		d = append(d, m.D...)
	}
	return M{len(d), 1, d}
}

// Vals returns the values.
func (m M) Vals() []float64 {
	o := make([]float64, len(m.D))
	for i, v := range m.D {
		o[i] = v.X()
	}
	return o
}

// Detach returns the same value, with its error bound, cut from the tape.
func (v V) Detach() V { return v.t.push(v.X(), v.E(), -1, 0, -1, 0) }
