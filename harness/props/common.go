// Package props registers the generated checks of every property.
package props

import (
	"fmt"
	"math"
	"strconv"

	"verifharness/gen"
	"verifharness/ref"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// F is the serialisable float.
type F = gen.F

// Machine epsilons.
const (
	eps64 = 2.220446049250313e-16
	eps32 = 1.1920928955078125e-07
)

func epsOf(dt int) float64 {
	if dt == 32 {
		return eps32
	}
	return eps64
}

func tinyOf(dt int) float64 {
	if dt == 32 {
		return 1.1754943508222875e-38
	}
	return 2.2250738585072014e-308
}

func maxOf(dt int) float64 {
	if dt == 32 {
		return math.MaxFloat32
	}
	return math.MaxFloat64
}

func roundTo(dt int, v float64) float64 {
	if dt == 32 {
		return float64(float32(v))
	}
	return v
}

// mk builds a dense matrix of the element type, with its own backing array.
func mk(dt int, m gen.Mat, grad bool) mat.Matrix {
	if dt == 32 {
		d := make([]float32, len(m.D))
		for i, v := range m.D {
			d[i] = float32(v)
		}
		return mat.NewDense[float32](mat.WithShape(m.R, m.C), mat.WithBacking(d), mat.WithGrad(grad))
	}
	return mat.NewDense[float64](mat.WithShape(m.R, m.C), mat.WithBacking(m.Floats()), mat.WithGrad(grad))
}

// canary is the guard value around guarded backings.
var canary = math.NaN()

// guarded is a matrix living inside a larger array whose surroundings must
// never be read or written.
type guarded struct {
	m    mat.Matrix
	b32  []float32
	b64  []float64
	off  int
	size int
}

const guardPad = 8

func mkGuarded(dt int, m gen.Mat) *guarded {
	g := &guarded{off: guardPad + m.Off, size: len(m.D)}
	n := g.off + g.size + guardPad
	if dt == 32 {
		g.b32 = make([]float32, n)
		for i := range g.b32 {
			g.b32[i] = float32(canary)
		}
		for i, v := range m.D {
			g.b32[g.off+i] = float32(v)
		}
		g.m = mat.NewDense[float32](mat.WithShape(m.R, m.C), mat.WithBacking(g.b32[g.off:g.off+g.size]))
		return g
	}
	g.b64 = make([]float64, n)
	for i := range g.b64 {
		g.b64[i] = canary
	}
	for i, v := range m.D {
		g.b64[g.off+i] = float64(v)
	}
	g.m = mat.NewDense[float64](mat.WithShape(m.R, m.C), mat.WithBacking(g.b64[g.off:g.off+g.size]))
	return g
}

func (g *guarded) intact() error {
	for i, v := range g.b32 {
		if (i < g.off || i >= g.off+g.size) && !math.IsNaN(float64(v)) {
			return fmt.Errorf("memory outside the matrix was overwritten (offset %d of a backing of %d elements at %d)", i, g.size, g.off)
		}
	}
	for i, v := range g.b64 {
		if (i < g.off || i >= g.off+g.size) && !math.IsNaN(v) {
			return fmt.Errorf("memory outside the matrix was overwritten (offset %d of a backing of %d elements at %d)", i, g.size, g.off)
		}
	}
	return nil
}

// vals returns a copy of the elements as float64.
func vals(t mat.Tensor) []float64 {
	d := t.Data()
	if d.BitSize() == 32 {
		s := d.F32()
		o := make([]float64, len(s))
		for i, v := range s {
			o[i] = float64(v)
		}
		return o
	}
	return append([]float64(nil), d.F64()...)
}

// bitsOf returns the exact bit patterns of the elements.
func bitsOf(t mat.Tensor) []uint64 {
	d := t.Data()
	if d.BitSize() == 32 {
		s := d.F32()
		o := make([]uint64, len(s))
		for i, v := range s {
			o[i] = uint64(math.Float32bits(v))
		}
		return o
	}
	s := d.F64()
	o := make([]uint64, len(s))
	for i, v := range s {
		o[i] = math.Float64bits(v)
	}
	return o
}

func dtOf(t mat.Tensor) int { return t.Data().BitSize() }

func shapeIs(t mat.Tensor, r, c int) bool {
	s := t.Shape()
	return len(s) == 2 && s[0] == r && s[1] == c
}

// snapshot of a matrix.
type snap struct {
	dt    int
	shape []int
	bits  []uint64
}

func snapOf(t mat.Tensor) snap {
	return snap{dtOf(t), append([]int(nil), t.Shape()...), bitsOf(t)}
}

func (s snap) vals() []float64 {
	o := make([]float64, len(s.bits))
	for i, b := range s.bits {
		if s.dt == 32 {
			o[i] = float64(math.Float32frombits(uint32(b)))
		} else {
			o[i] = math.Float64frombits(b)
		}
	}
	return o
}

func (s snap) same(t mat.Tensor) error {
	n := snapOf(t)
	if n.dt != s.dt {
		return fmt.Errorf("element type changed from %d to %d bits", s.dt, n.dt)
	}
	if len(n.shape) != 2 || n.shape[0] != s.shape[0] || n.shape[1] != s.shape[1] {
		return fmt.Errorf("shape changed from %v to %v", s.shape, n.shape)
	}
	if len(n.bits) != len(s.bits) {
		return fmt.Errorf("size changed from %d to %d", len(s.bits), len(n.bits))
	}
	for i := range s.bits {
		if s.bits[i] != n.bits[i] {
			return fmt.Errorf("element %d changed from bits %x to %x", i, s.bits[i], n.bits[i])
		}
	}
	return nil
}

// near compares got with want within absolute tolerance tol (plus the smallest
// normal of the type), treating NaN and overflow consistently.
func near(dt int, got, want, tol float64) bool {
	if math.IsNaN(want) {
		return math.IsNaN(got)
	}
	if math.IsNaN(got) {
		return false
	}
	big := maxOf(dt)
	if math.IsInf(got, 0) || math.IsInf(want, 0) || math.Abs(want) > big {
		if math.IsInf(got, 0) && (math.Abs(want) >= big*0.999) {
			return math.Signbit(got) == math.Signbit(want)
		}
		if math.Abs(got) >= big*0.999 && math.Abs(want) >= big*0.999 {
			return math.Signbit(got) == math.Signbit(want)
		}
		if math.IsInf(got, 0) && math.Abs(want)+tol >= big*0.999 {
			return true
		}
		return false
	}
	return math.Abs(got-want) <= tol+tinyOf(dt)
}

// expectVals checks shape, type and elements against want with per-element
// tolerances in units of the type's epsilon.
func expectVals(what string, t mat.Tensor, dt, r, c int, want, errUnits []float64, k float64) error {
	if t == nil {
		return fmt.Errorf("%s: no result", what)
	}
	if got := dtOf(t); got != dt {
		return fmt.Errorf("%s: element type is %d bits, want %d", what, got, dt)
	}
	if !shapeIs(t, r, c) {
		return fmt.Errorf("%s: shape is %v, want [%d %d]", what, t.Shape(), r, c)
	}
	if t.Size() != r*c {
		return fmt.Errorf("%s: Size() is %d, want %d", what, t.Size(), r*c)
	}
	got := vals(t)
	if len(got) != r*c {
		return fmt.Errorf("%s: %d elements, want %d", what, len(got), r*c)
	}
	e := epsOf(dt)
	for i, g := range got {
		tol := k * e * math.Abs(want[i])
		if errUnits != nil {
			tol = k * e * (errUnits[i] + math.Abs(want[i]))
		}
		if math.IsNaN(tol) || math.IsInf(tol, 0) {
			tol = 0
		}
		if !near(dt, g, want[i], tol) {
			return fmt.Errorf("%s: element %d (row %d, col %d) is %v, want %v (tolerance %.3g)", what, i, i/max(c, 1), i%max(c, 1), g, want[i], tol)
		}
	}
	return nil
}

// expectRef compares a tensor with a reference matrix of the same shape.
func expectRef(what string, t mat.Tensor, dt int, w ref.M, k float64) error {
	ev := make([]float64, len(w.D))
	for i, v := range w.D {
		ev[i] = v.E() + 1e-3
	}
	return expectVals(what, t, dt, w.R, w.C, w.Vals(), ev, k)
}

// expectGrad compares a gradient with the reference adjoints of leaf.
func expectGrad(what string, t mat.Tensor, dt int, leaf ref.M, g *ref.Grads, tol float64) error {
	return expectGradFloor(what, t, dt, leaf, g, tol, 1e-3)
}

// expectGradFloor is expectGrad with the magnitude below which the tolerance
// is no longer relative.
func expectGradFloor(what string, t mat.Tensor, dt int, leaf ref.M, g *ref.Grads, tol, floor float64) error {
	gr := t.Grad()
	zero := true
	for _, v := range leaf.D {
		if g.AbsOf(v) != 0 {
			zero = false
		}
	}
	if !t.HasGrad() {
		if zero {
			return nil
		}
		// a matrix full of zeros and nil are equivalent by documentation
		for _, v := range leaf.D {
			if math.Abs(g.Of(v)) > tol*(1000*floor+g.AbsOf(v))+16*epsOf(dt)*g.ErrOf(v) {
				return fmt.Errorf("%s: no gradient, want %v at some element", what, g.Of(v))
			}
		}
		return nil
	}
	if got := dtOf(gr); got != dt {
		return fmt.Errorf("%s: gradient element type is %d bits, want %d", what, got, dt)
	}
	if !shapeIs(gr, leaf.R, leaf.C) {
		return fmt.Errorf("%s: gradient shape is %v, want [%d %d]", what, gr.Shape(), leaf.R, leaf.C)
	}
	got := vals(gr)
	for i, v := range leaf.D {
		w := g.Of(v)
		if math.IsNaN(got[i]) || math.Abs(got[i]-w) > tol*(floor+g.AbsOf(v))+16*epsOf(dt)*g.ErrOf(v) {
			return fmt.Errorf("%s: gradient element %d is %v, want %v", what, i, got[i], w)
		}
	}
	return nil
}

// gradTol is the relative tolerance for gradients of moderately sized graphs.
func gradTol(dt int) float64 {
	if dt == 32 {
		return 2e-3
	}
	return 1e-8
}

// catch runs f and reports a panic as a value.
func catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

func flt(dt int, v float64) float.Float {
	if dt == 32 {
		return float.Interface(float32(v))
	}
	return float.Interface(v)
}

func sl(dt int, v []float64) float.Slice {
	if dt == 32 {
		o := make([]float32, len(v))
		for i, x := range v {
			o[i] = float32(x)
		}
		return float.Make(o...)
	}
	return float.Make(append([]float64(nil), v...)...)
}

func errf(format string, a ...any) error { return fmt.Errorf(format, a...) }

func itoa(i int) string { return strconv.Itoa(i) }
