package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// anyVal draws values of every kind: representable or not in the other type.
func anyVal(t *rapid.T, dt int) float64 {
	switch gen.U(t, 6) {
	case 0:
		return gen.Special(t, dt)
	case 1:
		return gen.AnyBits(t, dt)
	case 2:
		return float64(gen.UInt(t, 0, 2000) - 1000)
	case 3:
		return gen.LogUniform(t, -50, 50)
	case 4: // next to a tie between two float32 values
		x := float64(math.Float32frombits(uint32(gen.U(t, 1<<15))<<16 | uint32(gen.U(t, 1<<16))))
		y := float64(math.Nextafter32(float32(x), float32(math.Inf(1))))
		mid := x/2 + y/2
		return gen.Pick(t, mid, math.Nextafter(mid, math.Inf(1)), math.Nextafter(mid, math.Inf(-1)), -mid)
	}
	return float64(gen.UInt(t, 0, 20000)-10000) / gen.Pick(t, 10.0, 100, 1000, 8)
}

// nearest32 is the float32 nearest to v (ties to even), by searching the
// neighbours of a candidate with exact float64 comparisons.
func nearest32(v float64) float32 {
	if math.IsNaN(v) {
		return float32(math.NaN())
	}
	if v == 0 || math.IsInf(v, 0) {
		return math.Float32frombits(uint32(math.Float64bits(v)>>32)&0x80000000 | infBits(v))
	}
	a := math.Abs(v)
	// ordered search over the bit patterns of non-negative float32 values
	lo, hi := uint32(0), uint32(0x7f800000)
	val := func(b uint32) float64 {
		if b == 0x7f800000 {
			return 0x1p128 // where overflow begins, half a step below
		}
		return float64(math.Float32frombits(b))
	}
	for hi-lo > 1 {
		if m := lo + (hi-lo)/2; val(m) <= a {
			lo = m
		} else {
			hi = m
		}
	}
	b := lo
	if a >= 0x1p128 {
		b = 0x7f800000
	} else if d, u := a-val(lo), val(hi)-a; u < d || (u == d && lo&1 == 1) {
		b = hi
	}
	r := math.Float32frombits(b)
	if v < 0 {
		r = -r
	}
	if b == 0 && v < 0 {
		r = math.Float32frombits(0x80000000)
	}
	return r
}

func infBits(v float64) uint32 {
	if math.IsInf(v, 0) {
		return 0x7f800000
	}
	return 0
}

func same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b }
func same64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b }

// conv is v as an element of the given width.
func conv(dt int, v float64) float64 {
	if dt == 32 {
		return float64(nearest32(v))
	}
	return v
}

type viewCase struct {
	DA, DB int
	A, B   []F
	Delta  F
	R      int // rows, dividing the number of elements as far as possible
}

func genView(t *rapid.T) viewCase {
	c := viewCase{DA: gen.DT(t), DB: gen.DT(t), Delta: F(gen.Pick(t, gen.LogPos(t, -8, 2), 0, math.Inf(1), gen.LogPos(t, -45, 40), math.SmallestNonzeroFloat64))}
	c.A = gen.List(t, 0, 8, func(t *rapid.T) F { return F(anyVal(t, c.DA)) })
	if n := len(c.A); n > 0 && gen.Large(t) {
		for k := gen.UInt(t, 9, 700); len(c.A) < k; {
			c.A = append(c.A, c.A[len(c.A)%n])
		}
		c.A[gen.U(t, len(c.A))] = F(anyVal(t, c.DA))
	}
	for i := range c.A {
		c.A[i] = F(roundTo(c.DA, float64(c.A[i])))
	}
	mode := gen.U(t, 4)
	for _, a := range c.A {
		b := float64(a)
		switch {
		case mode == 0 || gen.Chance(t, 30):
			b = float64(gen.Pick(t, F(math.Nextafter(b, math.Inf(1))), F(b+float64(c.Delta)), F(b-float64(c.Delta)*(1-1e-9)), -a, F(anyVal(t, c.DB)), F(math.NaN()), F(b-float64(c.Delta)*1.001)))
		}
		c.B = append(c.B, F(roundTo(c.DB, b)))
	}
	if gen.Chance(t, 10) {
		c.B = append(c.B, 0)
	} else if gen.Chance(t, 5) && len(c.B) > 0 {
		c.B = c.B[1:]
	}
	c.R = gen.UInt(t, 1, 4)
	return c
}

func mkSlice(dt int, v []F) float.Slice {
	o := make([]float64, len(v))
	for i, x := range v {
		o[i] = float64(x)
	}
	return sl(dt, o)
}

func checkFloat(what string, f float.Float, dt int, v float64) error {
	if f.BitSize() != dt {
		return errf("%s: BitSize is %d, want %d", what, f.BitSize(), dt)
	}
	if !same64(f.F64(), v) {
		return errf("%s: F64 of %v is %v", what, v, f.F64())
	}
	if !same32(f.F32(), nearest32(v)) {
		return errf("%s: F32 of %v is %v, want %v", what, v, f.F32(), nearest32(v))
	}
	if g := float.ValueOf[float32](f); !same32(g, nearest32(v)) {
		return errf("%s: ValueOf[float32] of %v is %v", what, v, g)
	}
	if g := float.ValueOf[float64](f); !same64(g, v) {
		return errf("%s: ValueOf[float64] of %v is %v", what, v, g)
	}
	if s, ok := f.(fmt.Stringer); ok {
		if w := fmtShort(dt, v); s.String() != w {
			return errf("%s: String of %v is %q, want %q", what, v, s.String(), w)
		}
	}
	return nil
}

func fmtShort(dt int, v float64) string {
	if dt == 32 {
		return fmt.Sprint(float32(v))
	}
	return fmt.Sprint(v)
}

func checkSlice(what string, s float.Slice, dt int, v []float64) error {
	if s.BitSize() != dt || s.Len() != len(v) {
		return errf("%s: BitSize %d and Len %d, want %d and %d", what, s.BitSize(), s.Len(), dt, len(v))
	}
	a, b, c, d := s.F32(), s.F64(), float.SliceValueOf[float32](s), float.SliceValueOf[float64](s)
	if len(a) != len(v) || len(b) != len(v) || len(c) != len(v) || len(d) != len(v) {
		return errf("%s: converted to %d, %d, %d and %d elements, want %d", what, len(a), len(b), len(c), len(d), len(v))
	}
	for i, x := range v {
		if w := nearest32(x); !same32(a[i], w) || !same32(c[i], w) {
			return errf("%s: element %d (%v) as float32 is %v and %v, want %v", what, i, x, a[i], c[i], w)
		}
		if !same64(b[i], x) || !same64(d[i], x) {
			return errf("%s: element %d (%v) as float64 is %v and %v", what, i, x, b[i], d[i])
		}
	}
	return nil
}

// equalRef and deltaRef compare after converting b to the type of a; sure is
// false when rounding of the difference may decide.
func equalRef(da int, a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != conv(da, b[i]) {
			return false
		}
	}
	return true
}

func deltaRef(da int, a, b []float64, delta float64) (in, sure bool) {
	if len(a) != len(b) {
		return false, true
	}
	in, sure = true, true
	for i := range a {
		x, y := a[i], conv(da, b[i])
		if math.IsNaN(x) && math.IsNaN(y) {
			sure = false // the difference of two NaN is not specified
			continue
		}
		if x == y {
			continue
		}
		d := math.Abs(x - y)
		if math.IsNaN(d) {
			return false, true
		}
		if math.IsInf(d, 0) && !math.IsInf(x, 0) && !math.IsInf(y, 0) || d > maxOf(da) && da == 32 {
			sure = sure && !math.IsInf(delta, 1) && delta < maxOf(da)/2
			if delta < maxOf(da)/2 {
				return false, true
			}
			continue
		}
		e := 2*epsOf(da)*d + math.SmallestNonzeroFloat64
		switch {
		case d-e > delta:
			return false, true
		case d+e > delta && d != delta || d == delta && da == 32:
			sure = false
		}
	}
	return
}

func evalView(ctx *eng.Ctx, c viewCase) error {
	a, b := gen.Mat{D: c.A}.Floats(), gen.Mat{D: c.B}.Floats()
	for i, v := range a {
		if err := checkFloat("Interface", flt(c.DA, v), c.DA, v); err != nil {
			return err
		}
		o := c.DA ^ 32 ^ 64 // the other type
		cv := conv(o, v)
		if !math.IsNaN(v) {
			ctx.NTIf(cv != v)
		}
		// through matrices of both types
		for _, dt := range []int{c.DA, o} {
			v2 := conv(dt, v)
			z := mk(dt, gen.Mat{R: 2, C: 3, D: make([]F, 6)}, false)
			z.SetScalar(flt(c.DA, v), i%2, i%3)
			if err := checkFloat("SetScalar then ScalarAt", z.ScalarAt(i%2, i%3), dt, v2); err != nil {
				return err
			}
			z.SetAt(mk(c.DA, gen.Mat{R: 1, C: 1, D: c.A[i : i+1]}, false), 1, 2)
			if err := checkFloat("SetAt then ScalarAt", z.ScalarAt(1, 2), dt, v2); err != nil {
				return err
			}
			if err := checkFloat("At", z.At(1, 2).Item(), dt, v2); err != nil {
				return err
			}
			if err := checkFloat("NewScalar", z.NewScalar(v).Item(), dt, v2); err != nil {
				return err
			}
		}
		if err := checkFloat("Scalar", mat.Scalar(v).Item(), 64, v); err != nil {
			return err
		}
		if err := checkFloat("Scalar", mat.Scalar(float32(v)).Item(), 32, conv(32, v)); err != nil {
			return err
		}
	}
	sa, sb := mkSlice(c.DA, c.A), mkSlice(c.DB, c.B)
	if err := checkSlice("Make", sa, c.DA, a); err != nil {
		return err
	}
	if g, w := sa.Equals(sb), equalRef(c.DA, a, b); g != w {
		return errf("Equals(%v, %v) is %v", a, b, g)
	}
	delta := float64(c.Delta)
	in, sure := deltaRef(c.DA, a, b, delta)
	ctx.Label("in %v sure %v", in, sure)
	if g := sa.InDelta(sb, delta); sure && g != in {
		return errf("InDelta(%v, %v, %v) is %v for %d and %d bits", a, b, delta, g, c.DA, c.DB)
	}
	if len(a) == 0 {
		return nil
	}
	// matrices
	shape := func(n int) (int, int) {
		if n%c.R == 0 {
			return c.R, n / c.R
		}
		return n, 1
	}
	r, k := shape(len(a))
	for _, dt := range []int{32, 64} {
		want := make([]float64, len(a))
		for i, v := range a {
			want[i] = conv(dt, v)
		}
		var x mat.Matrix
		if dt == 32 {
			x = mat.NewDense[float32](mat.WithShape(r, k), backing(c.DA, a))
		} else {
			x = mat.NewDense[float64](mat.WithShape(r, k), backing(c.DA, a))
		}
		if !shapeIs(x, r, k) {
			return errf("NewDense has shape %v, want [%d %d]", x.Shape(), r, k)
		}
		if err := checkSlice("NewDense", x.Data(), dt, want); err != nil {
			return err
		}
		z := x.ZerosLike()
		z.SetData(sa)
		if err := checkSlice("SetData", z.Data(), dt, want); err != nil {
			return err
		}
		var n mat.Matrix
		if n = z.NewMatrix(mat.WithShape(r, k), backing(c.DA, a)); true {
			if err := checkSlice("NewMatrix", n.Data(), dt, want); err != nil {
				return err
			}
		}
		if len(b) == 0 {
			continue
		}
		r2, k2 := shape(len(b))
		y := mk(c.DB, gen.Mat{R: r2, C: k2, D: c.B}, false)
		eq := r == r2 && k == k2 && equalRef(dt, want, b)
		if g := mat.Equal(x, y); g != eq {
			return errf("Equal(%v, %v) is %v", want, b, g)
		}
		in, sure := deltaRef(dt, want, b, delta)
		in = in && r == r2 && k == k2
		if g := mat.InDelta(x, y, delta); (sure || !in && len(a) != len(b)) && g != in {
			return errf("InDelta(%v, %v, %v) is %v", want, b, delta, g)
		}
	}
	return nil
}

func backing(dt int, v []float64) mat.OptionsFunc {
	if dt == 32 {
		o := make([]float32, len(v))
		for i, x := range v {
			o[i] = float32(x)
		}
		return mat.WithBacking(o)
	}
	return mat.WithBacking(append([]float64(nil), v...))
}

// ---- formatting ----------------------------------------------------------------

type fmtCase struct {
	DT          int
	M           gen.Mat
	Verb        string
	Width, Prec int // -1: none
	Flags       string
	Ptr         bool // print through an interface in a larger text
}

func genFmt(t *rapid.T) fmtCase {
	c := fmtCase{DT: gen.DT(t), Verb: gen.Pick(t, "v", "v", "g", "G", "e", "E", "f", "F", "x", "X", "b"), Width: -1, Prec: -1, Ptr: gen.Bool(t)}
	if gen.Chance(t, 60) {
		c.Width = gen.Pick(t, gen.UInt(t, 0, 12), gen.UInt(t, 0, 60), gen.UInt(t, 0, 4))
	}
	if gen.Chance(t, 50) {
		c.Prec = gen.Pick(t, gen.UInt(t, 0, 8), gen.UInt(t, 0, 40))
	}
	c.Flags = gen.Pick(t, "", "", "", "", "-", "0", " ")
	r, k := gen.UInt(t, 0, 4), gen.UInt(t, 0, 4)
	if gen.Chance(t, 5) {
		r = gen.UInt(t, 5, 30)
	}
	kind := gen.U(t, 4)
	if gen.Large(t) { // the widest elements may be anywhere
		r, k = gen.UInt(t, 31, 700), gen.UInt(t, 1, 2)
		if gen.Bool(t) {
			r, k = k, r
		}
	}
	c.M = gen.MatOf(t, r, k, func(t *rapid.T) float64 {
		switch kind {
		case 0:
			return float64(gen.UInt(t, 0, 2000) - 1000)
		case 1:
			return float64(gen.UInt(t, 0, 20000)-10000) / 100
		}
		return anyVal(t, c.DT)
	}).Round(c.DT)
	return c
}

// sameNumbers: the texts stand for the same numbers of the type.
func sameNumbers(a, b []string, dt int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, e1 := strconv.ParseFloat(a[i], dt)
		y, e2 := strconv.ParseFloat(b[i], dt)
		if e1 != nil || e2 != nil || !same64(x, y) {
			return false
		}
	}
	return true
}

func evalFmt(ctx *eng.Ctx, c fmtCase) error {
	m := mk(c.DT, c.M, false)
	before := snapOf(m)
	f := "%" + c.Flags
	if c.Width >= 0 {
		f += strconv.Itoa(c.Width)
	}
	if c.Prec >= 0 {
		f += "." + strconv.Itoa(c.Prec)
	}
	f += c.Verb
	var s string
	if c.Ptr {
		s = fmt.Sprintf("<"+f+">", any(m))
		if !strings.HasPrefix(s, "<") || !strings.HasSuffix(s, ">") {
			return errf("%s prints %q", f, s)
		}
		s = s[1 : len(s)-1]
	} else {
		s = fmt.Sprintf(f, m)
	}
	ctx.Label("%s", c.Verb)
	if err := before.same(m); err != nil {
		return errf("%s changes the matrix: %v", f, err)
	}
	if len(c.M.D) == 0 {
		if s != "[]" {
			return errf("%s of an empty matrix prints %q", f, s)
		}
		return nil
	}
	ctx.NTIf(len(c.M.D) > 1 || c.Width > 0 || c.Prec >= 0)
	lines := strings.Split(s, "\n")
	if len(lines) != c.M.R {
		return errf("%s of a %dx%d matrix prints %d lines: %q", f, c.M.R, c.M.C, len(lines), s)
	}
	verb := c.Verb[0]
	switch verb {
	case 'v':
		verb = 'g'
	case 'F':
		verb = 'f'
	}
	points := make([]int, c.M.C)
	for i, l := range lines {
		open, end := "⎢", "⎥"
		switch {
		case c.M.R == 1:
			open, end = "[", "]"
		case i == 0:
			open, end = "⎡", "⎤"
		case i == c.M.R-1:
			open, end = "⎣", "⎦"
		}
		if !strings.HasPrefix(l, open) || !strings.HasSuffix(l, end) {
			return errf("%s: line %d is not enclosed in %s %s: %q", f, i, open, end, s)
		}
		l = l[len(open) : len(l)-len(end)]
		if i > 0 && utf8.RuneCountInString(lines[i]) != utf8.RuneCountInString(lines[0]) {
			return errf("%s: lines 0 and %d differ in width: %q", f, i, s)
		}
		words := strings.Fields(l)
		if len(words) != c.M.C {
			return errf("%s: line %d has %d elements, want %d: %q", f, i, len(words), c.M.C, s)
		}
		pos := 0
		for j, w := range words {
			v := c.M.At(i, j)
			if want := strconv.FormatFloat(v, verb, c.Prec, c.DT); w != want {
				return errf("%s of %d bits: element (%d, %d) is %q, want %q: %q", f, c.DT, i, j, w, want, s)
			}
			if c.Prec < 0 && verb != 'b' {
				back, err := strconv.ParseFloat(w, c.DT)
				if err != nil || !same64(back, v) {
					return errf("%s: element (%d, %d) = %v reads back as %v", f, i, j, v, back)
				}
			}
			k := strings.Index(l[pos:], w) + pos
			pos = k + len(w)
			if d := strings.IndexByte(w, '.'); d >= 0 {
				k += d
			} else {
				k += len(w)
			}
			if i == 0 {
				points[j] = k
			} else if points[j] != k {
				return errf("%s: the decimal points of column %d are not aligned: %q", f, j, s)
			}
		}
	}
	if name, ok := m.(fmt.Stringer); ok { // names the shape and the elements
		str := name.String()
		els := make([]string, len(c.M.D))
		for i, v := range c.M.D {
			els[i] = strconv.FormatFloat(float64(v), 'g', -1, c.DT)
			if math.IsInf(float64(v), 1) {
				els[i] = "+Inf"
			}
		}
		shape := fmt.Sprintf("%d×%d", c.M.R, c.M.C)
		i := strings.LastIndexByte(str, '[')
		if !strings.Contains(str, shape) || i < 0 || !sameNumbers(strings.Fields(strings.Trim(str[i:], "[]")), els, c.DT) {
			return errf("String of a %s matrix with %v is %q", shape, els, str)
		}
	}
	// the raw representations contain the elements, too
	if c.Verb == "v" && c.Width < 0 && c.Prec < 0 && c.Flags == "" {
		raw := fmt.Sprintf("%+v", m)
		var w string
		if c.DT == 32 {
			w = fmt.Sprint(m.Data().F32())
		} else {
			w = fmt.Sprint(m.Data().F64())
		}
		if raw != w && !strings.Contains(strings.ReplaceAll(raw, "+", ""), strings.Trim(strings.ReplaceAll(w, "+", ""), "[]")) {
			return errf("%%+v prints %q, which lacks %q", raw, w)
		}
	}
	return nil
}

func init() {
	eng.Register("C27", "views", "some value is not representable in the other type", 120000, 2400000, genView, evalView)
	eng.Register("C27", "format", "several elements, a width or a precision", 120000, 2400000, genFmt, evalFmt)
}
