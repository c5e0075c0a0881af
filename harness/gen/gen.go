// Package gen holds the serialisable case types and the rapid generators.
package gen

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// F is a float64 that survives JSON for every bit pattern.
type F float64

// MarshalJSON implements json.Marshaler.
func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return []byte(fmt.Sprintf(`"bits:%016x"`, math.Float64bits(v))), nil
	}
	if v == 0 && math.Signbit(v) {
		return []byte(`"-0"`), nil
	}
	return strconv.AppendFloat(nil, v, 'g', -1, 64), nil
}

// UnmarshalJSON implements json.Unmarshaler.
func (f *F) UnmarshalJSON(b []byte) error {
	s := strings.Trim(string(b), `"`)
	if strings.HasPrefix(s, "bits:") {
		u, err := strconv.ParseUint(s[5:], 16, 64)
		if err != nil {
			return err
		}
		*f = F(math.Float64frombits(u))
		return nil
	}
	if s == "-0" {
		*f = F(math.Copysign(0, -1))
		return nil
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return err
	}
	*f = F(v)
	return nil
}

// Mat is a serialisable matrix (row-major).
type Mat struct {
	R, C int
	D    []F
	// Off is the offset of the data in a larger backing array.
	Off int `json:",omitempty"`
}

// At returns the element (i, j).
func (m Mat) At(i, j int) float64 { return float64(m.D[i*m.C+j]) }

// Floats returns the data as float64s.
func (m Mat) Floats() []float64 {
	o := make([]float64, len(m.D))
	for i, v := range m.D {
		o[i] = float64(v)
	}
	return o
}

// Round32 rounds all elements to float32 when dt is 32.
func (m Mat) Round(dt int) Mat {
	if dt == 64 {
		return m
	}
	o := Mat{R: m.R, C: m.C, Off: m.Off, D: make([]F, len(m.D))}
	for i, v := range m.D {
		o.D[i] = F(float32(v))
	}
	return o
}

// Int draws an integer in [a, b].
func Int(t *rapid.T, a, b int) int { return rapid.IntRange(a, b).Draw(t, "n") }

// Bool draws a boolean.
func Bool(t *rapid.T) bool { return rapid.Bool().Draw(t, "b") }

var boolGen = rapid.Bool()

// U draws an integer in [0, n) uniformly. rapid's own integer ranges are
// heavily biased towards small values; single bits are not.
func U(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	nb := bits.Len(uint(n - 1))
	for try := 0; ; try++ {
		u := 0
		for i := 0; i < nb; i++ {
			u <<= 1
			if boolGen.Draw(t, "") {
				u |= 1
			}
		}
		if u < n {
			return u
		}
		if try == 4 {
			return u % n
		}
	}
}

// UInt draws uniformly from [a, b].
func UInt(t *rapid.T, a, b int) int { return a + U(t, b-a+1) }

// Chance is true in about pct percent of the cases, and shrinks to false.
func Chance(t *rapid.T, pct int) bool { return U(t, 128) >= 128-(pct*128+50)/100 }

// Large is true now and then: the case then gets sizes far beyond the usual
// ones (thresholds of blocking, parallel or buffered code paths).
func Large(t *rapid.T) bool { return U(t, 128) == 127 }

// Pick draws one of the values uniformly.
func Pick[E any](t *rapid.T, xs ...E) E { return xs[U(t, len(xs))] }

// DT draws an element type.
func DT(t *rapid.T) int { return Pick(t, 64, 32) }

// Unit draws a float in [0,1).
func Unit(t *rapid.T) float64 { return Spread(t, 0, 1) }

// Spread draws a value evenly spread over [lo, hi), without rapid's bias
// towards small magnitudes.
func Spread(t *rapid.T, lo, hi float64) float64 {
	const n = 1 << 14
	return lo + (hi-lo)*((float64(U(t, n))+0.3819660112501051)/n)
}

// Ext draws uniformly in [lo, hi] and now and then beyond, up to more, at and
// around the sizes of vector units and blocks.
func Ext(t *rapid.T, lo, hi, more int) int {
	if Chance(t, 94) {
		return UInt(t, lo, hi)
	}
	if k := Pick(t, 8, 16, 32, 64, 128) + UInt(t, -1, 1); k <= more && k >= lo && Chance(t, 60) {
		return k
	}
	return UInt(t, hi, more)
}

// Dim draws a dimension in [lo, hi], favouring small values and the
// neighbourhood of multiples of vector-unit block sizes.
func Dim(t *rapid.T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	if hi <= 6 || !Chance(t, 40) {
		return UInt(t, lo, min(hi, lo+6))
	}
	if Chance(t, 60) {
		base := Pick(t, 4, 8, 16, 32, 64, 128, 256)
		k := base*Pick(t, 1, 1, 2, 3) + UInt(t, -1, 1)
		if k >= lo && k <= hi {
			return k
		}
	}
	return UInt(t, lo, hi)
}

// Val draws a moderate value: small multiples of 1/8 or a spread value.
func Val(t *rapid.T) float64 {
	if Chance(t, 50) {
		return Spread(t, -3, 3)
	}
	return float64(UInt(t, -16, 15)) / 8
}

// Generic draws a value in general position (no ties, no kinks, not too small).
func Generic(t *rapid.T, scale float64) float64 {
	v := Spread(t, -scale, scale)
	return v
}

// MatOf draws a matrix with elements from el.
func MatOf(t *rapid.T, r, c int, el func(*rapid.T) float64) Mat {
	m := Mat{R: r, C: c, D: make([]F, r*c)}
	if r*c > 400 {
		// Large matrices: a few drawn values in a drawn order, so that
		// generation and shrinking stay cheap.
		pat := make([]float64, Int(t, 5, 61))
		for i := range pat {
			pat[i] = el(t)
		}
		x := uint64(Int(t, 1, 1<<16))
		for i := range m.D {
			// multiplicative congruence: no short period that could coincide
			// with the block sizes of the code under test
			x = x*6364136223846793005 + 1442695040888963407
			m.D[i] = F(pat[(x>>33)%uint64(len(pat))])
		}
		return m
	}
	for i := range m.D {
		m.D[i] = F(el(t))
	}
	return m
}

// Matrix draws a matrix of moderate values.
func Matrix(t *rapid.T, r, c int) Mat { return MatOf(t, r, c, Val) }

// GenericMat draws a matrix of values in general position.
func GenericMat(t *rapid.T, r, c int, scale float64) Mat {
	return MatOf(t, r, c, func(t *rapid.T) float64 { return Generic(t, scale) })
}

// Special draws any float, favouring special values of the element type.
func Special(t *rapid.T, dt int) float64 {
	k := U(t, 12)
	switch k {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	case 4:
		return math.NaN()
	case 5: // subnormal
		if dt == 32 {
			return float64(math.Float32frombits(uint32(Int(t, 1, 1<<23-1)))) * sign(t)
		}
		return math.Float64frombits(rapid.Uint64Range(1, 1<<52-1).Draw(t, "s")) * sign(t)
	case 6: // near max
		if dt == 32 {
			return float64(math.Float32frombits(0x7f7fffff-uint32(Int(t, 0, 5)))) * sign(t)
		}
		return math.Float64frombits(0x7fefffffffffffff-uint64(Int(t, 0, 5))) * sign(t)
	case 7:
		return AnyBits(t, dt)
	default:
		return Val(t)
	}
}

func sign(t *rapid.T) float64 {
	if Bool(t) {
		return -1
	}
	return 1
}

// AnyBits draws any bit pattern of the element type (NaN payloads are kept for
// 64-bit; 32-bit values are returned as exactly converted float64s).
func AnyBits(t *rapid.T, dt int) float64 {
	if dt == 32 {
		hi := uint32(U(t, 0x200)) << 23
		lo := uint32(Int(t, 0, 1<<23-1))
		return float64(math.Float32frombits(hi | lo))
	}
	hi := uint64(U(t, 0x1000)) << 52
	lo := rapid.Uint64Range(0, 1<<52-1).Draw(t, "lo")
	return math.Float64frombits(hi | lo)
}

// LogUniform draws a magnitude over many decades with a sign.
func LogUniform(t *rapid.T, lo10, hi10 float64) float64 {
	return math.Pow(10, Spread(t, lo10, hi10)) * sign(t)
}

// List draws between lo and hi elements in a way that lets the shrinker delete
// any of them.
func List[E any](t *rapid.T, lo, hi int, el func(*rapid.T) E) []E {
	return rapid.SliceOfN(rapid.Custom(el), lo, hi).Draw(t, "l")
}

// LogPos is a positive value, log-uniform between the powers of ten.
func LogPos(t *rapid.T, lo10, hi10 float64) float64 {
	return math.Abs(LogUniform(t, lo10, hi10))
}
