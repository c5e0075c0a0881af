package props

import (
	"bytes"
	"encoding/gob"
	"math"
	"slices"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// bitMat is a matrix given by its bit patterns.
type bitMat struct {
	DT, R, C int
	Bits     []uint64
	Grad     bool
}

func (b bitMat) mk() mat.Matrix {
	if b.DT == 32 {
		d := make([]float32, b.R*b.C)
		for i := range d {
			d[i] = math.Float32frombits(uint32(b.Bits[i%len(b.Bits)]))
		}
		return mat.NewDense[float32](mat.WithShape(b.R, b.C), mat.WithBacking(d), mat.WithGrad(b.Grad))
	}
	d := make([]float64, b.R*b.C)
	for i := range d {
		d[i] = math.Float64frombits(b.Bits[i%len(b.Bits)])
	}
	return mat.NewDense[float64](mat.WithShape(b.R, b.C), mat.WithBacking(d), mat.WithGrad(b.Grad))
}

// sameBits checks type, shape, bits and the gradient flag.
func (b bitMat) same(what string, t mat.Tensor) error {
	if t == nil {
		return errf("%s: nil", what)
	}
	if err := snapOf(b.mk()).same(t); err != nil {
		return errf("%s: %v", what, err)
	}
	if t.RequiresGrad() != b.Grad {
		return errf("%s: requires-gradient flag is %v, want %v", what, t.RequiresGrad(), b.Grad)
	}
	if t.Size() != b.R*b.C {
		return errf("%s: size %d, want %d", what, t.Size(), b.R*b.C)
	}
	return nil
}

func genBitMat(t *rapid.T) bitMat {
	b := bitMat{DT: gen.DT(t), Grad: gen.Bool(t)}
	b.R, b.C = gen.Dim(t, 0, 40), gen.Dim(t, 0, 9)
	if gen.Large(t) {
		b.R, b.C = gen.UInt(t, 40, 6000), gen.UInt(t, 1, 30)
	}
	if gen.Large(t) && gen.Chance(t, 30) { // around what 16 bits can count
		b.R, b.C = gen.UInt(t, 65530, 140000), gen.U(t, 2)
		if gen.Bool(t) {
			b.R, b.C = b.C, b.R
		}
	}
	n := gen.UInt(t, 1, 8)
	for i := 0; i < n; i++ {
		var u uint64
		switch gen.U(t, 5) {
		case 0:
			u = math.Float64bits(gen.Val(t))
			if b.DT == 32 {
				u = uint64(math.Float32bits(float32(gen.Val(t))))
			}
		case 1: // NaN payloads, signalling NaNs included
			if b.DT == 32 {
				u = uint64(0x7f800001 + gen.U(t, 1<<16)*64)
			} else {
				u = 0x7ff0000000000001 + uint64(gen.U(t, 1<<16))<<32
			}
		case 2:
			u = gen.Pick(t, uint64(0), 1, 1<<63, 0x7ff0000000000000, 0xfff0000000000000, 0x000fffffffffffff, 0x7fefffffffffffff)
			if b.DT == 32 {
				u = gen.Pick(t, uint64(0), 1, 1<<31, 0x7f800000, 0xff800000, 0x007fffff, 0x7f7fffff)
			}
		default:
			u = rapid.Uint64().Draw(t, "u")
			if b.DT == 32 {
				u &= 0xffffffff
			}
		}
		b.Bits = append(b.Bits, u)
	}
	return b
}

type serialCase struct {
	M, Old bitMat
	Mode   string // binary, iface, tensor, slice, map, nested, stream, ptr
	Off    int    // alignment offset of the buffer
	Junk   int
}

type holder struct {
	M mat.Matrix
	T mat.Tensor
	L []mat.Matrix
	K map[string]mat.Tensor
	P *nn.Param
	X any
}

func scramble(b []byte) {
	for i := range b {
		b[i] = b[i]*7 + 13
	}
}

func gobRound(v, w any) ([]byte, error) {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(v); err != nil {
		return nil, errf("gob encoding: %v", err)
	}
	raw := buf.Bytes()
	data := append([]byte(nil), raw...)
	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(w); err != nil {
		return nil, errf("gob decoding: %v", err)
	}
	scramble(data)
	scramble(raw)
	return raw, nil
}

func evalSerial(ctx *eng.Ctx, cs serialCase) error {
	m := cs.M.mk()
	ctx.Label("%s", cs.Mode)
	n := cs.M.R * cs.M.C
	ctx.NTIf(n > 0)
	if n == 0 {
		ctx.Label("empty")
	}
	type bin interface {
		MarshalBinary() ([]byte, error)
		UnmarshalBinary([]byte) error
	}
	switch cs.Mode {
	case "binary":
		enc, err := m.(bin).MarshalBinary()
		if err != nil {
			return errf("MarshalBinary: %v", err)
		}
		if err := cs.M.same("source after MarshalBinary", m); err != nil {
			return err
		}
		// the encoding is independent of the matrix
		frozen := append([]byte(nil), enc...)
		for i := 0; i < n; i++ {
			m.SetScalar(flt(cs.M.DT, 42), i/max(cs.M.C, 1), i%max(cs.M.C, 1))
		}
		if !bytes.Equal(frozen, enc) {
			return errf("modifying the matrix changed its encoding")
		}
		buf := make([]byte, cs.Off+len(enc))
		copy(buf[cs.Off:], enc)
		data := buf[cs.Off:]
		if cs.Old.DT != cs.M.DT {
			cs.Old.DT = cs.M.DT
		}
		used := cs.Old.mk()
		withGrad := cs.Junk%2 == 1
		if withGrad {
			used.AccGrad(cs.Old.mk())
		}
		clone := used.Clone()
		if err := used.(bin).UnmarshalBinary(data); err != nil {
			return errf("UnmarshalBinary: %v", err)
		}
		if err := cs.M.same("decoded", used); err != nil {
			return err
		}
		if err := snapOf(cs.Old.mk()).same(clone); err != nil {
			return errf("decoding changed an unrelated matrix: %v", err)
		}
		if used.HasGrad() || used.Grad() != nil {
			return errf("the decoded matrix has a gradient of its previous content, of shape %v", used.Grad().Shape())
		}
		if withGrad { // and it can accumulate one of its own
			used.AccGrad(m)
			if !used.HasGrad() || !slices.Equal(used.Grad().Shape(), m.Shape()) {
				return errf("the decoded matrix got no gradient of its own")
			}
			used.ZeroGrad()
		}
		if !bytes.Equal(data, frozen) {
			return errf("UnmarshalBinary changed the buffer")
		}
		scramble(buf)
		if err := cs.M.same("decoded matrix after its buffer was reused", used); err != nil {
			return err
		}
		copy(data, frozen)
		for i := 0; i < n; i++ {
			used.SetScalar(flt(cs.M.DT, 17), i/max(cs.M.C, 1), i%max(cs.M.C, 1))
		}
		if !bytes.Equal(data, frozen) {
			return errf("modifying the decoded matrix changed the buffer")
		}
		// the decoded matrix is a full citizen
		z := used.ProdScalar(2)
		if n > 0 && vals(z)[n-1] != 34 {
			return errf("the decoded matrix does not compute: %v", vals(z))
		}
	case "tensor", "iface":
		type it struct{ T mat.Tensor }
		type im struct{ T mat.Matrix }
		if cs.Mode == "tensor" {
			var o it
			if _, err := gobRound(it{m}, &o); err != nil {
				return err
			}
			return cs.M.same("decoded", o.T)
		}
		var o im
		if _, err := gobRound(im{m}, &o); err != nil {
			return err
		}
		if err := cs.M.same("decoded", o.T); err != nil {
			return err
		}
		return cs.M.same("source after encoding", m)
	case "slice":
		k := 1 + cs.Junk%3
		v := make([]mat.Tensor, k)
		for i := range v {
			v[i] = m
			if i == 1 {
				v[i] = cs.Old.mk()
			}
		}
		var o []mat.Tensor
		if _, err := gobRound(v, &o); err != nil {
			return err
		}
		if len(o) != k {
			return errf("decoded %d of %d matrices", len(o), k)
		}
		for i := range o {
			w := cs.M
			if i == 1 {
				w = cs.Old
			}
			if err := w.same("decoded element", o[i]); err != nil {
				return err
			}
		}
		if k == 3 && cs.M.R*cs.M.C > 0 {
			// elements are independent of each other
			o[0].(mat.Matrix).SetScalar(flt(cs.M.DT, 5), 0, 0)
			return cs.M.same("decoded element after its sibling was changed", o[2])
		}
	case "map":
		v := map[string]mat.Matrix{"a": m, "b": cs.Old.mk()}
		var o map[string]mat.Matrix
		if _, err := gobRound(v, &o); err != nil {
			return err
		}
		if err := cs.M.same("decoded", o["a"]); err != nil {
			return err
		}
		return cs.Old.same("decoded", o["b"])
	case "nested":
		var p *nn.Param
		p = nn.NewParam(m).WithGrad(cs.M.Grad)
		v := holder{M: m, T: cs.Old.mk(), L: []mat.Matrix{cs.Old.mk(), m}, K: map[string]mat.Tensor{"x": m}, P: p, X: m}
		var o holder
		if _, err := gobRound(v, &o); err != nil {
			return err
		}
		for _, e := range []error{cs.M.same("field M", o.M), cs.Old.same("field T", o.T), cs.Old.same("field L[0]", o.L[0]), cs.M.same("field L[1]", o.L[1]),
			cs.M.same("field K", o.K["x"]), cs.M.same("parameter", o.P), cs.M.same("field X", o.X.(mat.Tensor))} {
			if e != nil {
				return e
			}
		}
	case "stream":
		// several values through one encoder, decoded into the same variable
		var buf bytes.Buffer
		e := gob.NewEncoder(&buf)
		for _, x := range []mat.Matrix{m, cs.Old.mk(), m} {
			if err := e.Encode(&x); err != nil {
				return errf("gob encoding: %v", err)
			}
		}
		d := gob.NewDecoder(&buf)
		var got []mat.Matrix
		for i := 0; i < 3; i++ {
			var x mat.Matrix
			if err := d.Decode(&x); err != nil {
				return errf("gob decoding: %v", err)
			}
			got = append(got, x)
		}
		for i, w := range []bitMat{cs.M, cs.Old, cs.M} {
			if err := w.same(errf("value %d of the stream", i).Error(), got[i]); err != nil {
				return err
			}
		}
	case "ptr":
		if cs.M.DT == 32 {
			var o *mat.Dense[float32]
			if _, err := gobRound(m, &o); err != nil {
				return err
			}
			return cs.M.same("decoded", o)
		}
		var o mat.Dense[float64]
		if _, err := gobRound(m, &o); err != nil {
			return err
		}
		return cs.M.same("decoded", &o)
	}
	return nil
}

func init() {
	eng.Register("C09", "roundtrip",
		"non-empty matrix of random bit patterns encoded and decoded, buffers and sources modified afterwards",
		300000, 6000000,
		func(t *rapid.T) serialCase {
			return serialCase{M: genBitMat(t), Old: genBitMat(t), Off: gen.U(t, 8), Junk: gen.U(t, 6),
				Mode: gen.Pick(t, "binary", "binary", "binary", "iface", "tensor", "slice", "map", "nested", "stream", "ptr")}
		}, evalSerial)
}
