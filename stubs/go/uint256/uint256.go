// Package uint256 is a stand-in for github.com/holiman/uint256 (v1.3.1) with the
// documented behaviour of the methods used in the code under test.
package uint256

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
)

type Int [4]uint64

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func (z *Int) ToBig() *big.Int {
	if z == nil {
		return nil
	}
	var b [32]byte
	z.WriteToArray32(&b)
	return new(big.Int).SetBytes(b[:])
}
func (z *Int) sb(b *big.Int) *Int {
	b = new(big.Int).And(b, new(big.Int).Sub(two256, big.NewInt(1)))
	var t [32]byte
	b.FillBytes(t[:])
	return z.SetBytes32(t[:])
}
func (z *Int) signed() *big.Int {
	b := z.ToBig()
	if b.Bit(255) == 1 {
		b.Sub(b, two256)
	}
	return b
}
func NewInt(v uint64) *Int         { return &Int{v} }
func (z *Int) Clear() *Int         { *z = Int{}; return z }
func (z *Int) Set(x *Int) *Int     { *z = *x; return z }
func (z *Int) Clone() *Int         { c := *z; return &c }
func (z *Int) SetUint64(v uint64) *Int { *z = Int{v}; return z }
func (z *Int) SetOne() *Int        { *z = Int{1}; return z }
func (z *Int) SetAllOne() *Int     { *z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}; return z }
func (z *Int) Add(x, y *Int) *Int  { return z.sb(new(big.Int).Add(x.ToBig(), y.ToBig())) }
func (z *Int) AddUint64(x *Int, y uint64) *Int { return z.Add(x, NewInt(y)) }
func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	b := new(big.Int).Add(x.ToBig(), y.ToBig())
	return z.sb(b), b.BitLen() > 256
}
func (z *Int) Sub(x, y *Int) *Int { return z.sb(new(big.Int).Sub(x.ToBig(), y.ToBig())) }
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, NewInt(y)) }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	o := x.Lt(y)
	return z.Sub(x, y), o
}
func (z *Int) Mul(x, y *Int) *Int { return z.sb(new(big.Int).Mul(x.ToBig(), y.ToBig())) }
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	b := new(big.Int).Mul(x.ToBig(), y.ToBig())
	return z.sb(b), b.BitLen() > 256
}
func (z *Int) Div(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.sb(new(big.Int).Div(x.ToBig(), y.ToBig()))
}
func (z *Int) Mod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.sb(new(big.Int).Mod(x.ToBig(), y.ToBig()))
}
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	a, b := *x, *y
	m.Mod(&a, &b)
	return z.Div(&a, &b), m
}
func (z *Int) SDiv(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.sb(new(big.Int).Quo(x.signed(), y.signed()))
}
func (z *Int) SMod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.sb(new(big.Int).Rem(x.signed(), y.signed()))
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	b := new(big.Int).Add(x.ToBig(), y.ToBig())
	return z.sb(b.Mod(b, m.ToBig()))
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	b := new(big.Int).Mul(x.ToBig(), y.ToBig())
	return z.sb(b.Mod(b, m.ToBig()))
}
func (z *Int) Exp(x, y *Int) *Int { return z.sb(new(big.Int).Exp(x.ToBig(), y.ToBig(), two256)) }
func (z *Int) Neg(x *Int) *Int    { return z.Sub(new(Int), x) }
func (z *Int) Abs(x *Int) *Int {
	if x[3]>>63 == 0 {
		return z.Set(x)
	}
	return z.Neg(x)
}
func (z *Int) Not(x *Int) *Int    { *z = Int{^x[0], ^x[1], ^x[2], ^x[3]}; return z }
func (z *Int) And(x, y *Int) *Int { *z = Int{x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]}; return z }
func (z *Int) Or(x, y *Int) *Int  { *z = Int{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}; return z }
func (z *Int) Xor(x, y *Int) *Int { *z = Int{x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]}; return z }
func (z *Int) Lsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	return z.sb(new(big.Int).Lsh(x.ToBig(), n))
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	return z.sb(new(big.Int).Rsh(x.ToBig(), n))
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	if n > 256 {
		n = 256
	}
	return z.sb(new(big.Int).Rsh(x.signed(), n))
}
func (z *Int) Byte(n *Int) *Int {
	if !n.LtUint64(32) {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[n[0]]))
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if byteNum.GtUint64(30) {
		return z.Set(x)
	}
	n := 248 - 8*uint(byteNum[0])
	t := new(Int).Lsh(x, n)
	return z.SRsh(t, n)
}
func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		} else if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) CmpUint64(x uint64) int  { return z.Cmp(NewInt(x)) }
func (z *Int) Scmp(x *Int) int         { return z.signed().Cmp(x.signed()) }
func (z *Int) Lt(x *Int) bool          { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool          { return z.Cmp(x) > 0 }
func (z *Int) Slt(x *Int) bool         { return z.Scmp(x) < 0 }
func (z *Int) Sgt(x *Int) bool         { return z.Scmp(x) > 0 }
func (z *Int) Eq(x *Int) bool          { return *z == *x }
func (z *Int) LtUint64(n uint64) bool  { return z.CmpUint64(n) < 0 }
func (z *Int) GtUint64(n uint64) bool  { return z.CmpUint64(n) > 0 }
func (z *Int) IsZero() bool            { return *z == Int{} }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3]>>63 == 1 {
		return -1
	}
	return 1
}
func (z *Int) IsUint64() bool { return z[1]|z[2]|z[3] == 0 }
func (z *Int) Uint64() uint64 { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) { return z[0], z[1]|z[2]|z[3] != 0 }
func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return 64*i + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }
func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	var b [32]byte
	copy(b[32-len(buf):], buf)
	return z.SetBytes32(b[:])
}
func (z *Int) SetBytes1(in []byte) *Int { return z.SetBytes(in[:1]) }
func (z *Int) SetBytes2(in []byte) *Int { return z.SetBytes(in[:2]) }
func (z *Int) SetBytes4(in []byte) *Int { return z.SetBytes(in[:4]) }
func (z *Int) SetBytes8(in []byte) *Int { return z.SetBytes(in[:8]) }
func (z *Int) SetBytes20(in []byte) *Int { return z.SetBytes(in[:20]) }
func (z *Int) SetBytes32(in []byte) *Int {
	_ = in[31]
	for i := range z {
		z[i] = binary.BigEndian.Uint64(in[24-8*i:])
	}
	return z
}
func (z *Int) Bytes32() (b [32]byte) { z.WriteToArray32(&b); return }
func (z *Int) Bytes20() (b [20]byte) { z.WriteToArray20(&b); return }
func (z *Int) Bytes() []byte         { b := z.Bytes32(); return b[32-z.ByteLen():] }
func (z *Int) PutUint256(dest []byte) {
	b := z.Bytes32()
	_ = dest[31]
	copy(dest, b[:])
}
func (z *Int) WriteToArray32(d *[32]byte) {
	for i := range z {
		binary.BigEndian.PutUint64(d[24-8*i:], z[i])
	}
}
func (z *Int) WriteToArray20(d *[20]byte) { b := z.Bytes32(); copy(d[:], b[12:]) }
func (z *Int) WriteToSlice(d []byte) {
	b := z.Bytes32()
	if len(d) > 32 {
		clear(d[:len(d)-32])
		d = d[len(d)-32:]
	}
	copy(d, b[32-len(d):])
}
func (z *Int) String() string { return z.Dec() }
func (z *Int) Dec() string    { return z.ToBig().String() }
func (z *Int) Hex() string    { return fmt.Sprintf("0x%x", z.ToBig()) }
func (z *Int) SetFromBig(b *big.Int) bool {
	z.sb(b)
	return b.BitLen() > 256
}
func FromBig(b *big.Int) (*Int, bool) {
	if b == nil {
		return nil, false
	}
	z := &Int{}
	o := z.SetFromBig(b)
	return z, o
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}
func FromDecimal(s string) (*Int, error) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || b.Sign() < 0 || b.BitLen() > 256 {
		return nil, errors.New("invalid decimal")
	}
	return new(Int).sb(b), nil
}
func MustFromDecimal(s string) *Int {
	z, err := FromDecimal(s)
	if err != nil {
		panic(err)
	}
	return z
}
