package common

import (
	"github.com/holiman/uint256"
	"pgregory.net/rand"
	"verif/sym"
)

func arg(name string) (U256, uint256.Int, [32]byte) {
	var b [32]byte
	sym.Bytes(b[:], name)
	var x uint256.Int
	x.SetBytes32(b[:])
	return U256{x}, x, b
}
func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func is(got U256, want *uint256.Int, what string) {
	g := got.internal
	sym.Check((g[0]^want[0])|(g[1]^want[1])|(g[2]^want[2])|(g[3]^want[3]) == 0, "result")
}

// less decides a < b over the words, without branches
func less(a, b uint256.Int) uint64 {
	r := uint64(0)
	for i := 0; i < 4; i++ {
		lt, eq := bit(a[i] < b[i]), bit(a[i] == b[i])
		r = lt | (eq & r)
	}
	return r
}

// H_u256: every operation against 256-bit arithmetic
func H_u256() {
	a, x, ab := arg("a")
	b, y, _ := arg("b")
	m, z, _ := arg("m")
	var w uint256.Int
	switch sym.Param("op") {
	case 0:
		is(a.Add(b), w.Add(&x, &y), "sum")
		is(a.Sub(b), w.Sub(&x, &y), "difference")
		is(a.Mul(b), w.Mul(&x, &y), "product")
	case 1:
		is(a.Div(b), w.Div(&x, &y), "quotient")
		is(a.Mod(b), w.Mod(&x, &y), "remainder")
	case 2:
		is(a.SDiv(b), w.SDiv(&x, &y), "signed quotient")
		is(a.SMod(b), w.SMod(&x, &y), "signed remainder")
	case 3:
		is(a.AddMod(b, m), w.AddMod(&x, &y, &z), "sum modulo")
		is(a.MulMod(b, m), w.MulMod(&x, &y, &z), "product modulo")
	case 4:
		is(a.Exp(b), w.Exp(&x, &y), "power")
	case 5:
		for i := range x {
			w[i] = x[i] & y[i]
		}
		is(a.And(b), &w, "and")
		for i := range x {
			w[i] = x[i] | y[i]
		}
		is(a.Or(b), &w, "or")
		for i := range x {
			w[i] = x[i] ^ y[i]
		}
		is(a.Xor(b), &w, "xor")
		for i := range x {
			w[i] = ^x[i]
		}
		is(a.Not(), &w, "not")
	case 6:
		lt, gt, eq := less(x, y), less(y, x), bit(ab == y.Bytes32())
		sx, sy := x[3]>>63, y[3]>>63
		diff := sx ^ sy
		slt := (diff & sx) | ((1 ^ diff) & lt)
		sgt := (diff & sy) | ((1 ^ diff) & gt)
		sym.Check(bit(a.Eq(b)) == eq, "equal")
		sym.Check(bit(a.Ne(b)) == 1^eq, "not equal")
		sym.Check(bit(a.Lt(b)) == lt, "less")
		sym.Check(bit(a.Gt(b)) == gt, "greater")
		sym.Check(bit(a.Slt(b)) == slt, "signed less")
		sym.Check(bit(a.Sgt(b)) == sgt, "signed greater")
		sym.Check(bit(a == b) == eq, "comparable")
		hi := x[1] | x[2] | x[3]
		sym.Check(bit(a.IsZero()) == bit(hi|x[0] == 0), "zero")
		sym.Check(bit(a.IsUint64()) == bit(hi == 0), "fits 64 bits")
		sym.CheckU64(a.Uint64(), x[0], "low 64 bits")
	case 7: // shifts by any amount: bit by bit
		n := sym.U64("n") // the amount below 256
		sym.Assume(n < 256)
		big := y[1] | y[2] | y[3] | (y[0] >> 8)
		k := sym.U8("k") // the result bit looked at
		at := func(v uint256.Int, i uint64) uint64 {
			r := uint64(0)
			for j := uint64(0); j < 4; j++ {
				r |= (v[j] >> (i & 63)) & bit(i>>6 == j)
			}
			return r & 1
		}
		bk := uint64(k)
		isBig := bit(big != 0)
		amount := y[0] & 255
		l, r, s := a.Shl(b).internal, a.Shr(b).internal, a.Srsh(b).internal
		inL := bit(bk >= amount) & (1 ^ isBig)
		sym.CheckU64(at(l, bk), inL&at(x, bk-amount), "shift left")
		inR := bit(bk+amount < 256) & (1 ^ isBig)
		sym.CheckU64(at(r, bk), inR&at(x, bk+amount), "shift right")
		sign := x[3] >> 63
		sym.CheckU64(at(s, bk), (inR&at(x, bk+amount))|((1^inR)&sign), "arithmetic shift right")
	case 8: // sign extension: byte k decides all above
		k := uint64(sym.U8("k"))
		sym.Assume(k < 32)
		e := a.SignExtend(b).Bytes32be()
		small := bit(y[0] < 31) & bit(y[1]|y[2]|y[3] == 0)
		from := y[0] & 31
		sb := byte(0)
		var be byte
		for i := uint64(0); i < 32; i++ {
			v := ab[31-i]
			sb |= v & byte(-bit(i == from))
			be |= e[31-i] & byte(-bit(i == k))
		}
		var orig byte
		for i := uint64(0); i < 32; i++ {
			orig |= ab[31-i] & byte(-bit(i == k))
		}
		above := small & bit(k > from)
		fill := byte(-uint64(sb >> 7))
		want := (fill & byte(-above)) | (orig & byte(-(1 ^ above)))
		sym.CheckU64(uint64(be), uint64(want), "sign extension")
	case 9: // conversions
		sym.Check(a.Bytes32be() == ab, "32 bytes")
		s := a.Bytes20be()
		ok := uint64(1)
		for i := range s {
			ok &= bit(s[i] == ab[12+i])
		}
		sym.Check(ok == 1, "20 bytes")
		u := a.Uint256()
		is(NewU256FromUint256(&u), &x, "uint256")
		is(MaxU256(), w.SetAllOne(), "largest value")
		n := int(sym.Param("n"))
		got := NewU256FromBytes(ab[:n]...).Bytes32be()
		ok = 1
		for i := range got {
			if i < 32-n {
				ok &= bit(got[i] == 0)
			} else {
				ok &= bit(got[i] == ab[i-(32-n)])
			}
		}
		sym.Check(ok == 1, "from bytes")
		if n <= 4 {
			ws := []uint64{x[3], x[2], x[1], x[0]}[:n]
			w.Clear()
			for i := range ws {
				w[n-1-i] = ws[i]
			}
			is(NewU256(ws...), &w, "from words")
		}
		bg := a.ToBigInt()
		bs := bg.Bits()
		w.Clear()
		for i := range bs {
			w[i] = uint64(bs[i])
		}
		sym.Check(bg.Sign() >= 0, "big integer not negative")
		is(a, &w, "to big integer")
		is(NewU256FromBigInt(bg), &x, "from big integer")
	case 10:
		sym.Assume(!y.Lt(&x))
		got := RandU256Between(&rand.Rand{}, a, b)
		_ = m
		sym.Check(bit(got.internal.Lt(&x))|bit(y.Lt(&got.internal)) == 0, "random value between the limits")
	}
}

const hexd = "0123456789abcdef"

// H_u256text: printing and parsing
func H_u256text() {
	a, x, _ := arg("a")
	t, err := a.MarshalText()
	ok := err == nil && len(t) == 67
	sym.Check(ok, "text of a value")
	same := uint64(1)
	for i := 0; i < 4; i++ {
		for j := 0; j < 16; j++ {
			same &= bit(t[17*i+j] == hexd[x[3-i]>>(60-4*j)&15])
		}
		if i < 3 {
			same &= bit(t[17*i+16] == ' ')
		}
	}
	sym.Check(same == 1, "text is the four words in hex")
}
func hexval(c byte) uint64 {
	if c <= '9' {
		return uint64(c - '0')
	}
	return uint64(c-'a') + 10
}
func nib(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// H_u256parse: texts around the well-formed ones
func H_u256parse() {
	n, at, w := int(sym.Param("len")), int(sym.Param("at")), int(sym.Param("win"))
	t := make([]byte, n)
	for i := range t {
		t[i] = hexd[i*7&15]
		if i%17 == 16 {
			t[i] = ' '
		}
	}
	for i := at; i < at+w && i < n; i++ {
		t[i] = sym.U8I("t", uint64(i))
	}
	var want U256
	ok := n == 67
	for i := 0; ok && i < n; i++ {
		if i%17 == 16 {
			ok = t[i] == ' '
		} else {
			ok = nib(t[i]) >= 0
		}
	}
	var a U256
	err := a.UnmarshalText(t)
	if !ok {
		sym.Check(err != nil, "malformed text is rejected")
		return
	}
	for i := 0; i < 4; i++ {
		for j := 0; j < 16; j++ {
			want.internal[3-i] = want.internal[3-i]<<4 | uint64(nib(t[17*i+j]))
		}
	}
	sym.Check(err == nil, "well-formed text is accepted")
	is(a, &want.internal, "parsed value")
}
