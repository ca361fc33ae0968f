package st

import (
	"math"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"github.com/holiman/uint256"
	"verif/sym"
)

func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func word(name string, i uint64) U256 {
	var b [32]byte
	sym.BytesI(b[:], name, i)
	return NewU256FromBytes(b[:]...)
}

func words(n uint64) uint64 {
	w := n / 32
	if n%32 != 0 {
		w++
	}
	return w
}

// H_memcost: the price of growing memory, for all offsets and sizes
func H_memcost() {
	n := sym.Param("len")
	m := NewMemory(make([]byte, n)...)
	o, s := word("o", 0), word("s", 0)
	oi, si := o.Uint256(), s.Uint256()
	if at := sym.Param("at"); at > 0 { // around the limit
		x, y := oi, si
		if at == 2 {
			x, y = si, oi
		}
		sym.Assume(x[0] == 0x1FFFFFFFE0-16)
		sym.Assume(y[0] < 64)
		sym.Assume(x[1]|x[2]|x[3]|y[1]|y[2]|y[3] == 0)
	}
	cost, off, size := m.ExpansionCosts(o, s)
	oBig, sBig := oi[1]|oi[2]|oi[3], si[1]|si[2]|si[3]
	end := oi[0] + si[0]
	switch {
	case sBig == 0 && si[0] == 0:
		sym.CheckU64(uint64(cost), 0, "an empty access is free")
		sym.CheckU64(size, 0, "size of an empty access")
	case sBig|oBig != 0 || end < oi[0]:
		sym.CheckU64(uint64(cost), math.MaxInt64, "price of an access beyond 64 bits")
	case end <= n:
		sym.CheckU64(uint64(cost), 0, "an access without growth is free")
		sym.Check(off == oi[0] && size == si[0], "accessed region")
	case end > 0x1FFFFFFFE0:
		sym.CheckU64(uint64(cost), math.MaxInt64, "price of an access beyond the limit")
	default:
		w, c := words(end), words(n)
		sym.CheckU64(uint64(cost), w*w/512+3*w-(c*c/512+3*c), "price of growing")
		sym.Check(off == oi[0] && size == si[0], "accessed region")
	}
}

func pickb(b []byte, i uint64) (r byte) {
	for j := range b {
		r |= b[j] & byte(-bit(uint64(j) == i))
	}
	return
}

// H_memory: reading, writing and growing
func H_memory() {
	n, size := sym.Param("len"), sym.Param("size")
	a := make([]byte, n)
	sym.Bytes(a, "m")
	m := NewMemory(append([]byte{}, a...)...)
	before := m.Clone()
	same := m.Eq(before)
	sym.Check(same, "a copy equals its original")
	off := sym.U64("off")
	sym.Assume(off <= sym.Param("maxoff"))
	data := make([]byte, size)
	sym.Bytes(data, "d")
	var got []byte
	op := sym.Param("op")
	switch op {
	case 0:
		got = m.Read(off, size)
	case 1:
		m.Write(data, off)
	case 2:
		m.Grow(off, size)
	case 3:
		h := m.Hash(off, size)
		want := make([]byte, size)
		for i := range want {
			want[i] = pickb(a, off+uint64(i))
		}
		var w [32]byte
		sym.Keccak(want, w[:])
		sym.Check(h == w, "hash of the region")
	}
	end := n
	if size > 0 && off+size > n {
		end = words(off+size) * 32
	}
	sym.CheckU64(uint64(m.Size()), end, "size afterwards")
	k := sym.U64("k") // the byte looked at
	sym.Assume(k < 256)
	if k < end && m.Size() == int(end) {
		want := pickb(a, k)
		in := bit(k-off < size)
		if op == 1 {
			want = want&byte(in-1) | pickb(data, k-off)&byte(-in)
		}
		sym.CheckU64(uint64(m.mem[k]), uint64(want), "content afterwards")
	}
	if op == 0 {
		sym.CheckU64(uint64(len(got)), size, "size of what was read")
		if k < uint64(len(got)) {
			sym.CheckU64(uint64(got[k]), uint64(pickb(a, off+k)), "what was read")
		}
	}
	sym.CheckU64(uint64(before.Size()), n, "size of a copy")
	if k < n {
		sym.CheckU64(uint64(before.mem[k]), uint64(a[k]), "content of a copy")
	}
}

// H_memset: setting, appending and comparing
func H_memset() {
	n, l := sym.Param("len"), sym.Param("size")
	a, b := make([]byte, n), make([]byte, l)
	sym.Bytes(a, "m")
	sym.Bytes(b, "d")
	x, y := NewMemory(a...), NewMemory()
	y.Set(b)
	eq := uint64(0)
	if n == l {
		eq = 1
		for i := range a {
			eq &= bit(a[i] == b[i])
		}
	}
	sym.Check(bit(x.Eq(y)) == eq, "equality")
	sym.Check((len(x.Diff(y)) == 0) == (eq == 1), "differences are listed exactly for different contents")
	c := y.Clone()
	c.Append(a)
	ok := uint64(1)
	for i := range b {
		ok &= bit(c.mem[i] == b[i])
	}
	for i := range a {
		ok &= bit(c.mem[int(l)+i] == a[i])
	}
	sym.Check(c.Size() == int(n+l) && ok == 1, "appended")
	if l > 0 {
		b[0]++
		sym.Check(y.mem[0] == b[0]-1, "the content does not change with the given data")
		c.mem[0]++
		sym.Check(y.mem[0] == b[0]-1, "the content does not change with a copy's")
	}
}

// H_code: which positions are code, which are data
func H_code() {
	n, at, w := int(sym.Param("len")), int(sym.Param("at")), int(sym.Param("win"))
	code := make([]byte, n)
	for i := range code {
		code[i] = byte(sym.Param("fill"))
	}
	for i := at; i < at+w && i < n; i++ {
		code[i] = sym.U8I("c", uint64(i))
	}
	c := NewCode(code)
	sym.CheckU64(uint64(c.Length()), uint64(n), "length")
	left := uint64(0) // data bytes to come
	for i := 0; i < n+36; i++ {
		isCode := bit(left == 0)
		b := byte(0)
		if i < n {
			b = code[i]
		}
		got := c.IsCode(i)
		sym.Check(bit(got) == isCode && c.IsData(i) != got, "code or data")
		op, err := c.GetOperation(i)
		v, err2 := c.GetData(i)
		if got {
			sym.Check(err == nil && op == vm.OpCode(b), "operation")
			sym.Check(err2 != nil, "an operation is not data")
		} else {
			sym.Check(err != nil, "data is not an operation")
			sym.Check(err2 == nil && v == b, "data")
		}
		if left > 0 {
			left--
		} else if b >= 0x60 && b <= 0x7f {
			for left = 1; left < uint64(b)-0x5f; {
				left++
			}
		}
		if got != (isCode == 1) {
			return
		}
	}
	_, err := c.GetOperation(-1)
	sym.Check(c.IsCode(-1) && err == nil, "before the start")
	sym.Check(c.IsCode(math.MaxInt), "far behind the end")
	h := c.Hash()
	var want [32]byte
	sym.Keccak(code, want[:])
	sym.Check(h == want && c.Hash() == h, "hash of the code")
	cp := c.Copy()
	sym.Check(len(cp) == n, "length of a copy")
	d := NewCode(cp)
	sym.Check(c.Eq(d) && len(c.Diff(d)) == 0, "the same code is equal")
	if n > 0 {
		to := make([]byte, n+1)
		k := c.CopyCodeSlice(0, n, to)
		sym.Check(k == n && to[n-1] == code[n-1] && to[0] == code[0], "copied code")
		code[0]++
		op, _ := c.GetOperation(0)
		sym.Check(byte(op) == code[0]-1, "the code does not change with the given bytes")
		cp[n-1] ^= 1
		sym.Check(c.code[n-1] == to[n-1], "the code does not change with a copy")
		e := NewCode(cp)
		sym.Check(!c.Eq(e) && len(c.Diff(e)) > 0, "different code is different")
		e = NewCode(to[:n-1])
		sym.Check(!c.Eq(e) && len(c.Diff(e)) > 0, "code of another length is different")
	}
}

// H_stack: a sequence of pushes and pops around the given height
func H_stack() {
	n, k := int(sym.Param("len")), int(sym.Param("k"))
	vs := make([]U256, n)
	for i := range vs {
		vs[i] = word("s", uint64(i))
	}
	s := NewStack(vs...)
	c := s.Clone()
	sym.Check(s.Size() == n && c.Size() == n, "height")
	sym.Check(s.Eq(c) && len(s.Diff(c)) == 0, "a copy equals its original")
	same := func(a, b U256) uint64 {
		x, y := a.Uint256(), b.Uint256()
		return bit((x[0]^y[0])|(x[1]^y[1])|(x[2]^y[2])|(x[3]^y[3]) == 0)
	}
	for i := 0; i < n; i++ {
		sym.Check(same(s.Get(i), vs[n-1-i]) == 1, "positions count from the top")
	}
	v := word("v", 0)
	s.Push(v)
	sym.Check(s.Size() == n+1 && same(s.Get(0), v) == 1, "push")
	sym.Check(same(s.Pop(), v) == 1 && s.Size() == n, "pop")
	if n > 0 {
		s.Set(k, v)
		for i := 0; i < n; i++ {
			want := vs[n-1-i]
			if i == k {
				want = v
			}
			sym.Check(same(s.Get(i), want) == 1, "set")
			sym.Check(same(c.Get(i), vs[n-1-i]) == 1, "a copy does not change with its original")
		}
		eq := same(v, vs[n-1-k]) == 1
		sym.Check(s.Eq(c) == eq, "equality")
		sym.Check((len(s.Diff(c)) == 0) == eq, "differences are listed exactly for different stacks")
		s.Resize(n - 1)
		sym.Check(s.Size() == n-1 && !s.Eq(c) && len(s.Diff(c)) > 0, "stacks of different heights are different")
	}
	s.Release()
	d := NewStackWithSize(n)
	sym.Check(d.Size() == n, "height asked for")
	for i := 0; i < n; i++ {
		d.Set(i, v)
	}
	for i := 0; i < n; i++ {
		sym.Check(same(c.Get(i), vs[n-1-i]) == 1, "a copy does not change with a new stack")
	}
	var _ uint256.Int
}
