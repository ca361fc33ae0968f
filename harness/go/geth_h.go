package geth_adapter

import (
	"errors"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	gc "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	geth "github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/holiman/uint256"
	"verif/sym"
)

func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func arr(name string, i uint64, n uint64) []byte {
	b := make([]byte, n)
	sym.BytesI(b, name, i)
	return b
}
func same(a, b []byte) uint64 {
	if len(a) != len(b) {
		return 0
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return bit(d == 0)
}

// db: a journaled refund counter; all other requests are recorded and answered with arbitrary values
type db struct {
	geth.StateDB
	refund uint64
	got    [][]byte
	log    *types.Log
}

func (s *db) AddRefund(x uint64) { s.refund += x }
func (s *db) SubRefund(x uint64) {
	sym.Check(x <= s.refund, "the refund counter never becomes negative")
	s.refund -= x
}
func (s *db) GetRefund() uint64 { return s.refund }
func (s *db) add(k byte, parts ...[]byte) {
	r := []byte{k}
	for _, p := range parts {
		r = append(r, p...)
	}
	s.got = append(s.got, r)
}
func flag(n uint64) bool { return sym.U64("n")>>n&1 == 1 }

const (
	qState byte = iota
	qSetState
	qBalance
	qAddBalance
	qSubBalance
	qNonce
	qSetNonce
	qCodeSize
	qCodeHash
	qCode
	qSetCode
	qCommitted
	qTransient
	qSetTransient
	qDestruct
	qDestruct6780
	qDestructed
	qExist
	qCreate
	qInList
	qSlotInList
	qAddList
	qAddSlot
	qSnapshot
	qRevert
)

func word(name string, i uint64) *uint256.Int { return new(uint256.Int).SetBytes(arr(name, i, 32)) }
func b32(x *uint256.Int) []byte               { b := x.Bytes32(); return b[:] }
func (s *db) GetState(a gc.Address, k gc.Hash) gc.Hash {
	s.add(qState, a[:], k[:])
	return gc.Hash(arr("r", 0, 32))
}
func (s *db) SetState(a gc.Address, k, v gc.Hash) { s.add(qSetState, a[:], k[:], v[:]) }
func (s *db) GetBalance(a gc.Address) *uint256.Int {
	s.add(qBalance, a[:])
	return word("b", 0)
}
func (s *db) AddBalance(a gc.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.add(qAddBalance, a[:], b32(v))
}
func (s *db) SubBalance(a gc.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.add(qSubBalance, a[:], b32(v))
}
func be(v uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (56 - 8*i))
	}
	return b
}
func (s *db) GetNonce(a gc.Address) uint64    { s.add(qNonce, a[:]); return sym.U64("nonce") }
func (s *db) SetNonce(a gc.Address, n uint64) { s.add(qSetNonce, a[:], be(n)) }
func (s *db) GetCodeSize(a gc.Address) int {
	s.add(qCodeSize, a[:])
	return int(sym.U64("size") & 0xffff)
}
func (s *db) GetCodeHash(a gc.Address) gc.Hash {
	s.add(qCodeHash, a[:])
	return gc.Hash(arr("r", 0, 32))
}
func (s *db) GetCode(a gc.Address) []byte {
	s.add(qCode, a[:])
	return arr("c", 0, sym.Param("len"))
}
func (s *db) SetCode(a gc.Address, c []byte) { s.add(qSetCode, a[:], c) }
func (s *db) GetCommittedState(a gc.Address, k gc.Hash) gc.Hash {
	s.add(qCommitted, a[:], k[:])
	return gc.Hash(arr("r", 1, 32))
}
func (s *db) GetTransientState(a gc.Address, k gc.Hash) gc.Hash {
	s.add(qTransient, a[:], k[:])
	return gc.Hash(arr("r", 0, 32))
}
func (s *db) SetTransientState(a gc.Address, k, v gc.Hash) { s.add(qSetTransient, a[:], k[:], v[:]) }
func (s *db) SelfDestruct(a gc.Address)                    { s.add(qDestruct, a[:]) }
func (s *db) Selfdestruct6780(a gc.Address)                { s.add(qDestruct6780, a[:]) }
func (s *db) HasSelfDestructed(a gc.Address) bool          { s.add(qDestructed, a[:]); return flag(0) }
func (s *db) Exist(a gc.Address) bool                      { s.add(qExist, a[:]); return flag(1) }
func (s *db) CreateAccount(a gc.Address)                   { s.add(qCreate, a[:]) }
func (s *db) AddressInAccessList(a gc.Address) bool        { s.add(qInList, a[:]); return flag(2) }
func (s *db) SlotInAccessList(a gc.Address, k gc.Hash) (bool, bool) {
	s.add(qSlotInList, a[:], k[:])
	return flag(2), flag(3)
}
func (s *db) AddAddressToAccessList(a gc.Address)         { s.add(qAddList, a[:]) }
func (s *db) AddSlotToAccessList(a gc.Address, k gc.Hash) { s.add(qAddSlot, a[:], k[:]) }
func (s *db) Snapshot() int                               { s.add(qSnapshot); return int(sym.U64("n")) }
func (s *db) RevertToSnapshot(n int)                      { s.add(qRevert, be(uint64(n))) }
func (s *db) AddLog(l *types.Log)                         { s.log = l }

// has counts the recorded requests of kind k and checks that they are as given
func (s *db) has(k byte, parts ...[]byte) int {
	var w []byte
	for _, p := range parts {
		w = append(w, p...)
	}
	n := 0
	for _, g := range s.got {
		if g[0] == k {
			n++
			sym.Check(same(g[1:], w) == 1, "the request reaches the database as it was")
		}
	}
	return n
}

// writes counts the recorded requests that change the state
func (s *db) writes() int {
	n := 0
	for _, g := range s.got {
		switch g[0] {
		case qSetState, qAddBalance, qSubBalance, qSetNonce, qSetCode, qSetTransient, qDestruct, qDestruct6780, qCreate, qAddList, qAddSlot, qRevert:
			n++
		}
	}
	return n
}

// before tells whether some request of kind x, if any, comes before those of kind y
func (s *db) before(x, y byte) bool {
	for _, g := range s.got {
		if g[0] == x {
			return true
		}
		if g[0] == y {
			break
		}
	}
	for _, g := range s.got {
		if g[0] == x {
			return false
		}
	}
	return true
}

type ref gc.Address

func (r ref) Address() gc.Address { return gc.Address(r) }

// H_request: one request to the state
func H_request() {
	s := &db{}
	london := big.NewInt(0)
	cancun := uint64(100)
	late := sym.Param("late") == 1
	time := uint64(99)
	if late {
		time = 100
	}
	evm := geth.NewEVM(geth.BlockContext{BlockNumber: big.NewInt(7), Time: time, GetHash: func(n uint64) gc.Hash { s.add(99, be(n)); return gc.Hash(arr("r", 0, 32)) }}, geth.TxContext{}, s, &params.ChainConfig{LondonBlock: london, CancunTime: &cancun}, geth.Config{})
	self := arr("a", 2, 20)
	c := &runContextAdapter{evm: evm, contract: geth.NewContract(ref(self), ref(self), new(uint256.Int), 0)}
	a, b := tosca.Address(arr("a", 0, 20)), tosca.Address(arr("a", 1, 20))
	k, v := tosca.Key(arr("k", 0, 32)), tosca.Word(arr("v", 0, 32))
	n := sym.U64("n")
	r := arr("r", 0, 32)
	switch sym.Param("op") {
	case 0:
		got := c.GetStorage(a, k)
		sym.Check(same(got[:], r) == 1 && s.has(qState, a[:], k[:]) > 0 && s.writes() == 0, "storage read")
	case 1:
		got := c.SetStorage(a, k, v)
		want := tosca.GetStorageStatus(tosca.Word(arr("r", 1, 32)), tosca.Word(r), v)
		sym.Check(got == want, "status of a storage write")
		changed := bit(!(same(r, v[:]) == 1))
		w := s.has(qSetState, a[:], k[:], v[:])
		sym.Check(bit(w == 1) == changed || w == 1, "a changed value is written")
		s.has(qState, a[:], k[:])
		s.has(qCommitted, a[:], k[:])
	case 2:
		got := c.GetBalance(a)
		sym.Check(same(got[:], arr("b", 0, 32)) == 1 && s.has(qBalance, a[:]) > 0 && s.writes() == 0, "balance")
	case 3:
		sym.Check(uint64(c.GetCodeSize(a)) == sym.U64("size")&0xffff && s.has(qCodeSize, a[:]) > 0 && s.writes() == 0, "code size")
	case 4:
		got := c.GetCodeHash(a)
		sym.Check(same(got[:], r) == 1 && s.has(qCodeHash, a[:]) > 0 && s.writes() == 0, "code hash")
	case 5:
		sym.Check(same(c.GetCode(a), arr("c", 0, sym.Param("len"))) == 1 && s.has(qCode, a[:]) > 0 && s.writes() == 0, "code")
		code := arr("d", 0, sym.Param("len"))
		c.SetCode(a, code)
		sym.Check(s.has(qSetCode, a[:], code) == 1 && s.writes() == 1, "code update")
	case 6: // the balance of the executing contract goes to the beneficiary
		a = tosca.Address(self)
		got := c.SelfDestruct(a, b)
		sym.Check(bit(got) == (n&1)^1, "result of a self-destruct")
		sym.Check(s.has(qAddBalance, b[:], arr("b", 0, 32)) == 1, "the balance of a self-destructed contract is passed on")
		s.has(qDestructed, a[:])
		s.has(qBalance, self)
		if late {
			sym.Check(s.has(qSubBalance, self, arr("b", 0, 32)) == 1 && s.has(qDestruct6780, a[:]) == 1 && s.has(qDestruct) == 0, "self-destruct from Cancun on")
		} else {
			sym.Check(s.has(qDestruct, a[:]) == 1 && s.has(qDestruct6780) == 0 && s.has(qSubBalance) == 0, "self-destruct before Cancun")
		}
	case 7:
		got := c.GetBlockHash(int64(n))
		sym.Check(same(got[:], r) == 1 && s.has(99, be(n)) == 1, "block hash")
	case 8:
		got := c.AccessAccount(a)
		sym.Check(bit(got == tosca.WarmAccess) == n>>2&1, "access status of an account")
		sym.Check(s.has(qAddList, a[:]) == 1, "an accessed account is warm")
		s.has(qInList, a[:])
		sym.Check(s.before(qInList, qAddList), "the status is taken before the access")
	case 9:
		got := c.AccessStorage(a, k)
		sym.Check(bit(got == tosca.WarmAccess) == n>>3&1, "access status of a slot")
		sym.Check(s.has(qAddSlot, a[:], k[:]) == 1, "an accessed slot is warm")
		s.has(qSlotInList, a[:], k[:])
		sym.Check(s.before(qSlotInList, qAddSlot), "the status is taken before the access")
	case 10:
		got := c.GetTransientStorage(a, k)
		sym.Check(same(got[:], r) == 1 && s.has(qTransient, a[:], k[:]) == 1, "transient storage read")
		c.SetTransientStorage(a, k, v)
		sym.Check(s.has(qSetTransient, a[:], k[:], v[:]) == 1 && s.writes() == 1, "transient storage write")
	case 11:
		sym.Check(c.GetNonce(a) == sym.U64("nonce") && s.has(qNonce, a[:]) == 1, "nonce")
		c.SetNonce(a, n)
		sym.Check(s.has(qSetNonce, a[:], be(n)) == 1 && s.writes() == 1, "nonce update")
	case 12:
		want := tosca.Value(v)
		c.SetBalance(a, want)
		s.has(qBalance, a[:])
		have := tosca.Value(arr("b", 0, 32))
		changes := 0
		for _, g := range s.got {
			if g[0] == qAddBalance || g[0] == qSubBalance {
				sym.Check(same(g[1:21], a[:]) == 1, "the request reaches the database as it was")
				changes++
				d := tosca.Sub(want, have)
				if g[0] == qSubBalance {
					sym.Check(have.Cmp(want) >= 0, "balances do not become negative")
					d = tosca.Sub(have, want)
				}
				sym.Check(same(g[21:], d[:]) == 1, "the balance becomes the given one")
			}
		}
		sym.Check(changes == 1 || changes == 0 && have.Cmp(want) == 0, "the balance becomes the given one")
	case 13:
		m := int(sym.Param("topics"))
		var topics []tosca.Hash
		for i := 0; i < m; i++ {
			topics = append(topics, tosca.Hash(arr("t", uint64(i), 32)))
		}
		data := arr("d", 0, sym.Param("len"))
		c.EmitLog(tosca.Log{Address: a, Topics: topics, Data: data})
		sym.Check(s.log != nil && same(s.log.Address[:], a[:]) == 1 && same(s.log.Data, data) == 1 && len(s.log.Topics) == m && s.log.BlockNumber == 7, "log")
		for i := 0; i < m; i++ {
			sym.Check(same(s.log.Topics[i][:], topics[i][:]) == 1, "topics of a log")
		}
	case 14:
		sym.Check(uint64(c.CreateSnapshot()) == n, "snapshot")
		c.RestoreSnapshot(tosca.Snapshot(int(n)))
		sym.Check(s.has(qRevert, be(n)) == 1 && s.writes() == 1, "snapshot restored")
	case 15:
		code := arr("d", 0, sym.Param("len"))
		got := c.CreateAccount(a, code)
		w := s.has(qCreate, a[:])
		x := s.has(qSetCode, a[:], code)
		sym.Check(bit(got) == (n>>1&1)^1 && (w == 1) == got && (x == 1) == got, "account creation")
		s.has(qExist, a[:])
	}
}

// script executes as told
type script struct {
	run func(tosca.Parameters) (tosca.Result, error)
}

func (s *script) Run(p tosca.Parameters) (tosca.Result, error) { return s.run(p) }

var gethErrs = []error{geth.ErrInsufficientBalance, geth.ErrDepth, geth.ErrNonceUintOverflow, geth.ErrOutOfGas, geth.ErrCodeStoreOutOfGas, geth.ErrContractAddressCollision, geth.ErrMaxInitCodeSizeExceeded, geth.ErrMaxCodeSizeExceeded, geth.ErrInvalidJump,
	geth.ErrWriteProtection, geth.ErrReturnDataOutOfBounds, geth.ErrGasUintOverflow, geth.ErrInvalidCode, &geth.ErrStackUnderflow{}, &geth.ErrStackOverflow{}, &geth.ErrInvalidOpCode{}}
var errOther = errors.New("other")

// H_nested: an execution that may call once
func H_nested() {
	n, nested := int(sym.Param("kind")), sym.Param("nested")
	depth := int(sym.U64("depth") & 0xfff)
	sym.Assume(depth <= 1025)
	if sym.Param("top") == 1 {
		sym.Assume(depth == 0)
	} else {
		sym.Assume(depth > 0)
	}
	s := &db{refund: sym.U64("refund") & 0xffffffff}
	if sym.Param("top") == 0 {
		s.refund += 1 << 60 // an enclosing execution has shifted the counter
	}
	r0 := s.refund
	zero := big.NewInt(0)
	cancun := uint64(100)
	time := uint64(99)
	if sym.Param("rev") == 5 {
		time = 100
	}
	rev := sym.Param("rev") // 0: Istanbul ... 5: Cancun
	random := gc.Hash(arr("p", 0, 32))
	block := geth.BlockContext{BlockNumber: big.NewInt(7), Time: time, Random: &random, Difficulty: zero, GasLimit: sym.U64("limit"), Coinbase: gc.Address(arr("p", 1, 20))}
	tx := geth.TxContext{Origin: gc.Address(arr("p", 2, 20)), BlobHashes: []gc.Hash{gc.Hash(arr("p", 3, 32))}}
	if sym.Param("fees") == 1 { // shorter numbers are covered by H_numbers
		sym.Assume(sym.U64I("ok", 0)&1 == 1)
		sym.Assume(sym.U64I("left", 0)&1 == 1)
		sym.Assume(sym.U64I("ref", 0)>>39&1 == 1)
		for i := uint64(4); i < 7; i++ {
			sym.Assume(arr("v", i, 32)[0] > 0)
		}
		block.BaseFee, block.BlobBaseFee, tx.GasPrice = new(big.Int).SetBytes(arr("v", 4, 32)), new(big.Int).SetBytes(arr("v", 5, 32)), new(big.Int).SetBytes(arr("v", 6, 32))
	}
	if rev < 3 {
		sym.Assume(random[0] > 0)
		block.Random, block.Difficulty = nil, new(big.Int).SetBytes(random[:])
	}
	config := &params.ChainConfig{ChainID: big.NewInt(250), IstanbulBlock: zero, BerlinBlock: zero, LondonBlock: zero, ShanghaiTime: new(uint64), CancunTime: &cancun}
	if rev < 4 {
		config.ShanghaiTime = nil
	}
	if rev < 2 {
		config.LondonBlock = nil
	}
	if rev < 1 {
		config.BerlinBlock = nil
	}
	evm := geth.NewEVM(block, tx, s, config, geth.Config{})
	evm.SetDepth(depth)
	if nested > 0 { // other results of the calling contract are covered without a nested call
		sym.Assume(sym.U64I("ok", 0)&1 == 1)
		sym.Assume(sym.U64I("left", 0)&1 == 1)
		sym.Assume(sym.U64I("ref", 0)>>39&1 == sym.Param("kind")&1)
	}
	ro := sym.U64("n")&1 == 1
	gas, cgas := sym.U64("gas")&(1<<62-1), sym.U64("cgas")&(1<<62-1)
	from, self, to, code := arr("a", 0, 20), arr("a", 1, 20), arr("a", 2, 20), arr("a", 3, 20)
	m := sym.Param("len")
	var outer, inner tosca.Parameters
	inners := 0
	res := func(i uint64) tosca.Result {
		ref := int64(sym.U64I("ref", i)&(1<<40-1)) - 1<<39
		left := sym.U64I("left", i) & (1<<62 - 1)
		return tosca.Result{Success: sym.U64I("ok", i)&1 == 1, Output: arr("out", i, m), GasLeft: tosca.Gas(left), GasRefund: tosca.Gas(ref)}
	}
	var call tosca.CallResult
	var callErr error
	nestedRun := &script{}
	nestedRun.run = func(p tosca.Parameters) (tosca.Result, error) {
		inner = p
		inners++
		return res(1), nil
	}
	price := sym.U64("price")
	e := sym.Param("error")
	var wantKind = []byte{geth.KCall, geth.KDelegateCall, geth.KStaticCall, geth.KCallCode, geth.KCreate, geth.KCreate2}[n]
	evm.Enter = func(k byte, caller geth.ContractRef, addr gc.Address, input []byte, g uint64, value, salt *uint256.Int) ([]byte, gc.Address, uint64, error) {
		sym.Check(k == wantKind, "kind of the nested call")
		ca := caller.Address()
		sym.Check(same(ca[:], self)&same(input, arr("in", 1, m)) == 1, "caller and input of the nested call")
		if k == geth.KCall || k == geth.KStaticCall {
			sym.Check(same(addr[:], to) == 1, "recipient of the nested call")
		}
		if k == geth.KDelegateCall || k == geth.KCallCode {
			sym.Check(same(addr[:], code) == 1, "code address of the nested call")
		}
		if value != nil {
			sym.Check(same(b32(value), arr("v", 1, 32)) == 1, "value of the nested call")
		} else {
			sym.Check(k == geth.KDelegateCall || k == geth.KStaticCall, "value of the nested call")
		}
		if k == geth.KCreate2 {
			sym.Check(same(b32(salt), arr("v", 2, 32)) == 1, "salt of the nested creation")
		}
		created := gc.Address(arr("a", 4, 20))
		snap := s.refund
		switch nested {
		case 1: // a contract
			c := geth.NewContract(ref(self), ref(addr), word("v", 1), g)
			o, err := (&gethInterpreterAdapter{interpreter: nestedRun, evm: evm}).Run(c, input, k == geth.KStaticCall)
			if err != nil {
				s.refund = snap
				if err != geth.ErrExecutionReverted {
					c.Gas = 0
				}
			}
			return o, created, c.Gas, err
		case 2: // a precompiled contract
			if g < price {
				return nil, created, 0, geth.ErrOutOfGas
			}
			return arr("out", 1, m), created, g - price, nil
		}
		// fails before anything is executed
		if e < uint64(len(gethErrs)) {
			return nil, created, g, gethErrs[e]
		}
		return nil, created, g, errOther
	}
	interp := &script{}
	kind := []tosca.CallKind{tosca.Call, tosca.DelegateCall, tosca.StaticCall, tosca.CallCode, tosca.Create, tosca.Create2}[n]
	runs := 0
	interp.run = func(p tosca.Parameters) (tosca.Result, error) {
		outer = p
		runs++
		if nested > 0 {
			call, callErr = p.Context.Call(kind, tosca.CallParameters{Sender: tosca.Address(self), Recipient: tosca.Address(to), Value: tosca.Value(arr("v", 1, 32)), Input: arr("in", 1, m), Gas: tosca.Gas(cgas), Salt: tosca.Hash(arr("v", 2, 32)), CodeAddress: tosca.Address(code)})
		}
		return res(0), nil
	}
	if n == 0 || n == 2 { // for calls, the code is the recipient's
		for i := range to {
			sym.Assume(to[i] == code[i])
		}
	}
	if n >= 4 {
		for i := range code {
			sym.Assume(code[i] == 0)
		}
	}
	last := uint64(9)
	if rev == 5 {
		last = 10
	}
	hi := byte(0)
	for _, x := range code[:19] {
		hi |= x
	}
	precompiled := bit(hi == 0) & bit(code[19] != 0) & bit(uint64(code[19]) <= last)
	if nested == 2 {
		sym.Assume(precompiled == 1)
	}
	if nested == 1 {
		sym.Assume(precompiled == 0)
	}
	if nested == 1 || nested == 3 {
		// where the first other byte of the address is
		low := int(sym.Param("low"))
		for i := 0; i < low; i++ {
			sym.Assume(code[i] == 0)
		}
		if low < 19 {
			sym.Assume(code[low] != 0)
		}
		sym.Assume(hi != 0 || code[19] != 10) // no contract is at the address of a future precompiled one
	}
	g := gas
	if ro && sym.Param("top") == 0 {
		g = encodeReadOnlyInGas(gas, tosca.Address{0xff}, true)
	}
	c := geth.NewContract(ref(from), ref(self), word("v", 0), g)
	c.Code = arr("code", 0, m)
	if sym.Param("hashed") == 1 {
		h := arr("v", 3, 32)
		h[0] |= 1
		c.CodeHash = gc.Hash(h)
	}
	o, err := (&gethInterpreterAdapter{interpreter: interp, evm: evm}).Run(c, arr("in", 0, m), ro && sym.Param("top") == 1)
	if runs == 0 {
		sym.Check(depth > 1024 && err == geth.ErrDepth, "executions up to depth 1024 are processed")
		return
	}
	sym.Check(runs == 1 && depth <= 1024, "no execution below depth 1024")
	sym.Check(evm.GetDepth() == depth, "the depth is restored")
	// what the interpreter was given
	sym.Check(bit(outer.Static)&1 == sym.U64("n")&1, "read-only mode")
	sym.Check(uint64(outer.Gas) == gas, "gas of the execution")
	sym.Check(outer.Depth == depth, "depth of the execution")
	sym.Check(same(outer.Recipient[:], self)&same(outer.Sender[:], from)&same(outer.Input, arr("in", 0, m))&same(outer.Code, arr("code", 0, m))&same(outer.Value[:], arr("v", 0, 32))&
		bit(uint64(outer.GasLimit) == sym.U64("limit"))&same(outer.Coinbase[:], arr("p", 1, 20))&same(outer.Origin[:], arr("p", 2, 20))&same(outer.PrevRandao[:], arr("p", 0, 32)) == 1, "parameters of the execution")
	sym.Check(outer.BlockNumber == 7 && outer.Timestamp == int64(time) && outer.ChainID == tosca.Word{31: 250} && len(outer.BlobHashes) == 1, "block of the execution")
	if len(outer.BlobHashes) == 1 {
		sym.Check(same(outer.BlobHashes[0][:], arr("p", 3, 32)) == 1, "blob hashes of the execution")
	}
	sym.Check(outer.Revision == []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}[rev], "revision of the execution")
	var fees [96]byte
	if sym.Param("fees") == 1 {
		for i := range fees {
			fees[i] = arr("v", 4+uint64(i)/32, 32)[i%32]
		}
	}
	sym.Check(same(outer.BaseFee[:], fees[:32])&same(outer.BlobBaseFee[:], fees[32:64])&same(outer.GasPrice[:], fees[64:]) == 1, "prices of the execution")
	if sym.Param("hashed") == 1 {
		sym.Check(outer.CodeHash != nil && same(outer.CodeHash[:], c.CodeHash[:]) == 1, "code hash of the execution")
	} else {
		sym.Check(outer.CodeHash == nil, "code hash of the execution")
	}
	x, y := res(0), res(1)
	switch nested {
	case 1:
		if depth+1 > 1024 {
			sym.Check(inners == 0 && callErr == nil && !call.Success && uint64(call.GasLeft) == cgas, "calls beyond the depth limit give the gas back")
		} else {
			sym.Check(inners == 1, "the nested contract is executed")
			sym.Check(bit(inner.Static) == sym.U64("n")&1|bit(kind == tosca.StaticCall), "read-only mode of the nested execution")
			sym.Check(uint64(inner.Gas) == cgas, "gas of the nested execution")
			sym.Check(inner.Depth == depth+1, "depth of the nested execution")
			kept := y.Success || y.GasLeft > 0 || m > 0
			sym.Check(callErr == nil && call.Success == y.Success, "success of the nested execution")
			if kept {
				sym.Check(call.GasLeft == y.GasLeft && same(call.Output, y.Output) == 1, "result of the nested execution")
			} else {
				sym.Check(call.GasLeft == 0 && len(call.Output) == 0, "result of the nested execution")
			}
		}
	case 2:
		sym.Check(callErr == nil && call.Success == (cgas >= price), "a precompiled contract succeeds if it is paid")
		if cgas >= price {
			sym.Check(uint64(call.GasLeft) == cgas-price && same(call.Output, y.Output) == 1, "result of a precompiled contract")
		} else {
			sym.Check(call.GasLeft == 0, "result of a precompiled contract")
		}
	case 3:
		sym.Check(!call.Success && len(call.Output) == 0, "a failed call has no result")
		switch {
		case e < 3:
			sym.Check(callErr == nil && uint64(call.GasLeft) == cgas, "a call that is not started gives the gas back")
		case e < uint64(len(gethErrs)):
			sym.Check(callErr == nil && call.GasLeft == 0, "a failed call consumes its gas")
		default:
			sym.Check(callErr != nil, "unknown errors are reported")
		}
	}
	if n >= 4 && nested > 0 && callErr == nil && call.Success {
		sym.Check(same(call.CreatedAddress[:], arr("a", 4, 20)) == 1, "address of the new contract")
	}
	if nested > 0 {
		sym.Check(call.GasRefund == 0, "refunds of nested calls are kept by the database")
	}
	// what geth gets
	left := uint64(x.GasLeft)
	switch {
	case x.Success:
		sym.Check(err == nil && c.Gas == left && same(o, x.Output) == 1, "result of the execution")
		sum := int64(r0) + int64(x.GasRefund)
		if inners == 1 && y.Success {
			sum += int64(y.GasRefund)
		}
		if sum >= 0 {
			sym.Check(int64(s.refund) == sum, "the refund counter grows by the granted refunds")
		} else {
			sym.Check(s.refund <= r0, "the refund counter does not grow by refunds taken back")
		}
	case left > 0 || m > 0:
		sym.Check(err == geth.ErrExecutionReverted && c.Gas == left && same(o, x.Output) == 1, "result of a reverted execution")
	default:
		sym.Check(err != nil && err != geth.ErrExecutionReverted && len(o) == 0, "a failed execution is reported")
	}
}

// H_numbers: conversions of big numbers
func H_numbers() {
	n := sym.Param("len")
	b := arr("x", 0, n)
	v, err := bigIntToValue(new(big.Int).SetBytes(b))
	if n <= 32 {
		w := make([]byte, 32)
		copy(w[32-n:], b)
		sym.Check(err == nil && same(v[:], w) == 1, "number")
	} else {
		hi := byte(0)
		for _, x := range b[:n-32] {
			hi |= x
		}
		sym.Check((err != nil) == (hi != 0), "numbers of more than 256 bits are refused")
	}
	if n > 0 {
		neg := new(big.Int).Neg(new(big.Int).SetBytes(b))
		_, err = bigIntToValue(neg)
		d := byte(0)
		for _, x := range b {
			d |= x
		}
		sym.Check((err != nil) == (d != 0), "negative numbers are refused")
	}
	z, err := bigIntToValue(nil)
	sym.Check(err == nil && z == tosca.Value{}, "missing numbers are zero")
}
