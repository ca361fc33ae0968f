package st

import (
	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/sym"
)

func addr20(b byte) (a tosca.Address) { a[19] = b; a[0] = 0xaa; return }
func same32(a, b U256) uint64 {
	x, y := a.Uint256(), b.Uint256()
	return bit((x[0]^y[0])|(x[1]^y[1])|(x[2]^y[2])|(x[3]^y[3]) == 0)
}

// base constructs a state with content in every component; every call
// constructs an equal but independent one.
func base(status StatusCode) *State {
	s := NewState(NewCode([]byte{0x60, 0x01, 0x00}))
	s.Status = status
	s.Pc, s.Gas, s.GasRefund = 1, 1000, 20
	s.Stack = NewStack(word("w", 0), word("w", 1))
	s.Memory = NewMemory(make([]byte, 32)...)
	s.Memory.mem[3] = sym.U8I("m", 0)
	s.Storage = NewStorageBuilder().SetCurrent(NewU256(1), word("w", 2)).SetCurrent(NewU256(2), NewU256(5)).SetOriginal(NewU256(1), NewU256(9)).SetWarm(NewU256(1), true).Build()
	s.TransientStorage = &TransientStorage{}
	s.TransientStorage.Set(NewU256(1), NewU256(7))
	s.Accounts = NewAccountsBuilder().SetBalance(addr20(1), word("w", 3)).SetCode(addr20(2), NewBytes([]byte{1, 2})).SetWarm(addr20(1)).Build()
	s.Logs = NewLogs()
	s.Logs.AddLog([]byte{1, 2}, NewU256(3))
	s.CallContext = CallContext{AccountAddress: addr20(1), CallerAddress: addr20(2), Value: NewU256(3)}
	s.CallJournal = &CallJournal{Past: []PastCall{{Recipient: addr20(1), Sender: addr20(2), Input: NewBytes([]byte{4}), Gas: 5, CodeAddress: addr20(3)}}, Future: []FutureCall{{Success: sym.Param("failing") == 0, Output: NewBytes([]byte{1}), GasCosts: 3, GasRefund: 1, CreatedAccount: addr20(4)}}}
	s.BlockContext = BlockContext{BaseFee: NewU256(1), BlobBaseFee: NewU256(2), BlockNumber: 3, ChainID: NewU256(4), CoinBase: addr20(5), GasLimit: 6, GasPrice: NewU256(7), PrevRandao: NewU256(8), TimeStamp: 9}
	s.CallData, s.LastCallReturnData, s.ReturnData = NewBytes([]byte{1}), NewBytes([]byte{2, 3}), NewBytes([]byte{4})
	s.SelfDestructedJournal = []SelfDestructEntry{NewSelfDestructEntry(addr20(1), addr20(2))}
	s.RecentBlockHashes = NewImmutableHashArray(tosca.Hash{1}, tosca.Hash{2})
	s.TransactionContext = &TransactionContext{OriginAddress: addr20(1), BlobHashes: []tosca.Hash{{1}}}
	return s
}

func arr(name string, i uint64, n int) []byte {
	b := make([]byte, n)
	sym.BytesI(b, name, i)
	return b
}
func eqb(a []byte, b ...byte) uint64 {
	if len(a) != len(b) {
		return 0
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return bit(d == 0)
}
func symAddr(i uint64) tosca.Address     { return tosca.Address(arr("a", i, 20)) }
func isAddr(a tosca.Address, b byte) uint64 { x := addr20(b); return eqb(a[:], x[:]...) }

const components = 60

// mutate changes component c of the state to arbitrary values and reports
// whether the state is the same as before; live tells in which states
// the component takes part in comparisons.
func mutate(s *State, c int) (same, live uint64) {
	live = 1
	running := bit(s.Status == Running)
	v, x, a := word("v", 0), sym.U64("x"), symAddr(0)
	b := byte(x)
	switch c {
	case 0:
		s.Revision = tosca.Revision(x & 7)
		same = bit(x&7 == uint64(tosca.R07_Istanbul))
	case 1:
		s.ReadOnly = x&1 == 1
		same = x&1 ^ 1
	case 2:
		s.Pc = uint16(x)
		same = bit(uint16(x) == 1)
		live = running & bit(uint16(x) != 1)
	case 3:
		s.Gas = tosca.Gas(x)
		same = bit(x == 1000)
	case 4:
		s.GasRefund = tosca.Gas(x)
		same = bit(x == 20)
	case 5:
		s.Code = NewCode([]byte{0x60, b, 0x00})
		same = bit(b == 1)
	case 6:
		s.Stack.Set(0, v)
		same = same32(v, word("w", 1))
		live = running
	case 7:
		s.Stack.Push(v)
		live = running
	case 8:
		s.Stack.Pop()
		live = running
	case 9:
		s.Memory.Write([]byte{b}, 3)
		same = bit(b == sym.U8I("m", 0))
		live = running
	case 10:
		s.Memory.Grow(0, 33)
		live = running
	case 11: // the current value of any key; missing ones are zero
		k := NewU256(uint64(b))
		same = same32(s.Storage.GetCurrent(k), v)
		s.Storage.SetCurrent(k, v)
		sym.Check(same32(s.Storage.GetCurrent(k), v) == 1, "storage holds what was set")
	case 12:
		s.Storage.RemoveCurrent(NewU256(1))
		same = same32(word("w", 2), NewU256(0))
	case 13:
		k := NewU256(uint64(b))
		same = same32(s.Storage.GetOriginal(k), v)
		sym.Assume(!v.IsZero())
		s.Storage.SetOriginal(k, v)
		sym.Check(same32(s.Storage.GetOriginal(k), v) == 1, "storage holds what was set")
	case 14:
		s.Storage.RemoveOriginal(NewU256(1))
	case 15:
		s.Storage.MarkWarm(NewU256(uint64(b)))
		same = bit(b == 1)
		sym.Check(s.Storage.IsWarm(NewU256(uint64(b))), "a warm slot is warm")
	case 16:
		s.Storage.MarkCold(NewU256(uint64(b)))
		same = bit(b != 1)
		sym.Check(!s.Storage.IsWarm(NewU256(uint64(b))), "a cold slot is cold")
	case 17:
		k := NewU256(uint64(b))
		same = same32(s.TransientStorage.Get(k), v)
		s.TransientStorage.Set(k, v)
		sym.Check(same32(s.TransientStorage.Get(k), v) == 1, "transient storage holds what was set")
		sym.Check(s.TransientStorage.IsZero(k) == v.IsZero(), "a zero slot is zero")
	case 18:
		had := bit(b == 1) | bit(b == 2)
		same = same32(s.Accounts.GetBalance(addr20(b)), v) & had
		s.Accounts.SetBalance(addr20(b), v)
		sym.Check(same32(s.Accounts.GetBalance(addr20(b)), v) == 1 && s.Accounts.Exists(addr20(b)), "an account holds what was set")
		sym.Check(s.Accounts.IsEmpty(addr20(b)) == (v.IsZero() && b != 2), "emptiness of an account")
	case 19:
		s.Accounts.MarkWarm(addr20(b))
		same = bit(b == 1)
		sym.Check(s.Accounts.IsWarm(addr20(b)), "a warm account is warm")
	case 20:
		s.Logs.AddLog([]byte{b}, v)
	case 21:
		s.Logs.Entries[0].Data[1] = b
		same = bit(b == 2)
	case 22:
		s.Logs.Entries[0].Topics[0] = v
		same = same32(v, NewU256(3))
	case 23:
		s.CallContext.AccountAddress = a
		same = isAddr(a, 1)
	case 24:
		s.CallContext.CallerAddress = a
		same = isAddr(a, 2)
	case 25:
		s.CallContext.Value = v
		same = same32(v, NewU256(3))
	case 26:
		r := s.CallJournal.Call(tosca.Call, tosca.CallParameters{Recipient: a, Gas: 10})
		sym.Check(r.Success && r.GasLeft == 7 && r.GasRefund == 1 && len(r.Output) == 1 && r.Output[0] == 1, "the next result of the journal")
		sym.Check(len(s.CallJournal.Past) == 2 && len(s.CallJournal.Future) == 0 && s.CallJournal.Past[1].Recipient == a, "the call is recorded")
	case 27:
		s.CallJournal.Past[0].Kind = tosca.CallKind(x & 3)
		same = bit(x&3 == 0)
	case 28:
		s.CallJournal.Past[0].Recipient = a
		same = isAddr(a, 1)
	case 29:
		s.CallJournal.Past[0].Sender = a
		same = isAddr(a, 2)
	case 30:
		s.CallJournal.Past[0].Input = NewBytes([]byte{b})
		same = bit(b == 4)
	case 31:
		s.CallJournal.Past[0].Value = tosca.Value(arr("v", 0, 32))
		same = same32(v, NewU256(0))
	case 32:
		s.CallJournal.Past[0].Gas = tosca.Gas(x)
		same = bit(x == 5)
	case 33:
		s.CallJournal.Past[0].CodeAddress = a
		same = isAddr(a, 3)
	case 34:
		s.CallJournal.Future[0].Success = x&1 == 1
		same = x & 1
	case 35:
		s.CallJournal.Future[0].Output = NewBytes([]byte{b})
		same = bit(b == 1)
	case 36:
		s.CallJournal.Future[0].GasCosts = tosca.Gas(x)
		same = bit(x == 3)
	case 37:
		s.CallJournal.Future[0].GasRefund = tosca.Gas(x)
		same = bit(x == 1)
	case 38:
		s.CallJournal.Future[0].CreatedAccount = a
		same = isAddr(a, 4)
	case 39:
		s.BlockContext.BaseFee = v
		same = same32(v, NewU256(1))
	case 40:
		s.BlockContext.BlobBaseFee = v
		same = same32(v, NewU256(2))
	case 41:
		s.BlockContext.BlockNumber = x
		same = bit(x == 3)
	case 42:
		s.BlockContext.ChainID = v
		same = same32(v, NewU256(4))
	case 43:
		s.BlockContext.CoinBase = a
		same = isAddr(a, 5)
	case 44:
		s.BlockContext.GasLimit = x
		same = bit(x == 6)
	case 45:
		s.BlockContext.GasPrice = v
		same = same32(v, NewU256(7))
	case 46:
		s.BlockContext.PrevRandao = v
		same = same32(v, NewU256(8))
	case 47:
		s.BlockContext.TimeStamp = x
		same = bit(x == 9)
	case 48:
		s.CallData = NewBytes([]byte{b})
		same = bit(b == 1)
	case 49:
		s.LastCallReturnData = NewBytes([]byte{2, b})
		same = bit(b == 3)
		live = running
	case 50: // only the result of a finished execution
		s.ReturnData = NewBytes([]byte{b})
		same = bit(b == 4)
		live = running ^ 1
	case 51:
		s.HasSelfDestructed = x&1 == 1
		same = x&1 ^ 1
	case 52:
		s.SelfDestructedJournal[0] = NewSelfDestructEntry(a, addr20(2))
		same = isAddr(a, 1)
	case 53:
		s.SelfDestructedJournal[0] = NewSelfDestructEntry(addr20(1), a)
		same = isAddr(a, 2)
	case 54:
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, NewSelfDestructEntry(a, a))
	case 55:
		s.RecentBlockHashes = NewImmutableHashArray(tosca.Hash{1}, tosca.Hash{b})
		same = bit(b == 2)
	case 56:
		s.TransactionContext.OriginAddress = a
		same = isAddr(a, 1)
	case 57:
		s.TransactionContext.BlobHashes[0] = tosca.Hash{b}
		same = bit(b == 1)
	case 58:
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, tosca.Hash{b})
	case 59:
		to := StatusCode(x & 3)
		same = bit(s.Status == to)
		s.Status = to
		live = 2
	}
	return
}

// H_state: copies are equal and independent, comparisons exact
func H_state() {
	status, c := StatusCode(sym.Param("status")), int(sym.Param("component"))
	s := base(status)
	o := s.Clone()
	sym.Check(s.Eq(o) && o.Eq(s), "a copy equals its original")
	sym.Check(len(s.Diff(o)) == 0, "no differences to a copy")
	m := s
	if sym.Param("copy") == 1 {
		m = o
	}
	same, live := mutate(m, c)
	k := o
	if m == o {
		k = s
	}
	// k is the untouched one
	ref := base(status)
	sym.Check(len(k.Diff(ref)) == 0 && k.ReturnData == ref.ReturnData, "a copy and its original are independent")
	// comparisons
	eq := same | (live&1 ^ 1)
	if live == 2 { // the status
		eq = same
	} else if status == Failed {
		eq = 1
	}
	if c == 2 { // positions behind the end of the code are all the same
		eq = same | bit(status != Running)
	}
	got := bit(m.Eq(k))
	sym.CheckU64(got, eq, "equality")
	sym.CheckU64(bit(k.Eq(m)), eq, "equality, the other way round")
	if c == 50 && (status == Running || status == Failed) {
		same = 1
	}
	sym.CheckU64(bit(len(m.Diff(k)) == 0), same, "differences are listed exactly if there are any")
	sym.CheckU64(bit(len(k.Diff(m)) == 0), same, "differences are listed exactly if there are any, the other way round")
}

// H_pc: program counters behind the end of the code are the same
func H_pc() {
	n := sym.Param("len")
	s := base(Running)
	s.Code = NewCode(make([]byte, n))
	o := s.Clone()
	s.Pc, o.Pc = uint16(sym.U64("x")), uint16(sym.U64("y"))
	p, q := uint64(s.Pc), uint64(o.Pc)
	sym.CheckU64(bit(s.Eq(o)), bit(p == q)|bit(p >= n)&bit(q >= n), "equality")
}

// H_codehash: the hash of the code of an account
func H_codehash() {
	n := sym.Param("len")
	code := make([]byte, n)
	sym.Bytes(code, "c")
	a := NewAccounts()
	b := NewAccountsBuilder().SetCode(addr20(1), NewBytes(code)).Build()
	var want, empty [32]byte
	sym.Keccak(code, want[:])
	sym.Keccak(nil, empty[:])
	sym.Check(eqb(b.GetCode(addr20(1)).ToBytes(), code...) == 1, "code of an account")
	h, e := b.GetCodeHash(addr20(1)), a.GetCodeHash(addr20(1))
	sym.Check(eqb(h[:], want[:]...)&eqb(e[:], empty[:]...) == 1, "hash of the code of an account")
}
