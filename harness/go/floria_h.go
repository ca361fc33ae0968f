package floria

import (
	"errors"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"verif/sym"
)

// ---- the world: uninterpreted initial contents and journals of writes
type balW struct {
	a tosca.Address
	v tosca.Value
}
type nonW struct {
	a tosca.Address
	n [8]byte
}
type codW struct {
	a    tosca.Address
	code tosca.Code
}
type stoW struct {
	a    tosca.Address
	k    tosca.Key
	v    tosca.Word
	temp bool
}
type marks struct{ bal, non, cod, sto, log int }
type world struct {
	bal   []balW
	non   []nonW
	cod   []codW
	sto   []stoW
	log   []tosca.Log
	snaps []marks
	warm  []tosca.Address // accounts and slots announced as accessed
	slots []stoW
	seen  []tosca.Address
}

func put64(b []byte, v uint64) {
	_ = b[7]
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (56 - 8*i))
	}
}
func get64(b []byte) (v uint64) {
	for _, x := range b[:8] {
		v = v<<8 | uint64(x)
	}
	return
}
func cat(parts ...[]byte) (r []byte) {
	for _, p := range parts {
		r = append(r, p...)
	}
	return
}
func or64(b []byte) (r uint64) {
	for i := 0; i+8 <= len(b); i += 8 {
		r |= get64(b[i:])
	}
	return
}
func initSize(a tosca.Address) uint64 {
	var r [8]byte
	sym.UF("codesize", a[:], r[:])
	return get64(r[:])
}
func initHash(a tosca.Address) (r tosca.Hash)     { sym.UF("codehash", a[:], r[:]); return }
func initBalance(a tosca.Address) (r tosca.Value) { sym.UF("balance", a[:], r[:]); return }
func initNonce(a tosca.Address) (r [8]byte)       { sym.UF("nonce", a[:], r[:]); return }
func initExists(a tosca.Address) bool {
	var r [1]byte
	sym.UF("present", a[:], r[:])
	return r[0]&1 == 1
}

// tie relates the initial facts about an account: a non-empty account exists, accounts that do not exist have the zero
// code hash, those without code the hash of the empty code
func tie(a tosca.Address) {
	h, n := initHash(a), initSize(a)
	v, no := initBalance(a), initNonce(a)
	ex := bit(initExists(a))
	x, hz, he := nz(or64(v[:])|get64(no[:])|n), nz(or64(h[:])), bit(h == emptyHash())
	sym.Assume(n <= 48)
	sym.Assume(x&^ex == 0)
	sym.Assume(hz == ex)
	sym.Assume(nz(n) == 1^(he|(1^hz)))
}

// conditions as numbers, without branches
func nz(x uint64) uint64 { return (x | -x) >> 63 }
func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func emptyHash() tosca.Hash { return tosca.Hash(crypto.Keccak256(nil)) }

func (w *world) AccountExists(a tosca.Address) bool {
	tie(a)
	v := w.GetBalance(a)
	return bit(initExists(a))|or64(v[:])|w.GetNonce(a)|uint64(w.GetCodeSize(a)) != 0
}
func (w *world) GetBalance(a tosca.Address) tosca.Value {
	tie(a)
	v := initBalance(a)
	for i := range w.bal {
		sym.Sel(w.bal[i].a == a, v[:], w.bal[i].v[:])
	}
	return v
}
func (w *world) SetBalance(a tosca.Address, v tosca.Value) { w.bal = append(w.bal, balW{a, v}) }
func (w *world) GetNonce(a tosca.Address) uint64 {
	tie(a)
	v := initNonce(a)
	for i := range w.non {
		sym.Sel(w.non[i].a == a, v[:], w.non[i].n[:])
	}
	return get64(v[:])
}
func (w *world) SetNonce(a tosca.Address, n uint64) {
	var b [8]byte
	put64(b[:], n)
	w.non = append(w.non, nonW{a, b})
}
func (w *world) lastCode(a tosca.Address) int {
	for i := len(w.cod) - 1; i >= 0; i-- {
		if w.cod[i].a == a {
			return i
		}
	}
	return -1
}
func (w *world) GetCodeHash(a tosca.Address) (h tosca.Hash) {
	tie(a)
	if i := w.lastCode(a); i >= 0 {
		return tosca.Hash(crypto.Keccak256(w.cod[i].code))
	}
	h = initHash(a)
	e := emptyHash()
	v := w.GetBalance(a)
	sym.Sel(nz(or64(h[:]))|(1^nz(or64(v[:])|w.GetNonce(a))) == 0, h[:], e[:])
	return
}
func (w *world) GetCode(a tosca.Address) tosca.Code {
	tie(a)
	if i := w.lastCode(a); i >= 0 {
		return w.cod[i].code
	}
	return tosca.Code(sym.UFBytes("code", a[:], 48)[:initSize(a)])
}
func (w *world) GetCodeSize(a tosca.Address) int {
	tie(a)
	if i := w.lastCode(a); i >= 0 {
		return len(w.cod[i].code)
	}
	return int(initSize(a))
}
func (w *world) SetCode(a tosca.Address, c tosca.Code) { w.cod = append(w.cod, codW{a, c}) }
func (w *world) read(a tosca.Address, k tosca.Key, temp bool) (v tosca.Word) {
	if !temp {
		sym.UF("storage", cat(a[:], k[:]), v[:])
	}
	for i := range w.sto {
		if w.sto[i].temp == temp {
			sym.Sel(bit(w.sto[i].a == a)&bit(w.sto[i].k == k) == 1, v[:], w.sto[i].v[:])
		}
	}
	return
}
func (w *world) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.read(a, k, false) }
func (w *world) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	w.sto = append(w.sto, stoW{a, k, v, false})
	return tosca.StorageAssigned
}
func (w *world) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.read(a, k, true) }
func (w *world) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.sto = append(w.sto, stoW{a, k, v, true})
}
func (w *world) SelfDestruct(a, b tosca.Address) bool { sym.Check(false, "self-destruct requested"); return false }
func (w *world) mark() marks {
	return marks{len(w.bal), len(w.non), len(w.cod), len(w.sto), len(w.log)}
}
func (w *world) rewind(m marks) {
	w.bal, w.non, w.cod, w.sto, w.log = w.bal[:m.bal:m.bal], w.non[:m.non:m.non], w.cod[:m.cod:m.cod], w.sto[:m.sto:m.sto], w.log[:m.log:m.log]
}
func (w *world) CreateSnapshot() tosca.Snapshot {
	w.snaps = append(w.snaps, w.mark())
	return tosca.Snapshot(len(w.snaps) - 1)
}
func (w *world) RestoreSnapshot(s tosca.Snapshot) {
	if int(s) < 0 || int(s) >= len(w.snaps) {
		sym.Check(false, "snapshot that was never taken or is gone")
		return
	}
	w.rewind(w.snaps[s])
	w.snaps = w.snaps[:s]
}
func (w *world) AccessAccount(a tosca.Address) tosca.AccessStatus {
	r := uint64(0)
	for _, x := range w.warm {
		r |= bit(x == a)
	}
	w.warm = append(w.warm, a)
	return tosca.AccessStatus(r == 1)
}
func (w *world) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	_, r := w.IsSlotInAccessList(a, k)
	w.slots = append(w.slots, stoW{a: a, k: k})
	return tosca.AccessStatus(r)
}
func (w *world) EmitLog(l tosca.Log)                                          { w.log = append(w.log, l) }
func (w *world) GetLogs() []tosca.Log                                         { return w.log }
func (w *world) GetBlockHash(int64) (h tosca.Hash)                            { return }
func (w *world) GetCommittedStorage(a tosca.Address, k tosca.Key) (r tosca.Word) {
	sym.UF("storage", cat(a[:], k[:]), r[:])
	return
}
func (w *world) IsAddressInAccessList(a tosca.Address) bool {
	r := uint64(0)
	for _, x := range w.warm {
		r |= bit(x == a)
	}
	return r == 1
}
func (w *world) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	r := uint64(0)
	for i := range w.slots {
		r |= bit(w.slots[i].a == a) & bit(w.slots[i].k == k)
	}
	return w.IsAddressInAccessList(a), r == 1
}
func (w *world) HasSelfDestructed(tosca.Address) bool                     { return false }

// a copy with its own journals
func (w *world) clone() *world {
	return &world{bal: append([]balW{}, w.bal...), non: append([]nonW{}, w.non...), cod: append([]codW{}, w.cod...), sto: append([]stoW{}, w.sto...), log: append([]tosca.Log{}, w.log...)}
}

// agree: the two worlds give the same answers about an arbitrary account and slot
func agree(a, b *world) (bool, bool, bool, bool, bool) {
	var q tosca.Address
	var k tosca.Key
	sym.Bytes(q[:], "q")
	sym.Bytes(k[:], "qk")
	x, y := a.GetBalance(q), b.GetBalance(q)
	n := a.GetNonce(q) == b.GetNonce(q)
	s := bit(a.GetStorage(q, k) == b.GetStorage(q, k))&bit(a.GetTransientStorage(q, k) == b.GetTransientStorage(q, k)) == 1
	// most often the same was written in the same order
	sb, sn, ss := uint64(0), uint64(0), uint64(0)
	if len(a.bal) == len(b.bal) {
		sb = 1
		for i := range a.bal {
			sb &= bit(a.bal[i].a == b.bal[i].a) & bit(a.bal[i].v == b.bal[i].v)
		}
	}
	if len(a.non) == len(b.non) {
		sn = 1
		for i := range a.non {
			sn &= bit(a.non[i].a == b.non[i].a) & bit(a.non[i].n == b.non[i].n)
		}
	}
	if len(a.sto) == len(b.sto) {
		ss = 1
		for i := range a.sto {
			if a.sto[i].temp != b.sto[i].temp {
				ss = 0
			}
			ss &= bit(a.sto[i].a == b.sto[i].a) & bit(a.sto[i].k == b.sto[i].k) & bit(a.sto[i].v == b.sto[i].v)
		}
	}
	c := true
	if len(a.cod)+len(b.cod) > 0 {
		if sameJournal(a.cod, b.cod) == 0 {
			c = sameCode(a.GetCode(q), b.GetCode(q))
		}
	}
	l := len(a.log) == len(b.log)
	return sb|bit(x == y) == 1, sn|bit(n) == 1, ss|bit(s) == 1, c, l
}
// sameJournal: the same code was written to the same addresses in the same order
func sameJournal(x, y []codW) (r uint64) {
	if len(x) != len(y) {
		return 0
	}
	r = 1
	for i := range x {
		r &= bit(x[i].a == y[i].a)
		c, d := x[i].code, y[i].code
		if cap(c) == 48 && cap(d) == 48 { // initial code
			r &= 1 ^ nz(uint64(len(c)^len(d)))
			v := byte(0)
			for j, b := range c[:48] {
				v |= b ^ d[:48][j]
			}
			r &= 1 ^ nz(uint64(v))
			continue
		}
		if len(c) != len(d) {
			return 0
		}
		if len(c) > 0 && &c[0] != &d[0] {
			v := byte(0)
			for j := range c {
				v |= c[j] ^ d[j]
			}
			r &= 1 ^ nz(uint64(v))
		}
	}
	return
}
func checkSame(a, b *world) {
	x, n, s, c, l := agree(a, b)
	sym.Check(x, "balances as expected")
	sym.Check(n, "nonces as expected")
	sym.Check(s, "storage as expected")
	sym.Check(c, "code as expected")
	sym.Check(l, "logs as expected")
}
func checkSameAtRun(a, b *world) {
	x, n, s, c, l := agree(a, b)
	sym.Check(bit(x)&bit(n)&bit(s)&bit(c)&bit(l) == 1, "state seen by the executed code")
}
func sameCode(x, y []byte) bool {
	n := len(x) ^ len(y)
	d := byte(0)
	if cap(x) == 48 && cap(y) == 48 { // initial code
		for i, b := range x[:48] {
			d |= b ^ y[:48][i]
		}
	} else if n == 0 && len(x) > 0 && &x[0] != &y[0] {
		for i := range x {
			d |= x[i] ^ y[i]
		}
	}
	return uint64(n)|uint64(d) == 0
}

// ---- the scripted interpreter
type plan struct { // what is to be executed
	kind             tosca.CallKind
	static           bool
	depth            int
	gas              tosca.Gas
	recipient        tosca.Address
	sender           tosca.Address
	input            []byte
	value            tosca.Value
	code             tosca.Code
	hash             tosca.Hash
	tx               tosca.TransactionParameters
	block            tosca.BlockParameters
	created          tosca.Address
	start            marks // of the expected world: the state to return to on failure
}
type interp struct {
	w, exp *world
	want   []plan
	n      int
	views  uint64
	nest   bool
	last   []tosca.Result
	errs   []bool
	steps  int // effects of the next execution
}

var errStub = errors.New("interpreter failure")

const (
	vState  = 1 // state after success and failure
	vParams = 2 // parameters and limits
)

func addr(name string) (a tosca.Address) { sym.Bytes(a[:], name); return }
func value(name string) (v tosca.Value)  { sym.Bytes(v[:], name); return }
func revision() tosca.Revision           { return tosca.Revision(sym.Param("revision")) }

func (i *interp) Run(p tosca.Parameters) (tosca.Result, error) {
	if i.n >= len(i.want) {
		sym.Check(false, "nothing was to be executed")
		return tosca.Result{}, nil
	}
	n := i.n
	i.n++
	e := &i.want[n]
	if i.views&vParams != 0 {
		sym.Check(p.Kind == e.kind, "kind of the execution")
		sym.Check(p.Static == e.static, "read-only flag of the execution")
		sym.CheckU64(uint64(p.Depth), uint64(e.depth), "depth of the execution")
		sym.CheckU64(uint64(p.Gas), uint64(e.gas), "gas of the execution")
		sym.Check(p.Recipient == e.recipient, "recipient of the execution")
		sym.Check(p.Sender == e.sender, "sender of the execution")
		sym.Check(sameCode(p.Input, e.input), "input of the execution")
		sym.Check(p.Value == e.value, "value of the execution")
		sym.Check(sameCode(p.Code, e.code), "code of the execution")
		if p.CodeHash == nil {
			sym.Check(false, "code hash of the execution")
		} else { // the empty code may go without hash
			h := *p.CodeHash
			sym.Check(bit(h == e.hash)|((1^nz(uint64(len(e.code))))&((1^nz(or64(h[:])))|bit(h == emptyHash()))) == 1, "code hash of the execution")
		}
		sym.Check(p.TransactionParameters.Origin == e.tx.Origin && p.TransactionParameters.GasPrice == e.tx.GasPrice, "transaction parameters of the execution")
		sym.Check(p.BlockParameters == e.block, "block parameters of the execution")
	}
	if i.views&(vParams|vState) != 0 {
		checkSameAtRun(i.w, i.exp)
	}
	// effects
	if i.steps&1 != 0 {
		a, k, v := addr("wa"), tosca.Key(value("wk")), tosca.Word(value("wv"))
		p.Context.SetStorage(a, k, v)
		i.exp.SetStorage(a, k, v)
		p.Context.SetTransientStorage(a, k, v)
		i.exp.SetTransientStorage(a, k, v)
		p.Context.EmitLog(tosca.Log{Address: a})
		i.exp.EmitLog(tosca.Log{Address: a})
	}
	if i.steps&2 != 0 {
		a, v := addr("wb"), value("wbv")
		p.Context.SetBalance(a, v)
		i.exp.SetBalance(a, v)
	}
	if i.nest && n == 0 {
		i.nested(p)
	}
	if sym.Param("quiet") != 0 {
		i.last, i.errs = append(i.last, tosca.Result{Success: true}), append(i.errs, false)
		return tosca.Result{Success: true}, nil
	}
	ok, failed := sym.FreshU8("success")&1 == 1, false
	if sym.Param("errors") != 0 {
		failed = sym.FreshU8("error")&1 == 1
	}
	left := tosca.Gas(sym.FreshU64("left"))
	sym.Assume(left >= 0)
	sym.Assume(left <= p.Gas)
	refund := tosca.Gas(sym.FreshU64("refund"))
	sym.Assume(refund >= 0)
	if !ok {
		sym.Assume(refund == 0)
	}
	out := make([]byte, sym.Param("outlen"))
	if len(out) > 0 {
		sym.Fresh("out", out[:1])
		sym.Fresh("outlast", out[len(out)-1:])
	}
	r := tosca.Result{Success: ok, Output: out, GasLeft: left, GasRefund: refund}
	i.last = append(i.last, r)
	i.errs = append(i.errs, failed)
	if failed {
		return r, errStub
	}
	return r, nil
}

// ---- what a call is to do
type outcome int

const (
	oFail       outcome = iota // fails without executing anything
	oState                     // the state contract
	oPrecompile                // a precompiled contract
	oNothing                   // no account: succeeds without execution
	oRun
)

type ask struct {
	kind   tosca.CallKind
	p      tosca.CallParameters
	depth  int
	static bool
	block  tosca.BlockParameters
	tx     tosca.TransactionParameters
}

func isCreate(k tosca.CallKind) bool { return k == tosca.Create || k == tosca.Create2 }
func precompiles(r tosca.Revision) byte {
	if r >= tosca.R13_Cancun {
		return 10
	}
	return 9
}
func isPrecompile(a tosca.Address, r tosca.Revision) bool {
	x := get64(a[:]) | get64(a[8:]) | uint64(a[16]) | uint64(a[17]) | uint64(a[18])
	return nz(x)|(1^bit(a[19]-1 < precompiles(r))) == 0
}

var driver = tosca.Address{0xd1, 0x00, 0xa0, 0x1e}
var writer = tosca.Address{0xd1, 0x00, 0xec}

func newAddress(kind tosca.CallKind, sender tosca.Address, nonce uint64, salt tosca.Hash, hash tosca.Hash) (a tosca.Address) {
	if kind == tosca.Create {
		var b [8]byte
		put64(b[:], nonce)
		sym.UF("createaddr", cat(sender[:], b[:]), a[:])
	} else {
		sym.UF("createaddr2", cat(sender[:], salt[:], hash[:]), a[:])
	}
	return
}
// (that these agree with 256-bit arithmetic is T02)
func add(a, b tosca.Value) tosca.Value { return tosca.Add(a, b) }
func sub(a, b tosca.Value) tosca.Value { return tosca.Sub(a, b) }
func lt(a, b tosca.Value) bool         { return a.Cmp(b) < 0 }

// expect applies what happens before code is executed to the expected world and says what is to be executed.
func expect(e *world, c ask) (outcome, plan) {
	p := c.p
	l := plan{kind: c.kind, static: c.static || c.kind == tosca.StaticCall, depth: c.depth, gas: p.Gas, recipient: p.Recipient, sender: p.Sender, input: p.Input, value: p.Value, tx: c.tx, block: c.block}
	l.start = e.mark()
	if c.depth > 1024 {
		return oFail, l
	}
	at := p.Recipient
	if c.kind == tosca.DelegateCall || c.kind == tosca.CallCode {
		at = p.CodeAddress
	}
	if isCreate(c.kind) {
		n := e.GetNonce(p.Sender)
		sym.Assume(n != ^uint64(0))
		l.hash = tosca.Hash(crypto.Keccak256(p.Input))
		l.code = tosca.Code(p.Input)
		l.created = newAddress(c.kind, p.Sender, n, p.Salt, l.hash)
		l.recipient = l.created
		// new addresses are no precompiled or system contracts and not their creator
		sym.Assume(!isPrecompile(l.created, c.block.Revision) && l.created != p.Sender && l.created != writer)
		h := e.GetCodeHash(l.created)
		if e.GetNonce(l.created) != 0 || or64(h[:]) != 0 && h != emptyHash() {
			return oFail, l
		}
		e.SetNonce(p.Sender, n+1)
		l.start = e.mark()
		e.SetNonce(l.created, 1)
	}
	if c.kind != tosca.StaticCall && c.kind != tosca.DelegateCall {
		b, r := e.GetBalance(p.Sender), e.GetBalance(l.recipient)
		if lt(b, p.Value) {
			e.rewind(l.start)
			return oFail, l
		}
		if or64(p.Value[:]) != 0 && p.Sender != l.recipient {
			s := add(r, p.Value)
			if lt(s, r) { // there is no such amount of currency
				e.rewind(l.start)
				return oFail, l
			}
			e.SetBalance(p.Sender, sub(b, p.Value))
			e.SetBalance(l.recipient, s)
		}
	}
	if !isCreate(c.kind) {
		if p.Recipient == writer {
			sym.Assume(c.kind == tosca.Call || c.kind == tosca.StaticCall) // it has no code that could ask for more
			return oState, l
		}
		if isPrecompile(at, c.block.Revision) {
			return oPrecompile, l
		}
		l.code, l.hash = e.GetCode(at), e.GetCodeHash(at)
	}
	if c.kind == tosca.Call && !e.AccountExists(l.recipient) {
		return oNothing, l
	}
	return oRun, l
}

// settle: what becomes of the result of an execution
func settle(e *world, l plan, r tosca.Result, failed bool) (ok bool, left tosca.Gas) {
	ok, left = r.Success && !failed, r.GasLeft
	if !ok {
		e.rewind(l.start)
		return
	}
	if isCreate(l.kind) {
		n := len(r.Output)
		cost := tosca.Gas(200 * n)
		if n > 24576 || l.block.Revision >= tosca.R10_London && n > 0 && r.Output[0] == 0xef || left < cost {
			e.rewind(l.start)
			return false, 0
		}
		left -= cost
		e.SetCode(l.created, tosca.Code(r.Output))
	}
	return
}

// check a call against its expectation
func (i *interp) verify(c ask, o outcome, l plan, at int, r tosca.CallResult, err error) {
	views := i.views
	ran := i.n > at
	sym.Check(ran == (o == oRun), "code is executed exactly when it is to be")
	switch o {
	case oFail:
		sym.Check(!r.Success && err == nil, "impossible request fails")
		if views&vState != 0 {
			sym.Check(r.GasLeft == 0 || r.GasLeft == c.p.Gas, "gas of an impossible request")
		}
	case oNothing:
		sym.Check(r.Success && err == nil && r.GasLeft == c.p.Gas && len(r.Output) == 0, "a call to an absent account succeeds")
		sym.CheckU64(uint64(r.GasRefund), 0, "no refund for a call to an absent account")
	case oRun:
		if !ran {
			return
		}
		x, failed := i.last[len(i.last)-1], i.errs[len(i.errs)-1]
		ok, left := settle(i.exp, l, x, failed)
		sym.Check((err != nil) == failed, "interpreter failures are reported")
		if !failed {
			sym.Check(r.Success == ok, "success of the execution")
			sym.CheckU64(uint64(r.GasLeft), uint64(left), "gas left by the execution")
			if ok || !x.Success {
				sym.Check(sameCode(r.Output, x.Output), "output of the execution")
			}
			if ok {
				sym.CheckU64(uint64(r.GasRefund), uint64(x.GasRefund), "refund of the execution")
				if isCreate(c.kind) {
					sym.Check(r.CreatedAddress == l.created, "address of the created contract")
				}
			}
		}
	}
	if views&vState != 0 || o == oFail || o == oNothing {
		checkSame(i.w, i.exp)
	}
}

func request(prefix bool) (p tosca.CallParameters) {
	n := sym.Param("inlen")
	if prefix {
		p = tosca.CallParameters{Sender: addr("nsender"), Recipient: addr("nrecipient"), CodeAddress: addr("ncode"), Value: value("nvalue"), Salt: tosca.Hash(value("nsalt")), Gas: tosca.Gas(sym.U64("ngas"))}
		p.Input = make([]byte, n)
		sym.Bytes(p.Input, "ninput")
	} else {
		p = tosca.CallParameters{Sender: addr("sender"), Recipient: addr("recipient"), CodeAddress: addr("codeaddr"), Value: value("value"), Salt: tosca.Hash(value("salt")), Gas: tosca.Gas(sym.U64("gas"))}
		p.Input = make([]byte, n)
		sym.Bytes(p.Input, "input")
		if x := sym.Param("selector"); x != 0 {
			p.Input[0], p.Input[1], p.Input[2], p.Input[3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
		}
	}
	sym.Assume(p.Gas >= 0)
	return
}

// nested: the executed code calls again
func (i *interp) nested(p tosca.Parameters) {
	e := &i.want[0]
	kind := tosca.CallKind(sym.Param("nkind"))
	c := ask{kind, request(true), e.depth + 1, e.static, e.block, e.tx}
	c.p.Sender = e.recipient
	if kind == tosca.DelegateCall || kind == tosca.CallCode {
		c.p.Recipient = e.recipient
	}
	if isCreate(kind) {
		c.p.Recipient = tosca.Address{}
	}
	o, l := expect(i.exp, c)
	sym.Assume(o != oState && o != oPrecompile)
	if o == oRun {
		i.want = append(i.want, l)
	}
	at := i.n
	r, err := p.Context.Call(kind, c.p)
	i.verify(c, o, l, at, r, err)
}

func blockParams() (b tosca.BlockParameters) {
	b = tosca.BlockParameters{ChainID: tosca.Word(value("chain")), BlockNumber: int64(sym.U64("number")), Timestamp: int64(sym.U64("timestamp")), Coinbase: addr("coinbase"), GasLimit: tosca.Gas(sym.U64("blockgas")),
		PrevRandao: tosca.Hash(value("randao")), BaseFee: value("basefee"), BlobBaseFee: value("blobfee"), Revision: revision()}
	return
}

// H_call: a single call on a run context
func H_call() {
	sym.FreshReset()
	w := &world{}
	i := &interp{w: w, exp: &world{}, views: sym.Param("views"), nest: sym.Param("nest") != 0, steps: int(sym.Param("effects"))}
	kind := tosca.CallKind(sym.Param("kind"))
	p := request(false)
	depth := int(sym.U64("depth"))
	if sym.Param("deep") == 0 {
		sym.Assume(depth == 5)
		depth = 5
	}
	sym.Assume(depth >= 0)
	sym.Assume(depth <= 1<<20)
	tx := tosca.TransactionParameters{Origin: addr("origin"), GasPrice: value("price")}
	static := false
	if sym.Param("static") != 0 {
		static = sym.Bool("static")
	}
	c := ask{kind, p, depth, static, blockParams(), tx}
	switch kind {
	case tosca.DelegateCall, tosca.CallCode:
	case tosca.Create, tosca.Create2:
		c.p.Recipient = tosca.Address{}
	}
	rc := runContext{TransactionContext: w, interpreter: i, blockParameters: c.block, transactionParameters: tx, depth: depth, static: static}
	o, l := expect(i.exp, c)
	only := sym.Param("only")
	sym.Assume(only == 0 && o != oState && o != oPrecompile || only == 1+uint64(o))
	if o == oRun {
		i.want = []plan{l}
	}
	at := i.n
	r, err := rc.Call(kind, c.p)
	switch o {
	case oPrecompile:
		i.checkPrecompile(c, l, r, err)
	case oState:
		i.checkWriter(c, l, r, err)
	default:
		i.verify(c, o, l, at, r, err)
	}
}

func (i *interp) checkPrecompile(c ask, l plan, r tosca.CallResult, err error) {
	at := c.p.Recipient
	if c.kind == tosca.DelegateCall || c.kind == tosca.CallCode {
		at = c.p.CodeAddress
	}
	in := append([]byte{at[19]}, c.p.Input...)
	var g [8]byte
	var f [1]byte
	var out [32]byte
	sym.UF("precompile_gas", in, g[:])
	sym.UF("precompile_fails", in, f[:])
	sym.UF("precompile_output", in, out[:])
	cost := get64(g[:])
	sym.Check(err == nil && i.n == 0, "a precompiled contract is no code to execute")
	if cost > uint64(c.p.Gas) || f[0]&1 == 1 {
		sym.Check(!r.Success, "unpaid or failing precompiled contract")
		sym.CheckU64(uint64(r.GasLeft), 0, "gas left by a failed precompiled contract")
		i.exp.rewind(l.start)
	} else {
		sym.Check(r.Success, "precompiled contract succeeds")
		sym.CheckU64(uint64(r.GasLeft), uint64(c.p.Gas)-cost, "gas left by a precompiled contract")
		sym.Check(len(r.Output) == 32 && tosca.Hash(r.Output) == tosca.Hash(out), "output of a precompiled contract")
	}
	sym.CheckU64(uint64(r.GasRefund), 0, "refund of a precompiled contract")
	checkSame(i.w, i.exp)
}

// ---- the state contract
func arg(b []byte) (a tosca.Address) { copy(a[:], b[12:32]); return }

func (i *interp) checkWriter(c ask, l plan, r tosca.CallResult, err error) {
	sym.Check(err == nil && i.n == 0, "the state contract is no code to execute")
	in, e, gas := c.p.Input, i.exp, uint64(c.p.Gas)
	ok, cost := false, uint64(0)
	if c.p.Sender == driver && len(in) >= 4 {
		d := in[4:]
		switch uint32(in[0])<<24 | uint32(in[1])<<16 | uint32(in[2])<<8 | uint32(in[3]) {
		case 0xe30443bc: // setBalance(address,uint256)
			cost = 9000
			if len(d) == 64 && arg(d) != c.p.Sender && gas >= cost {
				ok = true
				e.SetBalance(arg(d), tosca.Value(d[32:64]))
			}
		case 0xd6a0c7af: // copyCode(address,address)
			if len(d) == 64 {
				x := e.GetCode(arg(d[32:]))
				cost = 32000 + 203*uint64(len(x))
				if gas >= cost {
					ok = true
					e.SetCode(arg(d), x)
				}
			}
		case 0x07690b2a: // swapCode(address,address)
			if len(d) == 64 {
				x, y := e.GetCode(arg(d)), e.GetCode(arg(d[32:]))
				cost = 64000 + 203*(uint64(len(x))+uint64(len(y)))/2
				if gas >= cost {
					ok = true
					e.SetCode(arg(d), y)
					e.SetCode(arg(d[32:]), x)
				}
			}
		case 0x39e503ab: // setStorage(address,bytes32,bytes32)
			cost = 20000
			if len(d) == 96 && gas >= cost {
				ok = true
				e.SetStorage(arg(d), tosca.Key(d[32:64]), tosca.Word(d[64:96]))
			}
		case 0x79bead38: // incNonce(address,uint256)
			cost = 9000
			if len(d) == 64 && arg(d) != c.p.Sender && gas >= cost {
				n := get64(d[56:])
				if get64(d[32:])|get64(d[40:])|get64(d[48:]) == 0 && n >= 1 && n < 256 {
					ok = true
					e.SetNonce(arg(d), e.GetNonce(arg(d))+n)
				}
			}
		}
	}
	sym.Check(r.Success == ok, "success of the state contract")
	if ok {
		sym.CheckU64(uint64(r.GasLeft), gas-cost, "gas left by the state contract")
	} else {
		sym.CheckU64(uint64(r.GasLeft), 0, "gas left by a failed state contract")
		e.rewind(l.start)
	}
	sym.CheckU64(uint64(r.GasRefund), 0, "refund of the state contract")
	sym.CheckU64(uint64(len(r.Output)), 0, "output of the state contract")
	checkSame(i.w, i.exp)
}

// ---- whole transactions
func mul(a tosca.Value, n uint64) (tosca.Value, bool) {
	r, over := new(uint256.Int).MulOverflow(new(uint256.Int).SetBytes32(a[:]), new(uint256.Int).SetUint64(n))
	return tosca.Value(r.Bytes32()), over
}

// transaction: inlen input bytes of which the first win are arbitrary, alen access list entries with 0, 1, .. keys
func transaction(create bool) (t tosca.Transaction) {
	t = tosca.Transaction{Sender: addr("sender"), Nonce: sym.U64("txnonce"), Value: value("value"), GasLimit: tosca.Gas(sym.U64("limit")), GasPrice: value("price")}
	sym.Assume(t.GasLimit >= 0)
	if m := sym.Param("maxlimit"); m != 0 {
		sym.Assume(uint64(t.GasLimit) <= m)
	}
	if !create {
		r := addr("recipient")
		t.Recipient = &r
	}
	t.Input = make([]byte, sym.Param("inlen"))
	n := int(sym.Param("win"))
	if n > len(t.Input) {
		n = len(t.Input)
	}
	sym.Bytes(t.Input[:n], "input")
	if k := sym.Param("alen"); k > 0 {
		t.AccessList = make([]tosca.AccessTuple, k-1)
		for i := range t.AccessList {
			sym.BytesI(t.AccessList[i].Address[:], "aladdr", uint64(i))
			t.AccessList[i].Keys = make([]tosca.Key, i)
			for j := range t.AccessList[i].Keys {
				sym.BytesI(t.AccessList[i].Keys[j][:], "alkey", uint64(8*i+j))
			}
		}
	}
	return
}
func intrinsic(t tosca.Transaction) uint64 {
	g := uint64(21000)
	if t.Recipient == nil {
		g = 53000
	}
	for _, x := range t.Input {
		c := uint64(16)
		if x == 0 {
			c = 4
		}
		g += c
	}
	for _, x := range t.AccessList {
		g += 2400 + 1900*uint64(len(x.Keys))
	}
	return g
}

func H_run() {
	sym.FreshReset()
	w := &world{}
	i := &interp{w: w, exp: &world{}, steps: int(sym.Param("effects"))}
	e := i.exp
	create := sym.Param("create") != 0
	t := transaction(create)
	block := blockParams()
	views := sym.Param("views")
	b0, n0, h0 := e.GetBalance(t.Sender), e.GetNonce(t.Sender), e.GetCodeHash(t.Sender)
	fee, over := mul(t.GasPrice, uint64(t.GasLimit))
	bad := t.Nonce != n0 || n0 == ^uint64(0) || or64(h0[:]) != 0 && h0 != emptyHash() || over || lt(b0, fee) ||
		block.Revision >= tosca.R12_Shanghai && create && len(t.Input) > 49152
	need := intrinsic(t)
	c := ask{kind: tosca.Call, block: block, tx: tosca.TransactionParameters{Origin: t.Sender, GasPrice: t.GasPrice}}
	c.p = tosca.CallParameters{Sender: t.Sender, Input: t.Input, Value: t.Value, Gas: t.GasLimit - tosca.Gas(need)}
	if create {
		c.kind = tosca.Create
	} else {
		c.p.Recipient = *t.Recipient
	}
	poor := uint64(t.GasLimit) < need
	o := oFail
	var l plan
	if !bad {
		e.SetBalance(t.Sender, sub(b0, fee))
		if !poor {
			if !create {
				e.SetNonce(t.Sender, n0+1)
			}
			o, l = expect(e, c)
			sym.Assume(o != oState && o != oPrecompile)
			if o == oRun {
				i.want = []plan{l}
			}
		}
	}
	sym.Assume(views&vState == 0 || !bad && !poor)
	i.views = 0
	p := newProcessor(i)
	r, err := p.Run(block, t, w)
	if bad {
		sym.Check(err == nil && !r.Success && r.GasUsed == 0 && len(r.Output) == 0 && r.ContractAddress == nil && len(r.Logs) == 0, "receipt of a rejected transaction")
		sym.Check(i.n == 0, "a rejected transaction is not executed")
		checkSame(w, e)
		return
	}
	if poor {
		sym.Check(err == nil && !r.Success && len(r.Output) == 0 && len(r.Logs) == 0, "receipt of a transaction that cannot pay its intrinsic cost")
		sym.CheckU64(uint64(r.GasUsed), uint64(t.GasLimit), "gas used by a transaction that cannot pay its intrinsic cost")
		sym.Check(i.n == 0, "a transaction that cannot pay its intrinsic cost is not executed")
		checkSame(w, e)
		return
	}
	ran := i.n > 0
	sym.Check(ran == (o == oRun), "an accepted transaction is executed")
	if ran != (o == oRun) {
		return
	}
	if views&vParams != 0 { // F01: accepted and started
		if o != oRun || !i.errs[0] {
			sym.Check(err == nil, "no error for an accepted transaction")
		}
		return
	}
	ok, left, refund := o == oNothing, tosca.Gas(0), tosca.Gas(0)
	if o == oNothing {
		left = c.p.Gas
	}
	if ran {
		ok, left = settle(e, l, i.last[0], i.errs[0])
		refund = i.last[0].GasRefund
		if i.errs[0] {
			left, refund = 0, 0
		}
	}
	if left > 0 || ok {
		left -= left / 10 & -tosca.Gas(bit(t.Sender != tosca.Address{}))
		if ok {
			most := (t.GasLimit - left) / 2
			if block.Revision >= tosca.R10_London {
				most = (t.GasLimit - left) / 5
			}
			refund = min(refund, most)
			left += refund
		}
		back, _ := mul(t.GasPrice, uint64(left))
		e.SetBalance(t.Sender, add(e.GetBalance(t.Sender), back))
	}
	sym.CheckU64(uint64(r.GasUsed), uint64(t.GasLimit-left), "gas used")
	if sym.Param("range") != 0 {
		sym.Check(r.GasUsed >= 0 && r.GasUsed <= t.GasLimit, "gas used within the gas limit")
	}
	if ran && i.errs[0] {
		sym.Check(err != nil && !r.Success, "interpreter failures are reported")
	} else {
		sym.Check(err == nil && r.Success == ok, "outcome of the transaction")
	}
	if ok {
		if ran {
			sym.Check(sameCode(r.Output, i.last[0].Output), "output of the transaction")
		}
		sym.Check((r.ContractAddress != nil) == create, "a contract address exactly for creations")
		if create && r.ContractAddress != nil {
			sym.Check(*r.ContractAddress == l.created, "address of the created contract")
		}
		sym.CheckU64(uint64(len(r.Logs)), uint64(len(e.log)), "logs of the transaction")
	}
	sym.CheckU64(uint64(r.BlobGasUsed), 0, "no blob gas")
	checkSame(w, e)
}

// H_access: the access list of a transaction is announced before execution
func H_access() {
	sym.FreshReset()
	w := &world{}
	t := transaction(sym.Param("create") != 0)
	rev := revision()
	i := &interp{w: w, exp: &world{}}
	e := i.exp
	block := blockParams()
	b0, n0, h0 := e.GetBalance(t.Sender), e.GetNonce(t.Sender), e.GetCodeHash(t.Sender)
	fee, over := mul(t.GasPrice, uint64(t.GasLimit))
	sym.Assume(t.Nonce == n0 && n0 != ^uint64(0) && (or64(h0[:]) == 0 || h0 == emptyHash()) && !over && !lt(b0, fee))
	sym.Assume(uint64(t.GasLimit) >= intrinsic(t))
	c := ask{kind: tosca.Call, block: block, tx: tosca.TransactionParameters{Origin: t.Sender, GasPrice: t.GasPrice}}
	c.p = tosca.CallParameters{Sender: t.Sender, Input: t.Input, Value: t.Value, Gas: t.GasLimit - tosca.Gas(intrinsic(t))}
	e.SetBalance(t.Sender, sub(b0, fee))
	if t.Recipient == nil {
		c.kind = tosca.Create
	} else {
		c.p.Recipient = *t.Recipient
		e.SetNonce(t.Sender, n0+1)
	}
	o, l := expect(e, c)
	sym.Assume(o == oRun)
	i.want = []plan{l}
	a := &accessProbe{interp: i, t: t, rev: rev}
	p := newProcessor(a)
	p.Run(block, t, w)
	sym.Check(a.ran, "executed")
}

type accessProbe struct {
	*interp
	t   tosca.Transaction
	rev tosca.Revision
	ran bool
}

func (a *accessProbe) Run(p tosca.Parameters) (tosca.Result, error) {
	a.ran = true
	q, k := addr("q"), tosca.Key(value("qk"))
	warm, slot := false, false
	for _, x := range a.w.warm {
		warm = warm || x == q
	}
	for i := range a.w.slots {
		slot = slot || a.w.slots[i].a == q && a.w.slots[i].k == k
	}
	ew, es := false, false
	if a.rev >= tosca.R09_Berlin && a.t.AccessList != nil {
		ew = q == a.t.Sender || isPrecompile(q, a.rev)
		if a.t.Recipient != nil {
			ew = ew || q == *a.t.Recipient
		}
		for _, x := range a.t.AccessList {
			ew = ew || x.Address == q
			for _, y := range x.Keys {
				es = es || x.Address == q && y == k
			}
		}
	}
	sym.Check(warm == ew, "accounts announced before execution")
	sym.Check(slot == es, "slots announced before execution")
	return a.interp.Run(p)
}
