package evmc

import (
	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/evmc/v11/bindings/go/evmc"
	"verif/sym"
)

// what <evmc/evmc.h> defines
var C = struct {
	EVMC_SUCCESS, EVMC_FAILURE, EVMC_REVERT, EVMC_OUT_OF_GAS, EVMC_INVALID_INSTRUCTION, EVMC_UNDEFINED_INSTRUCTION, EVMC_STACK_OVERFLOW, EVMC_STACK_UNDERFLOW, EVMC_BAD_JUMP_DESTINATION, EVMC_INVALID_MEMORY_ACCESS,
	EVMC_CALL_DEPTH_EXCEEDED, EVMC_STATIC_MODE_VIOLATION, EVMC_PRECOMPILE_FAILURE, EVMC_CONTRACT_VALIDATION_FAILURE, EVMC_ARGUMENT_OUT_OF_RANGE, EVMC_WASM_UNREACHABLE_INSTRUCTION, EVMC_WASM_TRAP, EVMC_INSUFFICIENT_BALANCE,
	EVMC_INTERNAL_ERROR, EVMC_REJECTED, EVMC_OUT_OF_MEMORY int32
}{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, -1, -2, -3}

func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func nz(x uint64) uint64 { return (x | -x) >> 63 }
func arr(name string, i uint64, n uint64) []byte {
	b := make([]byte, n)
	sym.BytesI(b, name, i)
	return b
}
func same(a, b []byte) uint64 {
	if len(a) != len(b) {
		return 0
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return bit(d == 0)
}
func be(v uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (56 - 8*i))
	}
	return b
}

// host records the requests it gets as texts and answers with arbitrary values
type host struct {
	tosca.RunContext
	got  [][]byte
	log  tosca.Log
	call tosca.CallParameters
	kind tosca.CallKind
	n    int
	err  error
}

const (
	kStorage byte = iota
	kSetStorage
	kBalance
	kCodeSize
	kCodeHash
	kCode
	kSelfDestruct
	kBlockHash
	kAccessAccount
	kAccessStorage
	kTransient
	kSetTransient
	kNonce
)

func (h *host) add(k byte, parts ...[]byte) {
	r := []byte{k}
	for _, p := range parts {
		r = append(r, p...)
	}
	h.got = append(h.got, r)
}
func (h *host) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	h.add(kStorage, a[:], k[:])
	return tosca.Word(arr("r", 0, 32))
}
func (h *host) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	h.add(kSetStorage, a[:], k[:], v[:])
	return tosca.StorageStatus(sym.U64("n"))
}
func (h *host) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	h.add(kTransient, a[:], k[:])
	return tosca.Word(arr("r", 0, 32))
}
func (h *host) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	h.add(kSetTransient, a[:], k[:], v[:])
}
func (h *host) GetBalance(a tosca.Address) tosca.Value {
	h.add(kBalance, a[:])
	return tosca.Value(arr("b", 0, 32))
}
func (h *host) GetNonce(a tosca.Address) uint64 { h.add(kNonce, a[:]); return sym.U64("nonce") }
func (h *host) GetCodeSize(a tosca.Address) int {
	h.add(kCodeSize, a[:])
	return int(sym.U64("size") & 0xffff)
}
func (h *host) GetCodeHash(a tosca.Address) tosca.Hash {
	h.add(kCodeHash, a[:])
	return tosca.Hash(arr("r", 0, 32))
}
func (h *host) GetCode(a tosca.Address) tosca.Code {
	h.add(kCode, a[:])
	return tosca.Code(arr("c", 0, sym.Param("len")))
}
func (h *host) SelfDestruct(a, b tosca.Address) bool {
	h.add(kSelfDestruct, a[:], b[:])
	return sym.U64("n")&1 == 1
}
func (h *host) GetBlockHash(n int64) tosca.Hash {
	h.add(kBlockHash, be(uint64(n)))
	return tosca.Hash(arr("r", 0, 32))
}
func (h *host) EmitLog(l tosca.Log) { h.log = l; h.n++ }
func (h *host) AccessAccount(a tosca.Address) tosca.AccessStatus {
	h.add(kAccessAccount, a[:])
	return tosca.AccessStatus(sym.U64("n")&1 == 1)
}
func (h *host) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	h.add(kAccessStorage, a[:], k[:])
	return tosca.AccessStatus(sym.U64("n")&1 == 1)
}

type failed struct{}

func (failed) Error() string { return "failed" }

func (h *host) Call(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	h.kind, h.call, h.n = k, p, h.n+1
	return tosca.CallResult{Success: sym.U64("n")&1 == 1, Output: arr("out", 0, sym.Param("len")), GasLeft: tosca.Gas(sym.U64("left")), GasRefund: tosca.Gas(sym.U64("refund")), CreatedAddress: tosca.Address(arr("created", 0, 20))}, h.err
}
func (h *host) only(k byte, parts ...[]byte) {
	w := []byte{k}
	for _, p := range parts {
		w = append(w, p...)
	}
	sym.Check(len(h.got) == 1, "one request reaches the context")
	if len(h.got) > 0 {
		sym.Check(same(h.got[0], w) == 1, "the request reaches the context as it was")
	}
}

func params(h *host) tosca.Parameters {
	p := tosca.Parameters{
		BlockParameters: tosca.BlockParameters{
			ChainID: tosca.Word(arr("p", 0, 32)), BlockNumber: int64(sym.U64("number")), Timestamp: int64(sym.U64("time")), Coinbase: tosca.Address(arr("p", 1, 20)), GasLimit: tosca.Gas(sym.U64("limit")),
			PrevRandao: tosca.Hash(arr("p", 2, 32)), BaseFee: tosca.Value(arr("p", 3, 32)), BlobBaseFee: tosca.Value(arr("p", 4, 32)), Revision: tosca.Revision(sym.U64("rev") & 0xff),
		},
		TransactionParameters: tosca.TransactionParameters{Origin: tosca.Address(arr("p", 5, 20)), GasPrice: tosca.Value(arr("p", 6, 32))},
		Context:               h,
		Static:                sym.U64("static")&1 == 1, Depth: int(sym.U64("depth") & 0xffff), Gas: tosca.Gas(sym.U64("gas")), Recipient: tosca.Address(arr("p", 7, 20)), Sender: tosca.Address(arr("p", 8, 20)),
		Input: arr("input", 0, sym.Param("len")), Value: tosca.Value(arr("p", 9, 32)), Code: arr("code", 0, sym.Param("len")),
	}
	for i := uint64(0); i < sym.Param("blobs"); i++ {
		p.BlobHashes = append(p.BlobHashes, tosca.Hash(arr("blob", i, 32)))
	}
	if sym.Param("hashed") == 1 {
		ch := tosca.Hash(arr("p", 10, 32))
		p.CodeHash = &ch
	}
	return p
}

var revs = []struct {
	t tosca.Revision
	e evmc.Revision
}{{tosca.R07_Istanbul, evmc.Istanbul}, {tosca.R09_Berlin, evmc.Berlin}, {tosca.R10_London, evmc.London}, {tosca.R11_Paris, evmc.Paris}, {tosca.R12_Shanghai, evmc.Shanghai}, {tosca.R13_Cancun, evmc.Cancun}}

// H_request: one request of the machine
func H_request() {
	h := &host{}
	ctx := &hostContext{context: h}
	a, b := arr("a", 0, 20), arr("a", 1, 20)
	k, v := arr("k", 0, 32), arr("v", 0, 32)
	n := sym.U64("n")
	r := arr("r", 0, 32)
	empty := bit(sym.U64("nonce")|sym.U64("size")&0xffff == 0) & same(arr("b", 0, 32), make([]byte, 32))
	switch sym.Param("op") {
	case 0:
		got := ctx.GetStorage(evmc.Address(a), evmc.Hash(k))
		h.only(kStorage, a, k)
		sym.Check(same(got[:], r) == 1, "answer")
	case 1:
		sym.Assume(n <= 8)
		got := ctx.SetStorage(evmc.Address(a), evmc.Hash(k), evmc.Hash(v))
		h.only(kSetStorage, a, k, v)
		want := []evmc.StorageStatus{evmc.StorageAssigned, evmc.StorageAdded, evmc.StorageDeleted, evmc.StorageModified, evmc.StorageDeletedAdded, evmc.StorageModifiedDeleted, evmc.StorageDeletedRestored, evmc.StorageAddedDeleted, evmc.StorageModifiedRestored}
		for i, s := range []tosca.StorageStatus{tosca.StorageAssigned, tosca.StorageAdded, tosca.StorageDeleted, tosca.StorageModified, tosca.StorageDeletedAdded, tosca.StorageModifiedDeleted, tosca.StorageDeletedRestored, tosca.StorageAddedDeleted, tosca.StorageModifiedRestored} {
			sym.Check(n != uint64(s) || got == want[i], "storage status")
		}
	case 2:
		got := ctx.GetBalance(evmc.Address(a))
		h.only(kBalance, a)
		sym.Check(same(got[:], arr("b", 0, 32)) == 1, "answer")
	case 3:
		got := ctx.GetCodeSize(evmc.Address(a))
		h.only(kCodeSize, a)
		sym.CheckU64(uint64(got), sym.U64("size")&0xffff, "answer")
	case 4: // the hash of empty accounts is zero
		got := ctx.GetCodeHash(evmc.Address(a))
		want := make([]byte, 32)
		sym.Sel(empty == 0, want, r)
		sym.Check(same(got[:], want) == 1, "answer")
		for _, q := range h.got {
			sym.Check(same(q[1:], a) == 1, "the request reaches the context as it was")
		}
	case 5:
		got := ctx.GetCode(evmc.Address(a))
		h.only(kCode, a)
		sym.Check(same(got, arr("c", 0, sym.Param("len"))) == 1, "answer")
	case 6:
		got := ctx.Selfdestruct(evmc.Address(a), evmc.Address(b))
		h.only(kSelfDestruct, a, b)
		sym.Check(bit(got) == n&1, "answer")
	case 7:
		got := ctx.GetBlockHash(int64(n))
		h.only(kBlockHash, be(n))
		sym.Check(same(got[:], r) == 1, "answer")
	case 8:
		got := ctx.AccessAccount(evmc.Address(a))
		h.only(kAccessAccount, a)
		sym.Check(bit(got == evmc.WarmAccess) == n&1 && (got == evmc.WarmAccess || got == evmc.ColdAccess), "answer")
	case 9:
		got := ctx.AccessStorage(evmc.Address(a), evmc.Hash(k))
		h.only(kAccessStorage, a, k)
		sym.Check(bit(got == evmc.WarmAccess) == n&1 && (got == evmc.WarmAccess || got == evmc.ColdAccess), "answer")
	case 10:
		got := ctx.GetTransientStorage(evmc.Address(a), evmc.Hash(k))
		h.only(kTransient, a, k)
		sym.Check(same(got[:], r) == 1, "answer")
	case 11:
		ctx.SetTransientStorage(evmc.Address(a), evmc.Hash(k), evmc.Hash(v))
		h.only(kSetTransient, a, k, v)
	case 12: // EVMC asks for existence where the EVM asks for emptiness
		got := ctx.AccountExists(evmc.Address(a))
		sym.Check(bit(got) == empty^1, "answer")
		for _, q := range h.got {
			sym.Check(same(q[1:], a) == 1, "the request reaches the context as it was")
		}
	case 13:
		m := int(sym.Param("topics"))
		topics := make([]evmc.Hash, m)
		for i := range topics {
			topics[i] = evmc.Hash(arr("t", uint64(i), 32))
		}
		data := arr("d", 0, sym.Param("len"))
		ctx.EmitLog(evmc.Address(a), topics, data)
		sym.Check(h.n == 1 && same(h.log.Address[:], a) == 1 && same(h.log.Data, data) == 1 && len(h.log.Topics) == m, "the log reaches the context as it was")
		for i := range h.log.Topics {
			sym.Check(same(h.log.Topics[i][:], topics[i][:]) == 1, "topics")
		}
	}
}

// H_call: calls of the machine
func H_call() {
	h := &host{}
	if sym.Param("fails") == 1 {
		h.err = failed{}
	}
	ctx := &hostContext{context: h}
	k, static := sym.U64("kind"), sym.U64("static")&1 == 1
	sym.Assume(k < 5)
	to, from, ca := arr("a", 0, 20), arr("a", 1, 20), arr("a", 2, 20)
	value, salt, input, gas := arr("v", 0, 32), arr("v", 1, 32), arr("in", 0, sym.Param("len")), sym.U64("gas")
	out, left, refund, created, err := ctx.Call(evmc.CallKind(k), evmc.Address(to), evmc.Address(from), evmc.Hash(value), input, int64(gas), int(sym.U64("depth")), static, evmc.Hash(salt), evmc.Address(ca))
	sym.Check(h.n == 1, "one call reaches the context")
	want := tosca.Call
	switch evmc.CallKind(k) {
	case evmc.Call:
		if static {
			want = tosca.StaticCall
		}
	case evmc.DelegateCall:
		want = tosca.DelegateCall
	case evmc.CallCode:
		want = tosca.CallCode
	case evmc.Create:
		want = tosca.Create
	case evmc.Create2:
		want = tosca.Create2
	}
	sym.Check(h.kind == want, "kind of the call")
	c := h.call
	sym.Check(same(c.Sender[:], from)&same(c.Recipient[:], to)&same(c.Value[:], value)&same(c.Input, input)&same(c.Salt[:], salt)&same(c.CodeAddress[:], ca)&bit(uint64(c.Gas) == gas) == 1, "the call reaches the context as it was")
	if h.err != nil {
		sym.Check(err != nil && left == 0 && refund == 0 && len(out) == 0, "a call that cannot be processed is reported")
		return
	}
	ok := sym.U64("n")&1 == 1
	sym.Check(ok == (err == nil), "success of the call")
	sym.Check(err == nil || err == evmc.Revert || err == evmc.Failure, "error of the call")
	sym.Check(same(out, arr("out", 0, sym.Param("len")))&same(created[:], arr("created", 0, 20))&bit(uint64(left) == sym.U64("left"))&bit(uint64(refund) == sym.U64("refund")) == 1, "result of the call")
}

// H_run: what the machine is given and what becomes of its result
func H_run() {
	h := &host{}
	p := params(h)
	var x evmc.Execution
	n := 0
	status := int32(sym.U64("status"))
	sym.Assume(status >= -3)
	sym.Assume(status <= 17)
	var tx evmc.TxContext
	vm := &evmc.VM{Run: func(y evmc.Execution) (evmc.Result, error) {
		x = y
		n++
		tx = x.Ctx.GetTxContext()
		r := evmc.Result{Output: arr("out", 0, sym.Param("len")), GasLeft: int64(sym.U64("left")), GasRefund: int64(sym.U64("refund"))}
		if status != 0 {
			return r, evmc.Error(status)
		}
		return r, nil
	}}
	res, err := (&EvmcInterpreter{vm: vm}).Run(p)
	known := uint64(0)
	for _, r := range revs {
		known |= bit(p.Revision == r.t)
		sym.Check(n == 0 || p.Revision != r.t || x.Rev == r.e, "revision")
	}
	if n == 0 {
		sym.Check(known == 0 && err != nil, "unsupported revisions are refused")
		return
	}
	sym.Check(n == 1 && known == 1, "supported revisions are executed")
	sym.Check(bit(x.Static == p.Static)&bit(x.Depth == p.Depth)&bit(x.Gas == int64(p.Gas))&same(x.Recipient[:], p.Recipient[:])&same(x.Sender[:], p.Sender[:])&same(x.Input, p.Input)&same(x.Value[:], p.Value[:])&same(x.Code, p.Code) == 1, "the machine gets the parameters")
	sym.Check((x.CodeHash == nil) == (p.CodeHash == nil), "the machine gets the code hash")
	if x.CodeHash != nil && p.CodeHash != nil {
		sym.Check(same(x.CodeHash[:], p.CodeHash[:]) == 1, "the machine gets the code hash")
	}
	sym.Check(same(tx.GasPrice[:], p.GasPrice[:])&same(tx.Origin[:], p.Origin[:])&same(tx.Coinbase[:], p.Coinbase[:])&bit(tx.Number == p.BlockNumber)&bit(tx.Timestamp == p.Timestamp)&bit(tx.GasLimit == int64(p.GasLimit))&
		same(tx.PrevRandao[:], p.PrevRandao[:])&same(tx.ChainID[:], p.ChainID[:])&same(tx.BaseFee[:], p.BaseFee[:])&same(tx.BlobBaseFee[:], p.BlobBaseFee[:]) == 1, "the machine gets the transaction context")
	sym.Check(len(tx.BlobHashes) == len(p.BlobHashes), "the machine gets the blob hashes")
	for i := range p.BlobHashes {
		sym.Check(same(tx.BlobHashes[i][:], p.BlobHashes[i][:]) == 1, "the machine gets the blob hashes")
	}
	full := same(res.Output, arr("out", 0, sym.Param("len"))) & bit(uint64(res.GasLeft) == sym.U64("left")) & bit(uint64(res.GasRefund) == sym.U64("refund"))
	switch {
	case status == C.EVMC_SUCCESS:
		sym.Check(err == nil && res.Success && full == 1, "result of a successful execution")
	case status == C.EVMC_REVERT:
		sym.Check(err == nil && !res.Success && full == 1, "result of a reverted execution")
	case status > 0: // the failures of evmzero and evmrs
		if status <= C.EVMC_STATIC_MODE_VIOLATION {
			sym.Check(err == nil, "a failed execution is no error of the interpreter")
		}
		sym.Check(!res.Success && res.GasLeft == 0 && res.GasRefund == 0 && len(res.Output) == 0, "a failed execution leaves nothing")
	default:
		sym.Check(err != nil, "internal errors of the machine are reported")
	}
}

// H_step: stepping from a state into a state
func H_step() {
	h := &host{}
	p := params(h)
	words, mem, m := sym.Param("words"), sym.Param("mem"), sym.Param("len")
	from, to := sym.U64("from")&7, sym.U64("to")&7
	sym.Assume(to < 6)
	s := &st.State{Status: st.StatusCode(from), Pc: uint16(sym.U64("pc")), Gas: tosca.Gas(sym.U64("cgas")), GasRefund: tosca.Gas(sym.U64("crefund")), Stack: st.NewStack(), Memory: st.NewMemory(), LastCallReturnData: common.NewBytes(arr("last", 0, m))}
	var stack []byte
	for i := uint64(0); i < words; i++ {
		w := arr("w", i, 32)
		s.Stack.Push(common.NewU256FromBytes(w...))
		stack = append(stack, w...)
	}
	s.Memory.Set(arr("mem", 0, 32*mem))
	var x evmc.StepParameters
	n := 0
	rstack := arr("rs", 0, sym.Param("rstack"))
	rmem := arr("rm", 0, 32*sym.Param("rmem"))
	var tx evmc.TxContext
	code := []evmc.StepStatus{evmc.Running, evmc.Stopped, evmc.Returned, evmc.Reverted, evmc.Failed, evmc.Failed}[to]
	vm := &evmc.VMSteppable{Run: func(y evmc.StepParameters) (evmc.StepResult, error) {
		x = y
		n++
		tx = x.Context.GetTxContext()
		if to == 5 {
			return evmc.StepResult{}, failed{}
		}
		return evmc.StepResult{StepStatusCode: code, Pc: sym.U64("rpc") & 0xffff, GasLeft: int64(sym.U64("left")), GasRefund: int64(sym.U64("refund")), Output: arr("out", 0, m), Stack: rstack, Memory: rmem, LastCallReturnData: arr("rlast", 0, m)}, nil
	}}
	steps := int(sym.U64("steps") & 0xffff)
	res, err := (&SteppableEvmcInterpreter{vm: vm}).StepN(p, s, steps)
	if n == 0 {
		known := uint64(0)
		for _, r := range revs {
			known |= bit(p.Revision == r.t)
		}
		sym.Check(err != nil && known&bit(from < 4) == 0, "every state of a supported revision is executed")
		return
	}
	sym.Check(n == 1 && from < 4, "states without a proper status are refused")
	for _, r := range revs {
		sym.Check(p.Revision != r.t || x.Revision == r.e, "revision")
	}
	want := []evmc.StepStatus{evmc.Running, evmc.Stopped, evmc.Reverted, evmc.Failed}
	for i, w := range want {
		sym.Check(from != uint64(i) || x.StepStatusCode == w, "status the machine starts with")
	}
	sym.Check(bit(x.Static == p.Static)&bit(x.Depth == p.Depth)&bit(x.Gas == int64(sym.U64("cgas")))&bit(x.GasRefund == int64(sym.U64("crefund")))&bit(x.Pc == sym.U64("pc")&0xffff)&bit(x.NumSteps == steps)&
		same(x.Recipient[:], p.Recipient[:])&same(x.Sender[:], p.Sender[:])&same(x.Input, p.Input)&same(x.Value[:], p.Value[:])&same(x.Code, p.Code)&same(x.LastCallResult, arr("last", 0, m)) == 1, "the machine gets the state")
	sym.Check(same(x.Stack, stack) == 1, "the machine gets the stack")
	sym.Check(same(x.Memory, arr("mem", 0, 32*mem)) == 1, "the machine gets the memory")
	sym.Check(len(tx.BlobHashes) == len(p.BlobHashes) && same(tx.GasPrice[:], p.GasPrice[:])&same(tx.BlobBaseFee[:], p.BlobBaseFee[:])&bit(tx.Number == p.BlockNumber) == 1, "the machine gets the transaction context")
	if to == 5 || len(rstack)%32 != 0 {
		sym.Check(err != nil, "errors and malformed stacks of the machine are reported")
		return
	}
	sym.Check(err == nil, "the step succeeds")
	if err != nil {
		return
	}
	wst := []st.StatusCode{st.Running, st.Stopped, st.Stopped, st.Reverted, st.Failed}
	for i, w := range wst {
		sym.Check(to != uint64(i) || res.Status == w, "resulting status")
	}
	sym.Check(bit(uint64(res.Pc) == sym.U64("rpc")&0xffff)&bit(uint64(res.Gas) == sym.U64("left"))&bit(uint64(res.GasRefund) == sym.U64("refund"))&same(res.LastCallReturnData.ToBytes(), arr("rlast", 0, m)) == 1, "resulting state")
	if to == 2 || to == 3 {
		sym.Check(same(res.ReturnData.ToBytes(), arr("out", 0, m)) == 1, "returned data")
	}
	sym.Check(same(res.Memory.Read(0, uint64(res.Memory.Size())), rmem) == 1, "resulting memory")
	k := len(rstack) / 32
	sym.Check(res.Stack.Size() == k, "size of the resulting stack")
	if res.Stack.Size() == k {
		for i := 0; i < k; i++ {
			b := res.Stack.Get(k - 1 - i).Bytes32be()
			sym.Check(same(b[:], rstack[32*i:32*i+32]) == 1, "resulting stack")
		}
	}
}
