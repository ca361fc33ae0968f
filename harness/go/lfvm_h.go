package lfvm

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/sym"
)

// ---- the outside world: uninterpreted functions for what is read, fresh values for answers, events for requests
type host struct{ static bool }

func b64(v uint64) []byte {
	b := make([]byte, 8)
	put64(b, v)
	return b
}
func put64(b []byte, v uint64) {
	_ = b[7]
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (56 - 8*i))
	}
}
func get64(b []byte) (v uint64) {
	for _, x := range b[:8] {
		v = v<<8 | uint64(x)
	}
	return
}
func cat(parts ...[]byte) (r []byte) {
	for _, p := range parts {
		r = append(r, p...)
	}
	return
}
func uf(name string, in, out []byte) { sym.UF(name, in, out) }
func (h host) exists(a tosca.Address) bool {
	var r [1]byte
	uf("present", a[:], r[:])
	return r[0]&1 == 1
}
func (h host) codesize(a tosca.Address) uint64 {
	var r [8]byte
	uf("codesize", a[:], r[:])
	return get64(r[:])
}
func (h host) balance(a tosca.Address) (r tosca.Value) { uf("balance", a[:], r[:]); return }
func (h host) nonce(a tosca.Address) uint64 {
	var r [8]byte
	uf("nonce", a[:], r[:])
	return get64(r[:])
}

// an account exists exactly when it is not empty
func (h host) tie(a tosca.Address) {
	v := h.balance(a)
	x := h.nonce(a) | h.codesize(a)
	for i := 0; i < 32; i += 8 {
		x |= get64(v[i:])
	}
	sym.Assume(h.exists(a) == (x != 0))
}
func (h host) AccountExists(a tosca.Address) bool        { return h.exists(a) }
func (h host) GetBalance(a tosca.Address) tosca.Value    { h.tie(a); return h.balance(a) }
func (h host) SetBalance(tosca.Address, tosca.Value)     { sym.Event("call", nil) }
func (h host) GetNonce(a tosca.Address) uint64           { h.tie(a); return h.nonce(a) }
func (h host) SetNonce(tosca.Address, uint64)            { sym.Event("call", nil) }
func (h host) GetCodeHash(a tosca.Address) (r tosca.Hash) { uf("codehash", a[:], r[:]); return }
func (h host) GetCodeSize(a tosca.Address) int           { h.tie(a); return int(h.codesize(a)) }
func (h host) SetCode(tosca.Address, tosca.Code)         { sym.Event("call", nil) }
func (h host) GetCode(a tosca.Address) tosca.Code {
	n := h.codesize(a)
	sym.Assume(n <= 64)
	return tosca.Code(sym.UFBytes("code", a[:], 64)[:n])
}
func (h host) GetStorage(a tosca.Address, k tosca.Key) (r tosca.Word) {
	uf("storage", cat(a[:], k[:]), r[:])
	return
}
func (h host) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	sym.Event("set_storage", cat(a[:], k[:], v[:]))
	s := sym.FreshU8("sstatus")
	sym.Assume(s <= 8)
	return tosca.StorageStatus(s)
}
func (h host) GetTransientStorage(a tosca.Address, k tosca.Key) (r tosca.Word) {
	uf("tstorage", cat(a[:], k[:]), r[:])
	return
}
func (h host) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	sym.Event("set_tstorage", cat(a[:], k[:], v[:]))
}
func (h host) SelfDestruct(a, b tosca.Address) bool {
	sym.Event("selfdestruct", cat(a[:], b[:]))
	return sym.FreshU8("sdresult")&1 == 1
}
func (h host) CreateSnapshot() tosca.Snapshot  { return 0 }
func (h host) RestoreSnapshot(tosca.Snapshot)  { sym.Event("call", nil) }
func (h host) AccessAccount(a tosca.Address) tosca.AccessStatus {
	sym.Event("access_account", a[:])
	var r [1]byte
	uf("warm", a[:], r[:])
	return tosca.AccessStatus(r[0]&1 == 1)
}
func (h host) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	in := cat(a[:], k[:])
	sym.Event("access_storage", in)
	var r [1]byte
	uf("swarm", in, r[:])
	return tosca.AccessStatus(r[0]&1 == 1)
}
func (h host) EmitLog(l tosca.Log) {
	in := make([]byte, 20+16+128)
	copy(in, l.Address[:])
	put64(in[20:], uint64(len(l.Data)))
	put64(in[28:], uint64(len(l.Topics)))
	for i := range l.Topics {
		copy(in[36+32*i:], l.Topics[i][:])
	}
	sym.EventV("log", in, l.Data)
}
func (h host) GetLogs() []tosca.Log { return nil }
func (h host) GetBlockHash(n int64) (r tosca.Hash) {
	uf("blockhash", b64(uint64(n)), r[:])
	return
}
func (h host) GetCommittedStorage(a tosca.Address, k tosca.Key) (r tosca.Word) {
	uf("committed", cat(a[:], k[:]), r[:])
	return
}
func (h host) IsAddressInAccessList(a tosca.Address) bool {
	var r [1]byte
	uf("warm", a[:], r[:])
	return r[0]&1 == 1
}
func (h host) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	var r [1]byte
	uf("swarm", cat(a[:], k[:]), r[:])
	return h.IsAddressInAccessList(a), r[0]&1 == 1
}
func (h host) HasSelfDestructed(a tosca.Address) bool { return false }
func (h host) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	in := make([]byte, 8*5+20*3+64)
	k, fl := uint64(9), uint64(0)
	if h.static {
		fl = 1
	}
	switch kind {
	case tosca.Call:
		k, fl = 0, 0 // the run context does not know about read-only mode
	case tosca.StaticCall:
		k, fl = 0, 1
	case tosca.DelegateCall:
		k = 1
	case tosca.CallCode:
		k = 2
	case tosca.Create:
		k = 3
	case tosca.Create2:
		k = 4
	}
	put64(in, k)
	put64(in[8:], fl)
	put64(in[16:], 1+sym.U64("depth"))
	put64(in[24:], uint64(p.Gas))
	put64(in[32:], uint64(len(p.Input)))
	copy(in[40:], p.Recipient[:])
	copy(in[60:], p.Sender[:])
	copy(in[80:], p.CodeAddress[:])
	copy(in[100:], p.Value[:])
	copy(in[132:], p.Salt[:])
	sym.EventV("call", in, p.Input)
	st := sym.FreshU8("callstatus")
	sym.Assume(st <= 3)
	gas := tosca.Gas(sym.FreshU64("callgas"))
	sym.Assume(gas >= 0)
	sym.Assume(gas <= p.Gas)
	refund := tosca.Gas(sym.FreshU64("callrefund"))
	sym.Assume(refund >= -(1 << 40))
	sym.Assume(refund <= 1<<40)
	max := sym.Param("callout_max")
	n := sym.FreshU64("calloutsize")
	sym.Assume(n == 0 || n == max)
	// a call that failed leaves no gas and no output; only a successful one reports a refund
	sym.Assume(st == 0 || st == 2 || (gas == 0 && n == 0))
	sym.Assume(st == 0 || refund == 0)
	out := make([]byte, 64)
	sym.Fresh("callout", out)
	var addr tosca.Address
	sym.Fresh("calladdr", addr[:])
	return tosca.CallResult{Success: st == 0, GasLeft: gas, GasRefund: refund, Output: out[:n], CreatedAddress: addr}, nil
}

// ---- the frame
var zstack [1024][32]byte

func setup() (p tosca.Parameters) {
	n := sym.Param("codelen")
	at, fill, op := sym.Param("fillat"), sym.Param("fill"), byte(sym.Param("fillop"))
	pop := sym.Param("fillop") > 0xff // every filler instruction followed by a POP
	code := make([]byte, n+fill)
	for i := uint64(0); i < n; i++ {
		k := i
		if i >= at {
			k += fill
		}
		sym.BytesI(code[k:k+1], "code", i)
	}
	unit := uint64(1)
	if op > 0x5f && op < 0x80 {
		unit = uint64(op) - 0x5e
	}
	if pop {
		unit++
	}
	for i := uint64(0); i < fill; i += unit {
		code[at+i] = op
		if pop {
			code[at+i+unit-1] = 0x50
		}
	}
	p.Code = code
	p.Revision = tosca.Revision(int(sym.Param("revision")) - 7)
	p.Static = sym.U64("static")&1 == 1
	p.Context = host{p.Static}
	p.Depth = int(sym.U64("depth"))
	p.Gas = tosca.Gas(sym.U64("gas"))
	sym.Bytes(p.Recipient[:], "recipient")
	sym.Bytes(p.Sender[:], "sender")
	sym.Bytes(p.Value[:], "value")
	input := make([]byte, 64)
	sym.Bytes(input, "input")
	p.Input = input[:sym.U64("inputsize")]
	sym.Bytes(p.GasPrice[:], "gasprice")
	sym.Bytes(p.Origin[:], "origin")
	sym.Bytes(p.Coinbase[:], "coinbase")
	p.BlockNumber = int64(sym.U64("number"))
	p.Timestamp = int64(sym.U64("timestamp"))
	p.GasLimit = tosca.Gas(sym.U64("gaslimit"))
	sym.Bytes(p.PrevRandao[:], "prevrandao")
	sym.Bytes(p.ChainID[:], "chainid")
	sym.Bytes(p.BaseFee[:], "basefee")
	sym.Bytes(p.BlobBaseFee[:], "blobbasefee")
	blobs := make([]tosca.Hash, 4)
	for i := range blobs {
		sym.BytesI(blobs[i][:], "blob", uint64(i))
	}
	p.BlobHashes = blobs[:sym.U64("blobcount")]
	return
}

// frame is the state between two steps
type frame struct {
	st      status
	pc      uint64
	gas     tosca.Gas
	refund  tosca.Gas
	stack   *stack
	mem, rd []byte
}

func zcode(p *tosca.Parameters, c config) (Code, *pcMap) {
	return convert(p.Code, c.ConversionConfig), genPcMap(p.Code)
}

// zstep runs n instructions
func zstep(p *tosca.Parameters, code Code, m *pcMap, f *frame, n uint64) {
	// memory as the code itself grows it, in several steps
	mem, words := NewMemory(), tosca.SizeInWords(uint64(len(f.mem)))
	g := &context{gas: 1 << 50}
	if words > 1 {
		mem.expandMemory(0, 32, g)
		mem.expandMemory(words/2*32, 1, g)
	}
	mem.expandMemory(0, 32*words, g)
	copy(mem.store, f.mem)
	c := &context{pc: int32(m.evmToLfvm[f.pc]), params: *p, context: p.Context, gas: f.gas, refund: f.refund, stack: f.stack, memory: mem, code: code, returnData: f.rd, withShaCache: true}
	for i := uint64(0); f.st == statusRunning && i < n; i++ {
		f.st = execute(c, true)
	}
	if f.st == statusRunning {
		f.pc = uint64(m.lfvmToEvm[c.pc])
	}
	f.gas, f.refund, f.mem, f.rd = c.gas, c.refund, mem.store, c.returnData
}
func zout(f *frame, whole bool) {
	s, e, g := uint64(4), uint64(1), uint64(f.gas)
	var out []byte
	switch f.st {
	case statusRunning:
		s, e = 0, 0
	case statusStopped, statusSelfDestructed:
		s, e = 1, 0
	case statusReturned:
		s, e, out = 2, 0, f.rd
	case statusReverted:
		s, e, out = 3, 2, f.rd
		if whole && f.gas == 0 && len(f.rd) == 0 {
			s, e = 4, 1 // a run reports no difference to a failure
		}
	default:
		g = 0 // a failed execution has no gas left, whatever the frame says
	}
	sym.OutU64("step_status", s)
	sym.OutU64("revision", sym.Param("revision"))
	sym.OutU64("status", e)
	sym.OutU64("pc", f.pc)
	sym.OutU64("gas", g)
	sym.OutU64("refund", uint64(f.refund))
	sym.OutU64("outsize", uint64(len(out)))
	sym.Out("out", out)
	n := f.stack.len()
	sym.OutU64("sp", uint64(n))
	ws := zstack[:n]
	for i := range ws {
		ws[i] = f.stack.data[i].Bytes32()
	}
	flat := make([]byte, 32*n)
	for i := range ws {
		copy(flat[32*i:], ws[i][:])
	}
	sym.Out("stack", flat)
	sym.OutU64("memsize", uint64(len(f.mem)))
	sym.Out("mem", f.mem)
	sym.OutU64("rdsize", uint64(len(f.rd)))
	sym.Out("rd", f.rd)
}

// H_step: one (or a few) instructions in a symbolic frame
func H_step() {
	p := setup()
	f := &frame{pc: sym.Param("pc"), gas: p.Gas, refund: tosca.Gas(sym.U64("refund")), stack: NewStack()}
	n := int(sym.Param("sp"))
	for i := 0; i < n; i++ {
		var w [32]byte
		sym.BytesI(w[:], "s", uint64(n-1-i)) // s0 is the top
		f.stack.data[i].SetBytes32(w[:])
	}
	f.stack.stackPointer = n
	f.mem = make([]byte, sym.Param("memsize"))
	sym.Bytes(f.mem, "mem")
	f.rd = make([]byte, sym.Param("rdsize"))
	sym.Bytes(f.rd, "rd")
	code, m := zcode(&p, config{})
	zstep(&p, code, m, f, sym.Param("steps"))
	zout(f, false)
	sym.Reach("end")
}

func outExec(pre string, r tosca.Result, err error) {
	s := uint64(0)
	if err != nil {
		s = 3
	} else if !r.Success {
		s = 2
		if r.GasLeft == 0 && len(r.Output) == 0 {
			// a revert without gas and output cannot be told from a failure
			s = 1
		}
	}
	if pre == "e_" {
		sym.OutU64("e_status", s)
		sym.OutU64("e_gas", uint64(r.GasLeft))
		sym.OutU64("e_refund", uint64(r.GasRefund))
		sym.OutU64("e_outsize", uint64(len(r.Output)))
		sym.Out("e_out", r.Output)
	}
	if pre == "f_" {
		sym.OutU64("f_status", s)
		sym.OutU64("f_gas", uint64(r.GasLeft))
		sym.OutU64("f_refund", uint64(r.GasRefund))
		sym.OutU64("f_outsize", uint64(len(r.Output)))
		sym.Out("f_out", r.Output)
	}
}

func zvm(variant uint64) (*lfvm, error) {
	switch variant {
	case 1:
		return newVm(config{ConversionConfig: ConversionConfig{WithSuperInstructions: true}, WithShaCache: true})
	case 2:
		return newVm(config{})
	case 3:
		return newVm(config{ConversionConfig: ConversionConfig{CacheSize: -1}, WithShaCache: true})
	case 4:
		return newVm(config{WithShaCache: true, runner: &statisticRunner{stats: newStatistics()}})
	case 5:
		return newVm(config{ConversionConfig: ConversionConfig{WithSuperInstructions: true}, WithShaCache: true, runner: &statisticRunner{stats: newStatistics()}})
	}
	return NewInterpreter(Config{})
}

// H_stepexec: the same code in one go (twice, when it is identified by a hash) and by steps
func H_stepexec() {
	p := setup()
	vm, err := zvm(sym.Param("variant"))
	if err != nil {
		panic("no interpreter")
	}
	hash := sym.Param("hash") != 0
	if hash {
		other := make([]byte, 48)
		for i := 0; i < 40; i++ {
			other[i] = 0x5b
		}
		q := p
		q.Code, q.CodeHash = other, &tosca.Hash{31: 2}
		vm.Run(q)
		p.CodeHash = &tosca.Hash{31: 1}
	}
	sym.Event("run", nil)
	sym.FreshReset()
	r, err := vm.Run(p)
	outExec("e_", r, err)
	if hash || sym.Param("variant") != 0 {
		sym.Event("run", nil)
		sym.FreshReset()
		if sym.Param("variant") != 0 {
			vm, _ = NewInterpreter(Config{})
		}
		r, err := vm.Run(p)
		outExec("f_", r, err)
	}
	if sym.Param("fill") != 0 {
		sym.Reach("end")
		return
	}
	sym.Event("run", nil)
	sym.FreshReset()
	f := &frame{gas: p.Gas, stack: NewStack()}
	code, m := zcode(&p, config{})
	max := sym.Param("maxsteps")
	for i := uint64(0); i < max && f.st == statusRunning; i++ {
		zstep(&p, code, m, f, sym.Param("steps"))
	}
	if f.st != statusRunning {
		zout(f, true)
		sym.Reach("end")
	} else {
		sym.Reach("unfinished")
	}
}
