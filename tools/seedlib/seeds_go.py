L='go/interpreter/lfvm/'; F='go/processor/floria/'; T='go/tosca/'
SH='#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d); trap "rm -rf $tmp" EXIT\n. $here/gobuild.sh\ntimeout 120 $tmp/demo\n'
def go(body, imports=(), pre='', world=True, pk=''):
    d = {'demo.go': 'package main\n\nimport (\n\t"github.com/Fantom-foundation/Tosca/go/tosca"\n' + ''.join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports) + ')\n\n' + pre + '\nfunc main() {\n' + body + '\n\tdone()\n}\n', 'demo.sh': SH,
         '_copy': [('tools/seedlib/go/gobuild.sh', 'gobuild.sh'), ('tools/seedlib/go/mods', 'mods'), ('tools/seedlib/go/world.go', 'world.go')]}
    if pk == 'lfvm': d['_copy'].append(('tools/seedlib/go/keccak_standin.go', 'keccak_standin.go'))
    return d
FI = ['_ "github.com/Fantom-foundation/Tosca/go/processor/floria"']
FP = '''func proc(i tosca.Interpreter) tosca.Processor { return tosca.GetProcessorFactory("floria")(i) }
func ok(p tosca.Parameters) (tosca.Result, error) { return tosca.Result{Success: true, GasLeft: p.Gas}, nil }
func rich(w *world, as ...tosca.Address) *world { for _, a := range as { w.SetBalance(a, val(1 << 40)) }; w.writes = 0; return w }
func tx(to byte) tosca.Transaction { a := addr(to); return tosca.Transaction{Sender: addr(1), Recipient: &a, GasLimit: 100000, GasPrice: val(1)} }
var _, _, _, _ = proc, ok, rich, tx
'''
def fl(body, imports=()): return go(body, list(imports) + FI, FP)
LI = ['_ "github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"', '"encoding/hex"', '"math/big"']
LP = '''type ctx struct {
	*world
	call func(tosca.CallKind, tosca.CallParameters) (tosca.CallResult, error)
}
func (c ctx) Call(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) { return c.call(k, p) }
func run(code string, rev tosca.Revision, gas tosca.Gas, change func(*tosca.Parameters, *ctx)) tosca.Result {
	c, err := hex.DecodeString(code)
	if err != nil { panic(err) }
	vm, err := tosca.NewInterpreter("lfvm")
	if err != nil { panic(err) }
	x := ctx{world: newWorld(), call: func(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) { return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil }}
	p := tosca.Parameters{Code: c, Gas: gas, Recipient: addr(7), Sender: addr(8)}
	p.Revision = rev
	p.Context = &x
	if change != nil { change(&p, &x) }
	r, err := vm.Run(p)
	if err != nil { panic(err) }
	return r
}
func word(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
var _ = word
'''
def lf(body, imports=()): return go(body, LI + list(imports), LP, pk='lfvm')
RET = '60005260206000f3'
SEEDS = {
'f01-nonce-int64': dict(property='F01', file=F+'processor.go', old='	if stateNonce+1 < stateNonce {', new='	if int64(stateNonce)+1 < int64(stateNonce) {',
  needs='an account nonce of 2^63-1 or 2^64-1', what='the nonce overflow check is done on signed numbers: the largest nonce is accepted and an ordinary one refused',
  demo=fl('''	for _, n := range []uint64{1<<63 - 1, 1<<64 - 1} {
		w := rich(newWorld(), addr(1)); w.SetNonce(addr(1), n); before := w.String()
		t := tx(2); t.Nonce = n
		r, err := proc(script(ok)).Run(tosca.BlockParameters{}, t, w)
		if n == 1<<64-1 { need(err == nil && !r.Success && r.GasUsed == 0 && w.String() == before, "nonce %d accepted", n) } else { need(r.Success && w.GetNonce(addr(1)) == 1<<63, "nonce %d rejected", n) }
	}''')),
'f02-refund-cap-base': dict(property='F02', file=F+'processor.go', old='		gasUsed := transaction.GasLimit - gasLeft\n', new='		gasUsed := transaction.GasLimit - result.GasLeft\n',
  needs='a successful transaction with unused gas whose refund lies between the two caps', what='the refund cap is taken from the gas used before the ten percent charge',
  demo=fl('''	w := rich(newWorld(), addr(1)); w.SetCode(addr(2), []byte{0})
	r, _ := proc(script(func(p tosca.Parameters) (tosca.Result, error) { return tosca.Result{Success: true, GasLeft: 50000, GasRefund: 40000}, nil })).Run(tosca.BlockParameters{}, tx(2), w)
	// 55000 gas used including the charge, half of which may be refunded
	need(r.GasUsed == 55000-27500, "gas used %d", r.GasUsed)''')),
'f02-charge-all': dict(property='F02', file=F+'processor.go', old='	refundValue := transaction.GasPrice.Scale(uint64(gasLeft))', new='	refundValue := transaction.GasPrice.Scale(uint64(uint32(gasLeft)))',
  needs='more than 2^32-1 units of gas left at the end of a transaction', what='the returned fee is computed from the low half of the remaining gas',
  demo=fl('''	w := rich(newWorld(), addr(1)); w.SetCode(addr(2), []byte{0}); t := tx(2); t.GasLimit = 1 << 36
	r, _ := proc(script(ok)).Run(tosca.BlockParameters{}, t, w)
	need(w.GetBalance(addr(1)) == val(1<<40-int64(r.GasUsed)), "gas used %d balance %v", r.GasUsed, w.GetBalance(addr(1)))''')),
'f03-revert-keeps': dict(property='F03', file=F+'run_context.go', old='	if err != nil || !result.Success {\n		r.RestoreSnapshot(snapshot)', new='	if err != nil || (!result.Success && result.GasLeft == 0) {\n		r.RestoreSnapshot(snapshot)',
  needs='a call that reverts with gas left after changing state', what='the changes of a reverted call stay',
  demo=fl('''	w := rich(newWorld(), addr(1)); w.SetCode(addr(2), []byte{0})
	t := tx(2); t.Value = val(5)
	r, _ := proc(script(func(p tosca.Parameters) (tosca.Result, error) { p.Context.SetStorage(p.Recipient, tosca.Key{}, tosca.Word{1}); return tosca.Result{GasLeft: 10}, nil })).Run(tosca.BlockParameters{}, t, w)
	need(!r.Success && w.GetStorage(addr(2), tosca.Key{}) == tosca.Word{} && w.GetBalance(addr(2)) == tosca.Value{}, "state %v", w)''')),
'f04-static-lost': dict(property='F04', file=F+'run_context.go', old='	if kind == tosca.StaticCall {\n		r.static = true\n	}', new='	r.static = kind == tosca.StaticCall || (r.static && kind != tosca.Call)',
  needs='a plain call made by code that runs inside a static call', what='the read-only mode is not inherited by nested plain calls',
  demo=fl('''	w := rich(newWorld(), addr(1)); w.SetCode(addr(2), []byte{0}); w.SetCode(addr(3), []byte{0}); n := 0
	proc(script(func(p tosca.Parameters) (tosca.Result, error) {
		n++
		switch n {
		case 1: p.Context.Call(tosca.StaticCall, tosca.CallParameters{Sender: addr(2), Recipient: addr(3), Gas: 10})
		case 2: need(p.Static, "static call"); p.Context.Call(tosca.Call, tosca.CallParameters{Sender: addr(3), Recipient: addr(2), Gas: 10})
		case 3: need(p.Static && p.Depth == 2, "nested call in a static call: static %v depth %d", p.Static, p.Depth)
		}
		return tosca.Result{Success: true}, nil
	})).Run(tosca.BlockParameters{}, tx(2), w)
	need(n == 3, "runs %d", n)''')),
'f04-self-transfer': dict(property='F04', file=F+'run_context.go', old='	if sender == recipient {\n		return nil\n	}\n\n	receiverBalance := context.GetBalance(recipient)', new='	receiverBalance := context.GetBalance(recipient)',
  needs='an account that sends a value to itself', what='self-transfers create value',
  demo=fl('''	w := rich(newWorld(), addr(1)); t := tx(1); t.Value = val(77)
	r, _ := proc(script(ok)).Run(tosca.BlockParameters{}, t, w)
	need(r.Success && w.GetBalance(addr(1)) == val(1<<40-int64(r.GasUsed)), "balance %v used %d", w.GetBalance(addr(1)), r.GasUsed)''')),
'f05-storage-length': dict(property='F05', file=F+'state_contract.go', old='	if len(input) != 96 {', new='	if len(input) < 96 {',
  needs='a setStorage request with trailing bytes', what='malformed requests are executed',
  demo=fl('''	w := rich(newWorld(), floria.DriverAddress())
	sel := crypto.Keccak256([]byte("setStorage(address,bytes32,bytes32)"))[:4]; _ = sel
	t := tx(0); c := floria.StateContractAddress(); t.Sender = floria.DriverAddress(); t.Recipient = &c
	m, _ := abi.JSON(strings.NewReader(`[{"type":"function","name":"setStorage","inputs":[{"name":"acc","type":"address"},{"name":"key","type":"bytes32"},{"name":"value","type":"bytes32"}]}]`))
	t.Input = append(append([]byte{}, m.Methods["setStorage"].ID...), make([]byte, 97)...); t.Input[4+31] = 9; t.Input[4+95] = 1
	r, _ := proc(script(ok)).Run(tosca.BlockParameters{}, t, w)
	need(!r.Success && !w.AccountExists(tosca.Address{19: 9}), "97 bytes accepted: %v", w)
	t.Input = t.Input[:len(t.Input)-1]; t.Nonce = 1
	r, _ = proc(script(ok)).Run(tosca.BlockParameters{}, t, w)
	need(r.Success && w.GetStorage(tosca.Address{19: 9}, tosca.Key{}) == tosca.Word{31: 1}, "96 bytes refused")''',
   ['"strings"', '"github.com/Fantom-foundation/Tosca/go/processor/floria"', '"github.com/ethereum/go-ethereum/accounts/abi"', '"github.com/ethereum/go-ethereum/crypto"'])),
'f06-cancun-late': dict(property='F06', file=F+'precompiled.go', old='	case tosca.R13_Cancun:\n		precompiles = geth.PrecompiledContractsCancun\n	case tosca.R12_Shanghai, tosca', new='	case tosca.R12_Shanghai, tosca.R13_Cancun:\n		precompiles = geth.PrecompiledContractsCancun\n	case tosca',
  needs='Shanghai and a call of address ten', what='the point evaluation contract exists one revision early',
  demo=fl('''	for _, rev := range []tosca.Revision{tosca.R12_Shanghai, tosca.R13_Cancun} {
		w := rich(newWorld(), addr(1)); ten := tosca.Address{19: 10}; w.SetCode(ten, []byte{0}); t := tx(0); t.Recipient = &ten; ran := false
		proc(script(func(p tosca.Parameters) (tosca.Result, error) { ran = true; return ok(p) })).Run(tosca.BlockParameters{Revision: rev}, t, w)
		need(ran == (rev == tosca.R12_Shanghai), "revision %v ran code %v", rev, ran)
	}''')),
'f07-dup-tuple': dict(property='F07', file=F+'processor.go', old='		context.AccessAccount(accessTuple.Address)\n		for _, key', new='		if context.AccessAccount(accessTuple.Address) == tosca.WarmAccess {\n			continue\n		}\n		for _, key',
  needs='an access list that names the recipient, the sender or an address twice, with storage keys', what='slots of already warm addresses are not marked',
  demo=fl('''	w := rich(newWorld(), addr(1)); t := tx(2); t.AccessList = []tosca.AccessTuple{{Address: addr(2), Keys: []tosca.Key{{1}}}, {Address: addr(3), Keys: []tosca.Key{{2}}}}
	proc(script(ok)).Run(tosca.BlockParameters{Revision: tosca.R09_Berlin}, t, w)
	_, a := w.IsSlotInAccessList(addr(2), tosca.Key{1}); _, b := w.IsSlotInAccessList(addr(3), tosca.Key{2})
	need(a && b, "warm %v %v", a, b)''')),
'l01-sar-255': dict(property='L01', file=L+'instructions.go', old='	b.SRsh(b, uint(a.Uint64()))', new='	b.SRsh(b, uint(a.Uint64())&0xff)',
  needs='SAR by exactly 256', what='an arithmetic shift by 256 leaves the value unchanged',
  demo=lf('''	for _, c := range []struct{ code, want string }{{"60056101001d''' + RET + '''", "0"}, {"60001961010 01d", ""}} {
		if c.want == "" { continue }
		r := run(c.code, tosca.R13_Cancun, 100000, nil)
		need(word(r.Output).String() == c.want, "%s: %v", c.code, word(r.Output))
	}''')),
'l02-dup16-limit': dict(property='L02', file=L+'stack_usage.go', old='DUP1 <= op && op <= DUP16', new='DUP1 <= op && op < DUP16',
  needs='DUP16 on a stack of 15 or of 1024 entries', what='DUP16 is executed without checking the stack limits',
  demo=lf('''	for _, n := range []int{1023, 1024} {
		r := run(strings.Repeat("6001", n)+"8f60016001"[:2], tosca.R13_Cancun, 100000, nil)
		need(r.Success == (n == 1023), "DUP16 on %d entries: %v", n, r.Success)
	}''', ['"strings"'])),
'l03-create2-hash': dict(property='L03', file=L+'instructions.go', old='		if err := c.useGas(tosca.Gas(6 * words)); err != nil {\n			return err\n		}\n	}\n', new='		if err := c.useGas(tosca.Gas(6 * (words &^ 1))); err != nil {\n			return err\n		}\n	}\n',
  needs='CREATE2 with an odd number of init code words', what='the last word of the init code is hashed for free',
  demo=lf('''	for size, want := range map[string]tosca.Gas{"20": 6 + 2, "40": 12 + 4} {
		zero := run("600060"+size+"60006000f5", tosca.R13_Cancun, 1000000, nil); none := run("600060006000"+"6000f5", tosca.R13_Cancun, 1000000, nil)
		mem := map[string]tosca.Gas{"20": 3, "40": 6}[size]
		need(none.GasLeft-zero.GasLeft == want+mem, "size %s: %d", size, none.GasLeft-zero.GasLeft)
	}''')),
'l04-callcode-static': dict(property='L04', file=L+'instructions.go', old='	if c.params.Static && kind == tosca.Call {\n		kind = tosca.StaticCall', new='	if c.params.Static && kind == tosca.Call && c.params.Depth > 0 {\n		kind = tosca.StaticCall',
  needs='a plain call without value from top-level code running in read-only mode', what='the nested call is not read-only',
  demo=lf('''	for _, d := range []int{0, 1} {
		kind := tosca.Create
		run("6000600060006000600060ff5af1", tosca.R13_Cancun, 100000, func(p *tosca.Parameters, c *ctx) { p.Static = true; p.Depth = d; c.call = func(k tosca.CallKind, q tosca.CallParameters) (tosca.CallResult, error) { kind = k; return tosca.CallResult{Success: true}, nil } })
		need(kind == tosca.StaticCall, "depth %d kind %v", d, kind)
	}''')),
'l03-memory-fee': dict(property='L05', file=L+'memory.go', old='		m.currentMemoryCost += fee\n', new='		m.currentMemoryCost = fee\n',
  needs='memory that grows three times', what='the third and later growths are priced from the wrong base',
  demo=lf('''	r := run("600060005260006020526000604052", tosca.R13_Cancun, 1000, nil)
	need(r.Success && r.GasLeft == 1000-9*3-9, "gas left %d", r.GasLeft)''')),
'l06-jumpi-low': dict(property='L06', file=L+'instructions.go', old='	condition := c.stack.pop()\n	if !condition.IsZero() {', new='	condition := c.stack.pop()\n	if condition.Uint64() != 0 {',
  needs='a JUMPI condition that is a non-zero multiple of 2^64', what='only the low 64 bits of a condition count',
  demo=lf('''	r := run("68010000000000000000"+"600e57fe5b00", tosca.R13_Cancun, 100000, nil)
	need(r.Success, "jump not taken")''')),
'l07-blockhash-256': dict(property='L07', file=L+'instructions.go', old='	if requestedBlockNumber < oldestInHistory {', new='	if requestedBlockNumber <= oldestInHistory && currentBlockNumber > 256 {',
  needs='BLOCKHASH of the block exactly 256 before the current one', what='the oldest visible block hash reads zero',
  demo=lf('''	for cur, n := range map[int64]string{1000: "6102e8", 256: "610000", 300: "61002c"} {
		r := run(n+"40''' + RET + '''", tosca.R13_Cancun, 1000, func(p *tosca.Parameters, c *ctx) { p.BlockNumber = cur; p.Context = hashes{c} })
		need(r.Success && len(r.Output) == 32 && r.Output[0] == 0x77, "block %d at %d: %x", word([]byte(n)), cur, r.Output)
	}''')),
'l08-refund-revert': dict(property='L08', file=L+'interpreter.go', old='			Success: false,\n			Output:  ctxt.returnData,\n			GasLeft: ctxt.gas,\n', new='			Success:   false,\n			Output:    ctxt.returnData,\n			GasLeft:   ctxt.gas,\n			GasRefund: ctxt.refund,\n',
  needs='code that earns a refund and then reverts', what='a reverting execution reports a refund',
  demo=lf('''	r := run("600060005560006000fd", tosca.R10_London, 100000, func(p *tosca.Parameters, c *ctx) { p.Context = clearing{c} })
	need(!r.Success && r.GasLeft > 0 && r.GasRefund == 0, "refund %d", r.GasRefund)
	r = run("6000600055", tosca.R10_London, 100000, func(p *tosca.Parameters, c *ctx) { p.Context = clearing{c} })
	need(r.Success && r.GasRefund == 4800, "refund %d", r.GasRefund)''')),
'l09-push-add-carry': dict(property='L09', file=L+'super_instructions.go', old='	trg[3], _ = bits.Add64(trg[3], 0, carry)', new='	trg[3], _ = bits.Add64(trg[3], 0, carry&trg[3])',
  needs='super instructions and an addition of a constant that carries into the top limb while that limb is even', what='the fused PUSH1 ADD loses the last carry',
  demo=lf('''	lfvm.RegisterExperimentalInterpreterConfigurations()
	code := "77"+strings.Repeat("ff", 24)+"6001"+"01'''+RET+'''"
	c, _ := hex.DecodeString(code)
	vm, err := tosca.NewInterpreter("lfvm-si")
	if err != nil { panic(err) }
	r, _ := vm.Run(tosca.Parameters{Code: c, Gas: 100000, Context: &ctx{world: newWorld()}})
	need(word(r.Output).Cmp(new(big.Int).Lsh(big.NewInt(1), 192)) == 0, "sum %x", r.Output)''', ['"strings"', '"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"'])),
't02-scale': dict(property='T02', file=T+'types.go', old='	res, carry = bits.Sub64(a.getInternalUint64(2), b.getInternalUint64(2), carry)\n	binary.BigEndian.PutUint64(z[8:16], res)', new='	res, carry = bits.Sub64(a.getInternalUint64(2), b.getInternalUint64(2)+carry, 0)\n	binary.BigEndian.PutUint64(z[8:16], res)',
  needs='a subtraction that borrows into a third limb that is all ones in the subtrahend', what='a borrow is lost when the subtrahend limb wraps',
  demo=go('''	a, b := tosca.NewValue(1, 0, 0, 0), tosca.NewValue(0, 1<<64-1, 0, 1)
	got := tosca.Sub(a, b).ToBig(); want := new(big.Int).Sub(a.ToBig(), b.ToBig())
	need(got.Cmp(want) == 0, "%v - %v = %v", a, b, got)''', ['"math/big"'])),
't03-deleted-added': dict(property='T03', file=T+'utils.go', old='	if original != zero && current == original && new != zero && new != original {', new='	if original != zero && new != zero && new != original {',
  needs='a slot that was cleared earlier in the transaction and gets a value different from its original one', what='re-adding a deleted slot is classified as a modification',
  demo=go('''	need(tosca.GetStorageStatus(tosca.Word{1}, tosca.Word{}, tosca.Word{2}) == tosca.StorageDeletedAdded, "X -> 0 -> Z: %v", tosca.GetStorageStatus(tosca.Word{1}, tosca.Word{}, tosca.Word{2}))''')),
't04-text-trailing': dict(property='T04', file=T+'types.go', old='	if want, got := len(trg), len(data); want != got {', new='	if want, got := len(trg), len(data); want > got {',
  needs='a text with more digits than the value has', what='overlong texts are accepted and cut off',
  demo=go('''	var v tosca.Value
	need(v.UnmarshalText([]byte("0x"+strings.Repeat("00", 33))) != nil, "33 bytes accepted")
	need(v.UnmarshalText([]byte("0x"+strings.Repeat("01", 32))) == nil, "32 bytes refused")''', ['"strings"'])),
}
CT='go/ct/'
def ct(body, imports=()): return go(body, ['. "github.com/Fantom-foundation/Tosca/go/ct/common"', '"github.com/Fantom-foundation/Tosca/go/ct/gen"', '"github.com/Fantom-foundation/Tosca/go/ct/st"'] + list(imports), 'var _ = NewU256\nvar _ = gen.NewRangeSolver[uint64]\nvar _ = st.NewMemory\nvar _ tosca.Gas\n')
def hc(body):
    d = go('	if e := lfvm.HashCacheDemo(); e != "" { need(false, "%s", e) }\n	var _ tosca.Gas', ['"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"'], pk='lfvm')
    d['lfvm_demo.go'] = 'package lfvm\n\nimport (\n\t"fmt"\n\n\t"github.com/Fantom-foundation/Tosca/go/tosca"\n)\n\nvar _ = fmt.Sprint\n\n' + body
    return d
SEEDS.update({
'l10-tail-stale': dict(property='L10', file=L+'hash_cache.go', old="""			} else {
				h.tail = entry.pred
			}
""", new="""			}
""", needs='a look-up of the least recently used entry followed by an insertion into the full cache', what='the end of the usage order is not updated when its entry is moved to the front: the entry just used is evicted and the order is corrupted',
  demo=hc("""// HashCacheDemo fills a cache of two entries, uses the older one and inserts more.
func HashCacheDemo() (res string) {
	defer func() { if r := recover(); r != nil { res = fmt.Sprint("panic: ", r) } }()
	n := map[[32]byte]int{}
	c := newHashCache(3, func(k [32]byte) tosca.Hash { n[k]++; return tosca.Hash(k) })
	keys := []byte{1, 2, 0, 3, 0, 2, 4, 0, 5, 0, 6, 0}
	for _, k := range keys {
		if c.getHash([32]byte{k}) != (tosca.Hash{k}) { return fmt.Sprint("wrong hash of ", k) }
	}
	if n[[32]byte{0}] != 1 { return fmt.Sprint("a recently used entry was evicted and computed ", n[[32]byte{0}], " times") }
	return ""
}
""")),
'l10-duplicate': dict(property='L10', file=L+'hash_cache.go', old="	if _, found := h.index[key]; found {\n		// If", new="	if entry, found := h.index[key]; found && entry == h.head {\n		// If",
  needs='two threads computing the hash of the same key while a third key is inserted in between', what='a key added concurrently is inserted a second time, so the cache keeps two entries for it and drops the index entry of the living one when the other is evicted',
  demo=hc("""// HashCacheDemo runs look-ups of other threads inside of a hash computation.
func HashCacheDemo() (res string) {
	defer func() { if r := recover(); r != nil { res = fmt.Sprint("panic: ", r) } }()
	var c *hashCache[[32]byte]
	deep := false
	c = newHashCache(4, func(k [32]byte) tosca.Hash {
		if k == ([32]byte{1}) && !deep {
			deep = true
			done := make(chan bool)
			go func() { c.getHash([32]byte{1}); c.getHash([32]byte{2}); done <- true }()
			<-done
		}
		return tosca.Hash(k)
	})
	c.getHash([32]byte{1})
	seen := map[[32]byte]bool{}
	for e := c.head; e != nil; e = e.succ {
		if seen[e.key] { return fmt.Sprint("two entries for ", e.key[0]) }
		seen[e.key] = true
	}
	return ""
}
""")),
's01-shr-amount': dict(property='S01', file=CT+'common/u256.go', old="""func (a U256) Shr(b U256) (z U256) {
	if b.internal.LtUint64(256) {
""", new="""func (a U256) Shr(b U256) (z U256) {
	if b.internal.Uint64() < 256 {
""", needs='a shift by 2^64 or more whose low 64 bits are below 256', what='only the low 64 bits of the shift amount are looked at',
  demo=ct("""	a := MaxU256()
	need(a.Shr(NewU256(4)) == NewU256(^uint64(0)>>4, ^uint64(0), ^uint64(0), ^uint64(0)), "shift by 4: %v", a.Shr(NewU256(4)))
	need(a.Shr(NewU256(1, 4)).IsZero(), "shift by 2^64+4: %v", a.Shr(NewU256(1, 4)))
	need(a.Shr(NewU256(256)).IsZero(), "shift by 256: %v", a.Shr(NewU256(256)))""")),
's01-between': dict(property='S01', file=CT+'common/u256.go', old='	randValue := RandU256(rnd).Mod(rangeValue)\n', new='	randValue := RandU256(rnd)\n	if rangeValue.IsUint64() {\n		randValue = randValue.Mod(rangeValue)\n	}\n',
  needs='a range of 2^64 or more values', what='values between two limits leave the range when it has more than 2^64 values',
  demo=ct("""	rnd := rand.New(1)
	for _, max := range []U256{NewU256(17), NewU256(1, 0, 0), NewU256(1, 0, 0, 7)} {
		min := NewU256(5)
		for i := 0; i < 100; i++ {
			v := RandU256Between(rnd, min, max)
			need(!v.Lt(min) && !v.Gt(max), "%v not between %v and %v", v, min, max)
		}
	}""", ['"pgregory.net/rand"'])),
's02-upper-first': dict(property='S02', file=CT+'gen/interval_solver.go', old='	max := s.intervals[len(s.intervals)-1].high\n', new='	max := s.intervals[0].high\n',
  needs='an exclusion splitting the domain before an upper boundary beyond the gap', what='the largest value is taken from the first interval, so that upper boundaries are ignored once the domain was split',
  demo=ct("""	s := gen.NewIntervalSolver[uint64](0, 100)
	s.AddUpperBoundary(90)
	s.Exclude(20, 30)
	s.AddUpperBoundary(50)
	need(s.Contains(10) && s.Contains(40) && !s.Contains(25) && !s.Contains(60), "domain %v", s)""")),
's02-clone-shared': dict(property='S02', edits=[(CT+'gen/interval_solver.go', '	return &IntervalSolver[T]{intervals: slices.Clone(s.intervals)}\n', '	return &IntervalSolver[T]{intervals: s.intervals}\n'),
   (CT+'gen/interval_solver.go', '	res := []interval[T]{}\n', '	res := s.intervals[:0]\n	if len(s.intervals) > 1 {\n		res = make([]interval[T], 0, len(s.intervals)+1)\n	}\n')],
  needs='a solver with a single interval that is cloned before a further constraint is added', what='a constraint added to one of two copies rewrites the intervals of the other',
  demo=ct("""	a := gen.NewIntervalSolver[uint64](0, 100)
	b := a.Clone()
	b.AddUpperBoundary(50)
	need(a.Contains(70) && !b.Contains(70), "original %v copy %v", a, b)""")),
's04-expansion-limit': dict(property='S04', file=CT+'st/memory.go', old='	if newSize > MaxMemoryExpansionSize {', new='	if size > MaxMemoryExpansionSize || offset > MaxMemoryExpansionSize {',
  needs='an offset and a size that only exceed the limit together', what='accesses beyond the memory limit get a price',
  demo=ct("""	m := st.NewMemory()
	c, _, _ := m.ExpansionCosts(NewU256(0x1FFFFFFFE0), NewU256(32))
	need(c == 1<<63-1, "price %d", c)
	c, _, _ = m.ExpansionCosts(NewU256(0x1FFFFFFFC0), NewU256(32))
	need(c > 0 && c < 1<<63-1, "price %d", c)""")),
's04-copy-shared': dict(property='S04', file=CT+'st/memory.go', old='	return &Memory{slices.Clone(m.mem)}\n', new='	return &Memory{m.mem[:len(m.mem):len(m.mem)]}\n',
  needs='a write into the existing content of a memory that was copied', what='copies share their content until one grows',
  demo=ct("""	m := st.NewMemory(make([]byte, 64)...)
	c := m.Clone()
	c.Write([]byte{1}, 100)
	need(m.Size() == 64 && c.Size() == 128, "sizes %d %d", m.Size(), c.Size())
	c = m.Clone()
	c.Write([]byte{7}, 3)
	need(m.Eq(st.NewMemory(make([]byte, 64)...)), "the original changed with its copy")""")),
's04-push-end': dict(property='S04', file=CT+'st/code.go', old='	if pos < 0 || pos >= len(c.isCode) {\n		return true // out-of-bounds STOP', new='	if pos < 0 || pos >= len(c.code) {\n		return true // out-of-bounds STOP',
  needs='a code ending inside of the data of a PUSH instruction', what='the missing data bytes of the last instruction are taken for code',
  demo=ct("""	c := st.NewCode([]byte{0x00, 0x62, 0x01})
	need(c.IsCode(0) && c.IsCode(1) && c.IsData(2) && c.IsData(3) && c.IsData(4) && c.IsCode(5), "data of a truncated PUSH3")""")),
})
def ev(body):
    d = go('	if e := evmc.EvmcDemo(); e != "" { need(false, "%s", e) }\n	var _ tosca.Gas', ['"github.com/Fantom-foundation/Tosca/go/interpreter/evmc"'])
    d['evmc_demo.go'] = 'package evmc\n\nimport (\n\t"fmt"\n\n\t"github.com/Fantom-foundation/Tosca/go/ct/common"\n\t"github.com/Fantom-foundation/Tosca/go/ct/st"\n\t"github.com/Fantom-foundation/Tosca/go/tosca"\n\t"github.com/ethereum/evmc/v11/bindings/go/evmc"\n)\n' + EVC + body + '\n	return ""\n}\n'
    return d
EVC = """
var C = struct {
	EVMC_SUCCESS, EVMC_FAILURE, EVMC_REVERT, EVMC_OUT_OF_GAS, EVMC_INVALID_INSTRUCTION, EVMC_UNDEFINED_INSTRUCTION, EVMC_STACK_OVERFLOW, EVMC_STACK_UNDERFLOW, EVMC_BAD_JUMP_DESTINATION, EVMC_INVALID_MEMORY_ACCESS,
	EVMC_CALL_DEPTH_EXCEEDED, EVMC_STATIC_MODE_VIOLATION, EVMC_PRECOMPILE_FAILURE, EVMC_CONTRACT_VALIDATION_FAILURE, EVMC_ARGUMENT_OUT_OF_RANGE int32
}{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
var _ = fmt.Sprint
var _ = st.NewStack
var _ = common.NewU256
var _ = evmc.Call

// context answers what it is told to
type context struct {
	tosca.RunContext
	nonce   uint64
	balance byte
	size    int
	kind    tosca.CallKind
	result  tosca.CallResult
}

func (c *context) GetNonce(tosca.Address) uint64           { return c.nonce }
func (c *context) GetBalance(tosca.Address) tosca.Value    { return tosca.Value{31: c.balance} }
func (c *context) GetCodeSize(tosca.Address) int           { return c.size }
func (c *context) GetCodeHash(tosca.Address) tosca.Hash    { return tosca.Hash{7} }
func (c *context) Call(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	c.kind = k
	return c.result, nil
}

func EvmcDemo() string {
"""
X='go/interpreter/evmc/'
SEEDS.update({
'a01-funded-empty': dict(property='A01', file=X+'evmc_interpreter.go', old="""		ctx.context.GetBalance(tosca.Address(addr)) == tosca.Value{} &&
""", new='', needs='an account without code and nonce that owns something', what='accounts with nothing but a balance count as empty (hash zero, surcharge for new accounts)',
  demo=ev("""	c := &context{}
	h := &hostContext{context: c}
	if h.AccountExists(evmc.Address{}) || h.GetCodeHash(evmc.Address{}) != (evmc.Hash{}) { return "empty account" }
	c.size = 3
	if !h.AccountExists(evmc.Address{}) || h.GetCodeHash(evmc.Address{}) != (evmc.Hash{7}) { return "contract" }
	c.size, c.balance = 0, 9
	if !h.AccountExists(evmc.Address{}) || h.GetCodeHash(evmc.Address{}) != (evmc.Hash{7}) { return "funded account" }""")),
'a01-static-delegate': dict(property='A01', file=X+'evmc_interpreter.go', old="""	case evmc.DelegateCall:
		callKind = tosca.DelegateCall
""", new="""	case evmc.DelegateCall:
		callKind = tosca.DelegateCall
		if static {
			callKind = tosca.StaticCall
		}
""", needs='a delegate call in read-only mode', what='delegate calls in read-only mode become static calls: the code runs on the storage of the library',
  demo=ev("""	c := &context{}
	h := &hostContext{context: c}
	for _, x := range []struct{ k evmc.CallKind; s bool; w tosca.CallKind }{{evmc.Call, false, tosca.Call}, {evmc.Call, true, tosca.StaticCall}, {evmc.DelegateCall, false, tosca.DelegateCall}, {evmc.DelegateCall, true, tosca.DelegateCall}} {
		h.Call(x.k, evmc.Address{}, evmc.Address{}, evmc.Hash{}, nil, 1, 1, x.s, evmc.Hash{}, evmc.Address{})
		if c.kind != x.w { return fmt.Sprint("wrong kind for ", x) }
	}""")),
'a01-revert-call-gas': dict(property='A01', file=X+'evmc_interpreter.go', old="""	if !result.Success {
		err = evmc.Revert
	}
""", new="""	if !result.Success {
		err = evmc.Revert
		if len(result.Output) == 0 {
			err, result.GasLeft = evmc.Failure, 0
		}
	}
""", needs='a nested call that reverts without a message', what='nested calls reverting without output are taken for failed ones and lose their gas',
  demo=ev("""	c := &context{result: tosca.CallResult{GasLeft: 5, Output: []byte{1}}}
	h := &hostContext{context: c}
	if _, g, _, _, err := h.Call(evmc.Call, evmc.Address{}, evmc.Address{}, evmc.Hash{}, nil, 9, 1, false, evmc.Hash{}, evmc.Address{}); g != 5 || err != evmc.Revert { return "revert with output" }
	c.result.Output = nil
	if _, g, _, _, _ := h.Call(evmc.Call, evmc.Address{}, evmc.Address{}, evmc.Hash{}, nil, 9, 1, false, evmc.Hash{}, evmc.Address{}); g != 5 { return "revert without output" }""")),
'a01-step-returned': dict(property='A01', file=X+'evmc_steppable_interpreter.go', old="""	if result.StepStatusCode == evmc.Returned || result.StepStatusCode == evmc.Reverted {""", new="""	if state.Status == st.Stopped && result.StepStatusCode != evmc.Stopped {""",
  needs='a step that ends in a revert with output', what='the output of reverted executions is not taken over when stepping',
  demo=ev("""	code := evmc.Returned
	i := &SteppableEvmcInterpreter{vm: &evmc.VMSteppable{Run: func(evmc.StepParameters) (evmc.StepResult, error) { return evmc.StepResult{StepStatusCode: code, Output: []byte{1, 2}}, nil }}}
	for _, code = range []evmc.StepStatus{evmc.Returned, evmc.Reverted} {
		s, err := i.StepN(tosca.Parameters{}, st.NewState(st.NewCode([]byte{0})), 1)
		if err != nil || len(s.ReturnData.ToBytes()) != 2 { return fmt.Sprint("no output for ", code) }
	}""")),
's03-cold-shared': dict(property='S03', file=CT+'st/storage.go', old="""	if s.warm != nil {
		s.warm = maps.Clone(s.warm)
	}
	delete(s.warm, key)""", new="""	if len(s.warm) > 1 {
		s.warm = maps.Clone(s.warm)
	}
	delete(s.warm, key)""", needs='a state with a single warm slot that is copied before the slot is marked cold', what='marking the only warm slot as cold in one of two copies marks it in the other',
  demo=ct("""	for _, n := range []uint64{2, 1} {
		s := st.NewState(st.NewCode([]byte{0}))
		for k := uint64(0); k < n; k++ { s.Storage.MarkWarm(NewU256(k)) }
		c := s.Clone()
		c.Storage.MarkCold(NewU256(0))
		need(s.Storage.IsWarm(NewU256(0)) && !c.Storage.IsWarm(NewU256(0)), "the original changed with its copy (%d warm slots)", n)
	}""")),
's03-logs-shared': dict(property='S03', edits=[(CT+'st/logs.go', """		clone.AddLog(entry.Data, entry.Topics...)
""", """		clone.Entries = append(clone.Entries, LogEntry{entry.Topics, slices.Clone(entry.Data)})
""")], needs='a topic of a log of a copied state changed in place', what='copies share the topics of their logs',
  demo=ct("""	s := st.NewState(st.NewCode([]byte{0}))
	s.Logs.AddLog([]byte{1, 2}, NewU256(5), NewU256(6))
	c := s.Clone()
	c.Logs.AddLog(nil)
	need(len(s.Logs.Entries) == 1, "entries")
	c.Logs.Entries[0].Data[0] = 9
	need(s.Logs.Entries[0].Data[0] == 1, "data of a log changed with that of its copy")
	c.Logs.Entries[0].Topics[1] = NewU256(7)
	need(s.Logs.Entries[0].Topics[1] == NewU256(6), "topic of a log changed with that of its copy")""")),
's03-pc-end': dict(property='S03', file=CT+'st/state.go', old='(s.Pc >= size && other.Pc >= size)', new='(s.Pc > size && other.Pc > size)', needs='a position exactly at the end of the code compared with one behind it', what='equal states are told apart if one of them is at the end of the code',
  demo=ct("""	s := st.NewState(st.NewCode([]byte{1, 2, 3}))
	for _, p := range [][2]uint16{{4, 5}, {9, 100}, {3, 4}, {7, 3}} {
		s.Pc = p[0]
		c := s.Clone()
		c.Pc = p[1]
		need(s.Eq(c), "positions %v", p)
	}
	s.Pc = 2
	c := s.Clone()
	c.Pc = 3
	need(!s.Eq(c), "inside and behind the code")""")),
's03-journal-refund': dict(property='S03', file=CT+'st/call_journal.go', old="""	return c == other || *c == *other
}

func (c *FutureCall) Diff""", new="""	a, b := *c, *other
	if !a.Success && !b.Success {
		a.GasRefund, b.GasRefund = 0, 0
	}
	return c == other || a == b
}

func (c *FutureCall) Diff""", needs='two states whose future failing calls differ in their refund', what='the refund of a scheduled failing call is not compared (the difference listing still reports it)',
  demo=ct("""	s := st.NewState(st.NewCode([]byte{0}))
	for _, ok := range []bool{true, false} {
		s.CallJournal.Future = []st.FutureCall{{Success: ok, GasRefund: 3}}
		c := s.Clone()
		need(s.Eq(c), "copy")
		c.CallJournal.Future[0].GasRefund = 4
		need(!s.Eq(c), "different refunds, success %v", ok)
	}""")),
})
GTC = """
type db struct {
	geth.StateDB
	refund uint64
	got []string
	state, committed map[gc.Hash]gc.Hash
	bal map[gc.Address]uint64
	dead map[gc.Address]bool
}
func (s *db) AddRefund(x uint64) { s.refund += x }
func (s *db) SubRefund(x uint64) { if x > s.refund { panic("negative refund") }; s.refund -= x }
func (s *db) GetRefund() uint64 { return s.refund }
func (s *db) GetState(_ gc.Address, k gc.Hash) gc.Hash { return s.state[k] }
func (s *db) GetCommittedState(_ gc.Address, k gc.Hash) gc.Hash { return s.committed[k] }
func (s *db) SetState(_ gc.Address, k, v gc.Hash) { s.state[k] = v }
func (s *db) GetBalance(a gc.Address) *uint256.Int { return uint256.NewInt(s.bal[a]) }
func (s *db) AddBalance(a gc.Address, v *uint256.Int, _ tracing.BalanceChangeReason) { s.bal[a] += v.Uint64() }
func (s *db) SubBalance(a gc.Address, v *uint256.Int, _ tracing.BalanceChangeReason) { s.bal[a] -= v.Uint64() }
func (s *db) SelfDestruct(a gc.Address) { s.dead[a] = true; s.bal[a] = 0 }
func (s *db) Selfdestruct6780(a gc.Address) { s.dead[a] = true }
func (s *db) HasSelfDestructed(a gc.Address) bool { return s.dead[a] }
func (s *db) Exist(a gc.Address) bool { return s.bal[a] > 0 }
func (s *db) AddLog(l *types.Log) { s.got = append(s.got, fmt.Sprint(l.Address, l.Topics, l.Data)) }
func newDb() *db { return &db{state: map[gc.Hash]gc.Hash{}, committed: map[gc.Hash]gc.Hash{}, bal: map[gc.Address]uint64{}, dead: map[gc.Address]bool{}} }
type ref gc.Address
func (r ref) Address() gc.Address { return gc.Address(r) }
type script func(tosca.Parameters) (tosca.Result, error)
func (s script) Run(p tosca.Parameters) (tosca.Result, error) { return s(p) }
func addr(x byte) (a gc.Address) { a[0], a[19] = x, x; return }
// machine: calls reach the next of the given contracts
func machine(s *db, time uint64, fs ...script) *geth.EVM {
	zero, cancun := big.NewInt(0), uint64(100)
	evm := geth.NewEVM(geth.BlockContext{BlockNumber: big.NewInt(7), Time: time, Random: &gc.Hash{}, Difficulty: zero}, geth.TxContext{}, s, &params.ChainConfig{ChainID: zero, IstanbulBlock: zero, BerlinBlock: zero, LondonBlock: zero, ShanghaiTime: new(uint64), CancunTime: &cancun}, geth.Config{})
	evm.Enter = func(k byte, c geth.ContractRef, a gc.Address, in []byte, g uint64, v, _ *uint256.Int) ([]byte, gc.Address, uint64, error) {
		f := fs[0]
		fs = fs[1:]
		n := geth.NewContract(c, ref(a), new(uint256.Int), g)
		snap := s.refund
		o, err := (&gethInterpreterAdapter{interpreter: f, evm: evm}).Run(n, in, k == geth.KStaticCall)
		if err != nil {
			s.refund = snap
			if err != geth.ErrExecutionReverted && err != geth.ErrDepth { n.Gas = 0 }
		}
		return o, a, n.Gas, err
	}
	return evm
}
func call(p tosca.Parameters, k tosca.CallKind, gas tosca.Gas) tosca.CallResult {
	r, err := p.Context.Call(k, tosca.CallParameters{Gas: gas, CodeAddress: tosca.Address(addr(9)), Recipient: tosca.Address(addr(9))})
	if err != nil { panic(err) }
	return r
}
func start(evm *geth.EVM, k byte) ([]byte, uint64, error) {
	o, _, g, err := evm.Enter(k, ref(addr(1)), addr(2), nil, 1000, new(uint256.Int), nil)
	return o, g, err
}
var _ = fmt.Sprint
var _ types.Log
func GethDemo() string {
"""
def gt(body):
    d = go('	if e := geth_adapter.GethDemo(); e != "" { need(false, "%s", e) }\n	var _ tosca.Gas', ['"github.com/Fantom-foundation/Tosca/go/geth_adapter"'])
    d['geth_demo.go'] = 'package geth_adapter\n\nimport (\n\t"fmt"\n\t"math/big"\n\n\t"github.com/Fantom-foundation/Tosca/go/tosca"\n\tgc "github.com/ethereum/go-ethereum/common"\n\t"github.com/ethereum/go-ethereum/core/tracing"\n\t"github.com/ethereum/go-ethereum/core/types"\n\tgeth "github.com/ethereum/go-ethereum/core/vm"\n\t"github.com/ethereum/go-ethereum/params"\n\t"github.com/holiman/uint256"\n)\n' + GTC + body + '\n	return ""\n}\n'
    return d
GA = 'go/geth_adapter/adapter.go'
SEEDS.update({
'a02-readonly-no-gas': dict(property='A02', file=GA, old='readOnly = readOnly || gas >= (1<<63)', new='readOnly = readOnly || gas > (1<<63)',
  needs='a delegate call with no gas in read-only mode', what='a nested execution without gas loses the read-only mode',
  demo=gt("""	for _, gas := range []tosca.Gas{5, 1, 0} {
		seen, static := false, false
		evm := machine(newDb(), 1, func(p tosca.Parameters) (tosca.Result, error) { call(p, tosca.DelegateCall, gas); return tosca.Result{Success: true, GasLeft: 1}, nil },
			func(p tosca.Parameters) (tosca.Result, error) { seen, static = true, p.Static; return tosca.Result{Success: true, GasLeft: p.Gas}, nil })
		start(evm, geth.KStaticCall)
		if !seen || !static { return fmt.Sprint("not read-only with gas ", gas) }
	}""")),
'a02-depth-burns': dict(property='A02', file=GA, edits=[(GA, """		geth.ErrInsufficientBalance,
		geth.ErrDepth,
		geth.ErrNonce""", """		geth.ErrInsufficientBalance,
		geth.ErrNonce"""), (GA, """	case
		geth.ErrOutOfGas,
""", """	case
		geth.ErrOutOfGas,
		geth.ErrDepth,
""")], needs='a call at the depth limit', what='calls beyond the depth limit consume the gas they were given',
  demo=gt("""	left := tosca.Gas(-1)
	evm := machine(newDb(), 1, func(p tosca.Parameters) (tosca.Result, error) { left = call(p, tosca.Call, 77).GasLeft; return tosca.Result{Success: true, GasLeft: 1}, nil }, nil)
	evm.SetDepth(1024)
	start(evm, geth.KCall)
	if left != 77 { return fmt.Sprint("gas left: ", left) }""")),
'a02-destruct-twice': dict(property='A02', file=GA, old="""		stateDb.SubBalance(a.contract.Address(), balance, tracing.BalanceDecreaseSelfdestruct)
""", new="""		if selfdestructed {
			stateDb.SubBalance(a.contract.Address(), balance, tracing.BalanceDecreaseSelfdestruct)
		}
""", needs='a contract that got funds after its self-destruct and destructs again, from Cancun on', what='the second self-destruct of a contract duplicates its balance',
  demo=gt("""	for _, time := range []uint64{99, 100} {
		s := newDb()
		s.bal[addr(2)] = 10
		evm := machine(s, time, func(p tosca.Parameters) (tosca.Result, error) {
			for i := 0; i < 2; i++ {
				p.Context.SelfDestruct(tosca.Address(addr(2)), tosca.Address(addr(5)))
				if i == 0 { s.bal[addr(2)] = 7 }
			}
			return tosca.Result{Success: true}, nil
		})
		start(evm, geth.KCall)
		if s.bal[addr(5)] != 17 || s.bal[addr(2)] != 0 { return fmt.Sprint("balances: ", s.bal) }
	}""")),
'a02-storage-restored': dict(property='A02', file=GA, old="""	a.evm.StateDB.SetState(gc.Address(addr), gc.Hash(key), gc.Hash(future))
	return""", new="""	if original != future || current == original {
		a.evm.StateDB.SetState(gc.Address(addr), gc.Hash(key), gc.Hash(future))
	}
	return""", needs='a slot that is written back to its original value', what='writing a slot back to its value at the start of the transaction has no effect',
  demo=gt("""	s := newDb()
	evm := machine(s, 1, func(p tosca.Parameters) (tosca.Result, error) {
		for _, v := range []byte{1, 2, 0, 3} { p.Context.SetStorage(tosca.Address(addr(2)), tosca.Key{1}, tosca.Word{v}); if s.state[gc.Hash{1}] != (gc.Hash{v}) { panic("not written") } }
		return tosca.Result{Success: true}, nil
	})
	start(evm, geth.KCall)""")),
'a02-refund-shift': dict(property='A02', file=GA, old='if cur := stateDB.GetRefund(); cur < shift {\n\t\t\tshift = cur\n\t\t}', new='if cur := stateDB.GetRefund(); cur < 2*shift {\n\t\t\tshift = min(cur, cur&shift)\n\t\t}',
  needs='a transaction whose refunds sum up to a negative number', what='refunds that became negative are left as a huge refund',
  demo=gt("""	for _, r := range []tosca.Gas{5, 0, -5} {
		s := newDb()
		evm := machine(s, 1, func(p tosca.Parameters) (tosca.Result, error) { return tosca.Result{Success: true, GasRefund: r}, nil })
		start(evm, geth.KCall)
		if want := uint64(max(r, 0)); s.refund != want { return fmt.Sprint("refund ", s.refund) }
	}""")),
'a02-revert-empty': dict(property='A02', file=GA, old='if (result.GasLeft > 0 || len(result.Output) > 0) && !result.Success {', new='if len(result.Output) > 0 && !result.Success {',
  needs='a revert without data', what='an execution that reverts without data loses its remaining gas',
  demo=gt("""	for _, out := range [][]byte{{1}, nil} {
		evm := machine(newDb(), 1, func(p tosca.Parameters) (tosca.Result, error) { return tosca.Result{GasLeft: 40, Output: out}, nil })
		_, g, err := start(evm, geth.KCall)
		if g != 40 || err != geth.ErrExecutionReverted { return fmt.Sprint("gas left ", g) }
	}""")),
})
SEEDS['l07-blockhash-256']['demo']['demo.go'] += '\ntype hashes struct{ *ctx }\nfunc (hashes) GetBlockHash(int64) tosca.Hash { return tosca.Hash{0x77} }\n'
SEEDS['l08-refund-revert']['demo']['demo.go'] += '\ntype clearing struct{ *ctx }\nfunc (clearing) SetStorage(tosca.Address, tosca.Key, tosca.Word) tosca.StorageStatus { return tosca.StorageDeleted }\n'
SEEDS = {k: v for k, v in SEEDS.items() if v['demo']}
