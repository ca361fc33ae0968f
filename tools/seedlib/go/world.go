package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/crypto"
)

type account struct {
	balance tosca.Value
	nonce   uint64
	code    []byte
	storage map[tosca.Key]tosca.Word
}

// world is a world state kept in maps; snapshots are copies.
type world struct {
	accounts  map[tosca.Address]account
	snapshots []map[tosca.Address]account
	warm      map[string]bool
	logs      []tosca.Log
	writes    int
}

func newWorld() *world { return &world{accounts: map[tosca.Address]account{}, warm: map[string]bool{}} }
func (w *world) clone() map[tosca.Address]account {
	r := map[tosca.Address]account{}
	for a, v := range w.accounts {
		s := map[tosca.Key]tosca.Word{}
		for k, x := range v.storage {
			s[k] = x
		}
		v.storage = s
		r[a] = v
	}
	return r
}
func (w *world) String() string {
	s := ""
	for i := 0; i < 256; i++ {
		for a, v := range w.accounts {
			if int(a[19]) == i {
				s += fmt.Sprintf("%x: balance %v nonce %d code %x storage %v\n", a, v.balance, v.nonce, v.code, v.storage)
			}
		}
	}
	return s
}
func (w *world) set(a tosca.Address, f func(*account)) {
	x := w.accounts[a]
	if x.storage == nil {
		x.storage = map[tosca.Key]tosca.Word{}
	}
	f(&x)
	w.accounts[a] = x
	w.writes++
}
func (w *world) AccountExists(a tosca.Address) bool             { _, ok := w.accounts[a]; return ok }
func (w *world) GetBalance(a tosca.Address) tosca.Value         { return w.accounts[a].balance }
func (w *world) SetBalance(a tosca.Address, v tosca.Value)      { w.set(a, func(x *account) { x.balance = v }) }
func (w *world) GetNonce(a tosca.Address) uint64                { return w.accounts[a].nonce }
func (w *world) SetNonce(a tosca.Address, n uint64)             { w.set(a, func(x *account) { x.nonce = n }) }
func (w *world) GetCode(a tosca.Address) tosca.Code             { return w.accounts[a].code }
func (w *world) GetCodeSize(a tosca.Address) int                { return len(w.accounts[a].code) }
func (w *world) SetCode(a tosca.Address, c tosca.Code)          { w.set(a, func(x *account) { x.code = c }) }
func (w *world) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.accounts[a].storage[k] }
func (w *world) GetCodeHash(a tosca.Address) (h tosca.Hash) {
	if w.AccountExists(a) {
		copy(h[:], crypto.Keccak256(w.accounts[a].code))
	}
	return
}
func (w *world) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	w.set(a, func(x *account) { x.storage[k] = v })
	return tosca.StorageAssigned
}
func (w *world) SelfDestruct(a, b tosca.Address) bool { w.writes++; return true }
func (w *world) CreateSnapshot() tosca.Snapshot {
	w.snapshots = append(w.snapshots, w.clone())
	return tosca.Snapshot(len(w.snapshots) - 1)
}
func (w *world) RestoreSnapshot(s tosca.Snapshot) {
	w.accounts = w.snapshots[s]
	w.snapshots = w.snapshots[:s]
}
func (w *world) GetTransientStorage(tosca.Address, tosca.Key) (v tosca.Word) { return }
func (w *world) SetTransientStorage(tosca.Address, tosca.Key, tosca.Word)    {}
func (w *world) AccessAccount(a tosca.Address) tosca.AccessStatus {
	k := string(a[:])
	was := w.warm[k]
	w.warm[k] = true
	return tosca.AccessStatus(was)
}
func (w *world) AccessStorage(a tosca.Address, key tosca.Key) tosca.AccessStatus {
	k := string(a[:]) + string(key[:])
	was := w.warm[k]
	w.warm[k] = true
	return tosca.AccessStatus(was)
}
func (w *world) EmitLog(l tosca.Log)       { w.logs = append(w.logs, l) }
func (w *world) GetLogs() []tosca.Log      { return w.logs }
func (w *world) GetBlockHash(n int64) (h tosca.Hash) { return }
func (w *world) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.GetStorage(a, k) }
func (w *world) IsAddressInAccessList(a tosca.Address) bool                 { return w.warm[string(a[:])] }
func (w *world) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.warm[string(a[:])], w.warm[string(a[:])+string(k[:])]
}
func (w *world) HasSelfDestructed(tosca.Address) bool { return false }

// script is an interpreter whose behaviour is a Go function.
type script func(tosca.Parameters) (tosca.Result, error)

func (s script) Run(p tosca.Parameters) (tosca.Result, error) { return s(p) }

func addr(i byte) (a tosca.Address) { a[0] = 0xaa; a[19] = i; return }
func val(i int64) tosca.Value       { return tosca.ValueFromUint256(tosca.NewValue(uint64(i)).ToUint256()) }
func pow2(n uint) (v tosca.Value)   { new(big.Int).Lsh(big.NewInt(1), n).FillBytes(v[:]); return }

var failed = false

func need(ok bool, format string, args ...any) {
	if !ok {
		failed = true
		fmt.Printf("failed: "+format+"\n", args...)
	}
}
func done() {
	if failed {
		os.Exit(1)
	}
	fmt.Println("ok")
}

var _ = bytes.Equal
