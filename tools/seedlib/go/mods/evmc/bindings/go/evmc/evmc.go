// Package evmc is a stand-in for the Go bindings of EVMC 11 (with the stepping
// extension). The machine behind a VM is a function set by the harness.
package evmc

import "errors"

type Address [20]byte
type Hash [32]byte

type Error int32

func (e Error) Error() string { return "EVMC error" }
func (e Error) IsInternalError() bool { return e < 0 }

const (
	Failure = Error(1)
	Revert  = Error(2)
)

type Revision int32

const (
	Frontier Revision = iota
	Homestead
	TangerineWhistle
	SpuriousDragon
	Byzantium
	Constantinople
	Petersburg
	Istanbul
	Berlin
	London
	Paris
	Shanghai
	Cancun
	Prague
	MaxRevision          = Prague
	LatestStableRevision = Shanghai
)

type CallKind int

const (
	Call CallKind = iota
	DelegateCall
	CallCode
	Create
	Create2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = iota
	WarmAccess
)

type StorageStatus int

const (
	StorageAssigned StorageStatus = iota
	StorageAdded
	StorageDeleted
	StorageModified
	StorageDeletedAdded
	StorageModifiedDeleted
	StorageDeletedRestored
	StorageAddedDeleted
	StorageModifiedRestored
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int, static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64, createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

// Execution lists the arguments of an execution.
type Execution struct {
	Ctx               HostContext
	Rev               Revision
	Kind              CallKind
	Static            bool
	Depth             int
	Gas               int64
	Recipient, Sender Address
	Input             []byte
	Value             Hash
	CodeHash          *Hash
	Code              []byte
}

type VM struct {
	Run func(Execution) (Result, error)
}

func Load(string) (*VM, error)                { return nil, errors.New("not available") }
func (vm *VM) Destroy()                       {}
func (vm *VM) SetOption(string, string) error { return nil }
func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64, recipient Address, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (Result, error) {
	return vm.Run(Execution{ctx, rev, kind, static, depth, gas, recipient, sender, input, value, codeHash, code})
}

type StepStatus int

const (
	Running StepStatus = iota
	Stopped
	Returned
	Reverted
	Failed
)

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

type VMSteppable struct {
	Run func(StepParameters) (StepResult, error)
}

func LoadSteppable(string) (*VMSteppable, error)                      { return nil, errors.New("not available") }
func (vm *VMSteppable) Destroy()                                      {}
func (vm *VMSteppable) StepN(p StepParameters) (StepResult, error)    { return vm.Run(p) }
