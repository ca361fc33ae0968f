package vm

import (
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/params"
	"github.com/holiman/uint256"
)

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type ErrStackUnderflow struct{ StackLen, Required int }
type ErrStackOverflow struct{ StackLen, Limit int }
type ErrInvalidOpCode struct{ Opcode byte }

func (*ErrStackUnderflow) Error() string { return "stack underflow" }
func (*ErrStackOverflow) Error() string  { return "stack limit reached" }
func (*ErrInvalidOpCode) Error() string  { return "invalid opcode" }

type ContractRef interface{ Address() common.Address }
type Contract struct {
	CallerAddress common.Address
	caller, self  ContractRef
	Code          []byte
	CodeHash      common.Hash
	CodeAddr      *common.Address
	Input         []byte
	Gas           uint64
	value         *uint256.Int
}

func NewContract(caller, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	return &Contract{CallerAddress: caller.Address(), caller: caller, self: object, Gas: gas, value: value}
}
func (c *Contract) Caller() common.Address  { return c.CallerAddress }
func (c *Contract) Address() common.Address { return c.self.Address() }
func (c *Contract) Value() *uint256.Int     { return c.value }

type StateDB interface {
	CreateAccount(common.Address)
	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int
	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)
	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int
	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64
	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetTransientState(common.Address, common.Hash) common.Hash
	SetTransientState(common.Address, common.Hash, common.Hash)
	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)
	Exist(common.Address) bool
	Empty(common.Address) bool
	AddressInAccessList(common.Address) bool
	SlotInAccessList(common.Address, common.Hash) (bool, bool)
	AddAddressToAccessList(common.Address)
	AddSlotToAccessList(common.Address, common.Hash)
	RevertToSnapshot(int)
	Snapshot() int
	AddLog(*types.Log)
}

type BlockContext struct {
	GetHash     func(uint64) common.Hash
	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}
type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

type Interpreter interface {
	Run(contract *Contract, input []byte, readOnly bool) ([]byte, error)
}
type InterpreterFactory func(*EVM) Interpreter

type Config struct{}

// EVM: what it does when called is decided by Enter.
type EVM struct {
	Context BlockContext
	TxContext
	StateDB StateDB
	depth   int
	config  *params.ChainConfig
	Enter   func(kind byte, caller ContractRef, addr common.Address, input []byte, gas uint64, value, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

func NewEVM(b BlockContext, t TxContext, s StateDB, c *params.ChainConfig, _ Config) *EVM {
	return &EVM{Context: b, TxContext: t, StateDB: s, config: c}
}
func (evm *EVM) GetDepth() int                    { return evm.depth }
func (evm *EVM) SetDepth(d int)                   { evm.depth = d }
func (evm *EVM) ChainConfig() *params.ChainConfig { return evm.config }

const (
	KCall byte = iota
	KStaticCall
	KDelegateCall
	KCallCode
	KCreate
	KCreate2
)

func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error) {
	o, _, g, err := evm.Enter(KCall, caller, addr, input, gas, value, nil)
	return o, g, err
}
func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error) {
	o, _, g, err := evm.Enter(KStaticCall, caller, addr, input, gas, nil, nil)
	return o, g, err
}
func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error) {
	o, _, g, err := evm.Enter(KDelegateCall, caller, addr, input, gas, nil, nil)
	return o, g, err
}
func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error) {
	o, _, g, err := evm.Enter(KCallCode, caller, addr, input, gas, value, nil)
	return o, g, err
}
func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error) {
	return evm.Enter(KCreate, caller, common.Address{}, code, gas, value, nil)
}
func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, value, salt *uint256.Int) ([]byte, common.Address, uint64, error) {
	return evm.Enter(KCreate2, caller, common.Address{}, code, gas, value, salt)
}
