// Package vm: stand-in precompiled contracts; each costs 100 gas plus one per input byte,
// rejects input starting with 0xff and returns its number.
package vm

import (
	"errors"

	"github.com/ethereum/go-ethereum/common"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}
type PrecompiledContracts map[common.Address]PrecompiledContract
type contract struct{ id byte }

func (c *contract) RequiredGas(input []byte) uint64 { return 100 + uint64(len(input)) }
func (c *contract) Run(input []byte) ([]byte, error) {
	if len(input) > 0 && input[0] == 0xff {
		return nil, errors.New("invalid input")
	}
	return []byte{c.id}, nil
}
func set(n byte) map[common.Address]PrecompiledContract {
	m := map[common.Address]PrecompiledContract{}
	for i := byte(1); i <= n; i++ {
		m[common.BytesToAddress([]byte{i})] = &contract{i}
	}
	return m
}

var (
	PrecompiledContractsHomestead = set(4)
	PrecompiledContractsByzantium = set(8)
	PrecompiledContractsIstanbul  = set(9)
	PrecompiledContractsBerlin    = set(9)
	PrecompiledContractsCancun    = set(10)
)
