// Package vm: precompiled contracts with uninterpreted prices and results.
package vm

import (
	"errors"

	"github.com/ethereum/go-ethereum/common"
	"verif/sym"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}
type PrecompiledContracts map[common.Address]PrecompiledContract

// Contract number id: its price is any 64-bit number, it fails or returns 32 bytes.
type contract struct{ id byte }

func (c *contract) RequiredGas(input []byte) (r uint64) {
	var b [8]byte
	sym.UF("precompile_gas", append([]byte{c.id}, input...), b[:])
	for i := range b {
		r = r<<8 | uint64(b[i])
	}
	return
}

var errInvalid = errors.New("invalid input")

func (c *contract) Run(input []byte) ([]byte, error) {
	sym.Event("precompile", append([]byte{c.id}, input...))
	var f [1]byte
	sym.UF("precompile_fails", append([]byte{c.id}, input...), f[:])
	if f[0]&1 == 1 {
		return nil, errInvalid
	}
	o := make([]byte, 32)
	sym.UF("precompile_output", append([]byte{c.id}, input...), o)
	return o, nil
}

func set(n byte) map[common.Address]PrecompiledContract {
	m := map[common.Address]PrecompiledContract{}
	for i := byte(1); i <= n; i++ {
		m[common.BytesToAddress([]byte{i})] = &contract{i}
	}
	return m
}

var (
	PrecompiledContractsHomestead = set(4)
	PrecompiledContractsByzantium = set(8)
	PrecompiledContractsIstanbul  = set(9)
	PrecompiledContractsBerlin    = set(9)
	PrecompiledContractsCancun    = set(10)
)
