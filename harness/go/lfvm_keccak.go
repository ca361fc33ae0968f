package lfvm

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/sym"
)

// The hash function itself is uninterpreted.
func Keccak256(data []byte) (res tosca.Hash) {
	sym.Keccak(data, res[:])
	return
}
func Keccak256For32byte(data [32]byte) (res tosca.Hash) {
	sym.Keccak(data[:], res[:])
	return
}

var emptyKeccak256Hash = Keccak256(nil)
