package lfvm

import (
	"crypto/sha256"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

func Keccak256(data []byte) tosca.Hash              { return sha256.Sum256(data) }
func Keccak256For32byte(data [32]byte) tosca.Hash   { return sha256.Sum256(data[:]) }

var emptyKeccak256Hash = Keccak256(nil)
