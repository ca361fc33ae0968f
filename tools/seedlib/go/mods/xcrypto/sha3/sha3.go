// Package sha3: a stand-in hash function.
package sha3

import (
	"crypto/sha256"
	"hash"
)

func NewLegacyKeccak256() hash.Hash { return sha256.New() }
