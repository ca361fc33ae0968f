// Package crypto: stand-in hash and contract addresses.
package crypto

import (
	"crypto/sha256"
	"encoding/binary"

	"github.com/ethereum/go-ethereum/common"
)

func Keccak256(data ...[]byte) []byte {
	h := sha256.New()
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}
func Keccak256Hash(data ...[]byte) (h common.Hash) { copy(h[:], Keccak256(data...)); return }
func CreateAddress(b common.Address, nonce uint64) common.Address {
	return common.BytesToAddress(Keccak256([]byte("create"), b[:], binary.BigEndian.AppendUint64(nil, nonce))[12:])
}
func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) common.Address {
	return common.BytesToAddress(Keccak256([]byte{0xff}, b[:], salt[:], inithash)[12:])
}
