// Package crypto: hashing and contract addresses as uninterpreted functions.
package crypto

import (
	"github.com/ethereum/go-ethereum/common"
	"verif/sym"
)

func Keccak256(data ...[]byte) []byte {
	var in []byte
	for _, d := range data {
		in = append(in, d...)
	}
	o := make([]byte, 32)
	if len(in) == 0 { // known, so that initializers may use it
		copy(o, "\xc5\xd2\x46\x01\x86\xf7\x23\x3c\x92\x7e\x7d\xb2\xdc\xc7\x03\xc0\xe5\x00\xb6\x53\xca\x82\x27\x3b\x7b\xfa\xd8\x04\x5d\x85\xa4\x70")
		return o
	}
	sym.Keccak(in, o)
	return o
}
func Keccak256Hash(data ...[]byte) (h common.Hash) { copy(h[:], Keccak256(data...)); return }

func CreateAddress(b common.Address, nonce uint64) (a common.Address) {
	in := make([]byte, 28)
	copy(in, b[:])
	for i := 0; i < 8; i++ {
		in[20+i] = byte(nonce >> (56 - 8*i))
	}
	sym.UF("createaddr", in, a[:])
	return
}
func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) (a common.Address) {
	in := make([]byte, 84)
	copy(in, b[:])
	copy(in[20:], salt[:])
	copy(in[52:], inithash)
	sym.UF("createaddr2", in, a[:])
	return
}
