// Package common: the address and hash types of go-ethereum.
package common

import (
	"bytes"
	"encoding/hex"
	"math/big"
)

const (
	HashLength    = 32
	AddressLength = 20
)

type Hash [HashLength]byte
type Address [AddressLength]byte

func BytesToHash(b []byte) (h Hash) { h.SetBytes(b); return }
func BigToHash(b *big.Int) Hash     { return BytesToHash(b.Bytes()) }
func HexToHash(s string) Hash       { return BytesToHash(FromHex(s)) }
func (h Hash) Cmp(o Hash) int       { return bytes.Compare(h[:], o[:]) }
func (h Hash) Bytes() []byte        { return h[:] }
func (h Hash) Big() *big.Int        { return new(big.Int).SetBytes(h[:]) }
func (h Hash) Hex() string          { return "0x" + hex.EncodeToString(h[:]) }
func (h Hash) String() string       { return h.Hex() }
func (h *Hash) SetBytes(b []byte) {
	if len(b) > len(h) {
		b = b[len(b)-HashLength:]
	}
	copy(h[HashLength-len(b):], b)
}

func BytesToAddress(b []byte) (a Address) { a.SetBytes(b); return }
func BigToAddress(b *big.Int) Address     { return BytesToAddress(b.Bytes()) }
func HexToAddress(s string) Address       { return BytesToAddress(FromHex(s)) }
func (a Address) Cmp(o Address) int       { return bytes.Compare(a[:], o[:]) }
func (a Address) Bytes() []byte           { return a[:] }
func (a Address) Big() *big.Int           { return new(big.Int).SetBytes(a[:]) }
func (a Address) Hex() string             { return "0x" + hex.EncodeToString(a[:]) }
func (a Address) String() string          { return a.Hex() }
func (a *Address) SetBytes(b []byte) {
	if len(b) > len(a) {
		b = b[len(b)-AddressLength:]
	}
	copy(a[AddressLength-len(b):], b)
}

func FromHex(s string) []byte {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, _ := hex.DecodeString(s)
	return b
}
func Hex2Bytes(s string) []byte { b, _ := hex.DecodeString(s); return b }
func Bytes2Hex(b []byte) string { return hex.EncodeToString(b) }
func CopyBytes(b []byte) []byte { return append([]byte(nil), b...) }
func IsHexAddress(s string) bool {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	}
	_, err := hex.DecodeString(s)
	return len(s) == 40 && err == nil
}
func LeftPadBytes(s []byte, l int) []byte {
	if l <= len(s) {
		return s
	}
	p := make([]byte, l)
	copy(p[l-len(s):], s)
	return p
}
func RightPadBytes(s []byte, l int) []byte {
	if l <= len(s) {
		return s
	}
	p := make([]byte, l)
	copy(p, s)
	return p
}

var (
	Big0 = big.NewInt(0)
	Big1 = big.NewInt(1)
)
