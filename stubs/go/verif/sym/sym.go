// Package sym is the harness interface.  The symbolic build maps these
// functions to the engine; natively they read a replay file.
package sym

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"strings"
)

var params = map[string]uint64{}
var vars = map[string][]byte{}
var ufs = map[string]map[string][]byte{}
var ufdef = map[string][]byte{}
var fresh = map[string]int{}
var out = bufio.NewWriter(os.Stdout)

func fit(b []byte, n int) []byte {
	r := make([]byte, n)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	copy(r[n-len(b):], b)
	return r
}
func unhex(s string) []byte {
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, _ := hex.DecodeString(s)
	return b
}

// Main runs one entry: prog ENTRY FILE
func Main(entries map[string]func()) {
	defer out.Flush()
	f, err := os.Open(os.Args[2])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		t := strings.Split(sc.Text(), " ")
		switch t[0] {
		case "param":
			v, _ := strconv.ParseUint(t[2], 10, 64)
			params[t[1]] = v
		case "var":
			vars[t[1]] = unhex(t[2])
		case "uf":
			m := ufs[t[1]]
			if m == nil {
				m = map[string][]byte{}
				ufs[t[1]] = m
			}
			m[string(unhex(t[2]))] = unhex(t[3])
		case "ufdef":
			ufdef[t[1]] = unhex(t[2])
		}
	}
	e, ok := entries[os.Args[1]]
	if !ok {
		panic("no entry " + os.Args[1])
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				out.Flush()
				if r == errAssume {
					os.Exit(0)
				}
				panic(r)
			}
		}()
		e()
	}()
	fmt.Fprintln(out, "end")
}

var errAssume = new(int)

func Param(name string) uint64 { return params[name] }
func Bytes(dst []byte, name string) { copy(dst, fit(vars[name], len(dst))) }
func BytesI(dst []byte, name string, i uint64) { Bytes(dst, fmt.Sprintf("%s%d", name, i)) }
func u64(b []byte) (r uint64) {
	for _, x := range fit(b, 8) {
		r = r<<8 | uint64(x)
	}
	return
}
func U64(name string) uint64            { return u64(vars[name]) }
func U64I(name string, i uint64) uint64 { return U64(fmt.Sprintf("%s%d", name, i)) }
func U8(name string) uint8              { return uint8(U64(name)) }
func U8I(name string, i uint64) uint8   { return uint8(U64I(name, i)) }
func Bool(name string) bool             { v := U8(name); Assume(v < 2); return v != 0 }
func Assume(c bool) {
	if !c {
		fmt.Fprintln(out, "assume-failed")
		panic(errAssume)
	}
}
func uf(name string, in []byte, m int) []byte {
	if r, ok := ufs[name][string(in)]; ok {
		return fit(r, m)
	}
	return fit(ufdef[name], m)
}
func UF(name string, in []byte, o []byte) { copy(o, uf(name, in, len(o))) }
func UFBytes(name string, in []byte, max uint64) []byte {
	r := make([]byte, max)
	for i := range r {
		k := append([]byte{}, in...)
		for s := 56; s >= 0; s -= 8 {
			k = append(k, byte(uint64(i)>>s))
		}
		r[i] = uf(name, k, 1)[0]
	}
	return r
}
func Event(name string, data []byte)        { fmt.Fprintf(out, "event %s %x -\n", name, data) }
func EventV(name string, data, v []byte)    { fmt.Fprintf(out, "event %s %x x%x\n", name, data, v) }
func Fresh(name string, o []byte) {
	k := fresh[name]
	fresh[name] = k + 1
	copy(o, fit(vars[fmt.Sprintf("%s#%d", name, k)], len(o)))
}
func FreshU64(name string) uint64 { var b [8]byte; Fresh(name, b[:]); return u64(b[:]) }
func FreshU8(name string) uint8   { var b [1]byte; Fresh(name, b[:]); return b[0] }
// Shared marks what is allocated as data shared between threads (1), switches the lock discipline check on (2) or off (0);
// Op starts the operation with the given number.
func Shared(n uint64) {}
func Op(n uint64)     {}
func FreshReset()                           { clear(fresh) }
func Out(name string, p []byte)             { fmt.Fprintf(out, "out %s x%x\n", name, p) }
func OutU64(name string, v uint64)          { fmt.Fprintf(out, "outi %s %d\n", name, v) }
func Check(c bool, label string) {
	v := 0
	if c {
		v = 1
	}
	fmt.Fprintf(out, "check %s %d\n", label, v)
}
func CheckU64(a, b uint64, label string) { Check(a == b, label) }
// Sel copies src to dst if c holds (one value for the solver, no branch)
func Sel(c bool, dst, src []byte) {
	if c {
		copy(dst, src)
	}
}
func Reach(label string)                 {}

// Keccak is uninterpreted; a replay uses the values of the model.
func Keccak(in []byte, o []byte) {
	l := len(in)
	if l > 4096 { // long input: the hash is taken as a function of its length and its ends
		in = append(append([]byte{}, in[:128]...), in[l-128:]...)
	}
	n := max(len(in), 256)
	k := make([]byte, 8+n)
	for i := 0; i < 8; i++ {
		k[i] = byte(uint64(l) >> (56 - 8*i))
	}
	copy(k[8:], in)
	UF("keccak", k, o)
}
