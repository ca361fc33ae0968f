// Package abi: the method selectors of a JSON interface description.
package abi

import (
	"errors"
	"io"
)

type Method struct {
	Name string
	Sig  string
	ID   []byte
}
type ABI struct{ Methods map[string]Method }

type parser struct {
	s  []byte
	i  int
	ok bool
}

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}
func (p *parser) eat(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}
func (p *parser) str() string {
	if !p.eat('"') {
		p.ok = false
		return ""
	}
	a := p.i
	for p.i < len(p.s) && p.s[p.i] != '"' {
		p.i++
	}
	r := string(p.s[a:p.i])
	p.i++
	return r
}

type object struct {
	name, kind string
	inputs     []object
}

func (p *parser) skip() {
	p.ws()
	if p.i >= len(p.s) {
		p.ok = false
		return
	}
	switch c := p.s[p.i]; {
	case c == '"':
		p.str()
	case c == '[':
		p.list()
	case c == '{':
		p.obj()
	default:
		for p.i < len(p.s) && p.s[p.i] >= 'a' && p.s[p.i] <= 'z' || p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
	}
}
func (p *parser) obj() (o object) {
	if !p.eat('{') {
		p.ok = false
		return
	}
	if p.eat('}') {
		return
	}
	for p.ok {
		k := p.str()
		if !p.eat(':') {
			p.ok = false
			return
		}
		switch k {
		case "name":
			o.name = p.str()
		case "type":
			o.kind = p.str()
		case "inputs":
			o.inputs = p.list()
		default:
			p.skip()
		}
		if !p.eat(',') {
			p.ok = p.ok && p.eat('}')
			return
		}
	}
	return
}
func (p *parser) list() (l []object) {
	if !p.eat('[') {
		p.ok = false
		return
	}
	if p.eat(']') {
		return
	}
	for p.ok {
		p.ws()
		l = append(l, p.obj())
		if !p.eat(',') {
			p.ok = p.ok && p.eat(']')
			return
		}
	}
	return
}

func JSON(r io.Reader) (ABI, error) {
	var s []byte
	buf := make([]byte, 1<<14)
	for {
		n, err := r.Read(buf)
		s = append(s, buf[:n]...)
		if err != nil || n == 0 {
			break
		}
	}
	p := &parser{s: s, ok: true}
	a := ABI{Methods: map[string]Method{}}
	for _, o := range p.list() {
		if o.kind != "function" {
			continue
		}
		sig := o.name + "("
		for i, x := range o.inputs {
			if i > 0 {
				sig += ","
			}
			sig += x.kind
		}
		sig += ")"
		h := keccak([]byte(sig))
		a.Methods[o.name] = Method{Name: o.name, Sig: sig, ID: h[:4]}
	}
	if !p.ok {
		return ABI{}, errors.New("invalid interface description")
	}
	return a, nil
}

// keccak256 of short texts
func keccak(in []byte) (o [32]byte) {
	var st [25]uint64
	for len(in) >= 136 {
		absorb(&st, in[:136])
		in = in[136:]
	}
	var last [136]byte
	copy(last[:], in)
	last[len(in)] ^= 1
	last[135] ^= 0x80
	absorb(&st, last[:])
	for i := range o {
		o[i] = byte(st[i/8] >> (8 * (i % 8)))
	}
	return
}
func absorb(st *[25]uint64, b []byte) {
	for i := 0; i < 136; i++ {
		st[i/8] ^= uint64(b[i]) << (8 * (i % 8))
	}
	keccakf(st)
}

var rotc = [24]uint{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var piln = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func rol(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }
func keccakf(st *[25]uint64) {
	r := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for i := range c {
			c[i] = st[i] ^ st[i+5] ^ st[i+10] ^ st[i+15] ^ st[i+20]
		}
		for i := range c {
			t := c[(i+4)%5] ^ rol(c[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				st[i+j] ^= t
			}
		}
		t := st[1]
		for i := range rotc {
			j := piln[i]
			t, st[j] = st[j], rol(t, rotc[i])
		}
		for j := 0; j < 25; j += 5 {
			copy(c[:], st[j:j+5])
			for i := range c {
				st[j+i] = c[i] ^ ^c[(i+1)%5]&c[(i+2)%5]
			}
		}
		// round constant from the linear feedback shift register
		for j := 0; j < 7; j++ {
			if r&1 == 1 {
				st[0] ^= 1 << (1<<j - 1)
			}
			if r&0x80 != 0 {
				r = r<<1 ^ 0x71
			} else {
				r <<= 1
			}
		}
	}
}
