package lfvm

import (
	"sync"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/sym"
)

// idealLru remembers which of the last keys are present, oldest first.
type idealLru struct {
	keys []uint16
	cap  int
}

func (l *idealLru) use(k uint16) bool {
	for i, x := range l.keys {
		if x == k {
			copy(l.keys[i:], l.keys[i+1:])
			l.keys[len(l.keys)-1] = k
			return true
		}
	}
	if len(l.keys) == l.cap {
		l.keys = l.keys[1:]
	}
	l.keys = append(append([]uint16{}, l.keys...), k)
	return false
}

func hashOf(k uint16) (h tosca.Hash) {
	sym.UF("h", []byte{byte(k >> 8), byte(k)}, h[:])
	return
}

// H_hashcache: look-ups of arbitrary keys, the last but one optionally interrupted by complete look-ups of another
// thread while the hash is computed.
func H_hashcache() {
	capacity, n, other := int(sym.Param("cap")), int(sym.Param("ops")), int(sym.Param("other"))
	made := 0
	var inside func()
	sym.Shared(1)
	c := newHashCache(capacity, func(k uint16) tosca.Hash {
		made++
		if inside != nil {
			f := inside
			inside = nil
			f()
		}
		return hashOf(k)
	})
	sym.Shared(2)
	if capacity < 2 {
		capacity = 2
	}
	m := idealLru{cap: capacity}
	m.use(0)
	made = 0
	for i := 0; i < n; i++ {
		sym.Op(uint64(i + 1))
		k := uint16(sym.U64I("key", uint64(i)))
		raced := false
		if i+2 == n && other > 0 {
			inside = func() {
				raced = true
				for j := 0; j < other; j++ {
					k2 := uint16(sym.U64I("key", uint64(50+j)))
					sym.Op(uint64(100 + j))
					before := made
					h := c.getHash(k2)
					in := m.use(k2)
					sym.Check(h == hashOf(k2), "another thread's look-up returns the hash of its key")
					sym.Check(in == (made == before), "another thread's look-up hashes exactly when the key is not cached")
				}
				sym.Op(uint64(i + 1))
			}
		}
		before := made
		h := c.getHash(k)
		inside = nil
		sym.Check(h == hashOf(k), "the hash returned is the hash of the key")
		if raced {
			present := false
			for _, x := range m.keys {
				present = present || x == k
			}
			if !present {
				m.use(k)
			}
			continue // its position in the order is open when both threads insert the key
		}
		in := m.use(k)
		sym.Check(in == (made == before), "a key is hashed exactly when it is not among the most recently used ones")
	}
	sym.Op(99)
	sym.Shared(0)
	sym.Check(len(c.index) <= capacity, "the capacity is respected")
}

// H_sha3cache: the cache of EVM hashes is transparent for data of every length.
func H_sha3cache() {
	c := newSha3HashCache(2, 2)
	n := int(sym.Param("ops"))
	lens := [3]uint64{sym.Param("len0"), sym.Param("len1"), sym.Param("len2")}
	for i := 0; i < n; i++ {
		d := make([]byte, lens[i])
		sym.BytesI(d, "data", uint64(i))
		h := c.hash(d)
		sym.Check(h == Keccak256(d), "hash of the data")
	}
}

// H_hashthreads (native only, under the race detector): two threads use one cache.
func H_hashthreads() {
	c := newHashCache(2, hashOf)
	var wg sync.WaitGroup
	for t := 0; t < 2; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				c.getHash(uint16((i*7 + t) % 4))
				c.getHash(uint16(i % 2))
			}
		}(t)
	}
	wg.Wait()
}
