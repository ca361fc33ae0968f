// Package lru is a stand-in for golang-lru/v2 with the documented behaviour of
// the used methods (least recently used entry evicted; Get refreshes).
package lru

import "errors"

type entry[K comparable, V any] struct {
	k K
	v V
}
type Cache[K comparable, V any] struct {
	size  int
	order []entry[K, V] // most recent last
}

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: size}, nil
}
func (c *Cache[K, V]) find(k K) int {
	for i := range c.order {
		if c.order[i].k == k {
			return i
		}
	}
	return -1
}
func (c *Cache[K, V]) touch(i int) {
	e := c.order[i]
	copy(c.order[i:], c.order[i+1:])
	c.order[len(c.order)-1] = e
}
func (c *Cache[K, V]) Add(k K, v V) bool {
	if i := c.find(k); i >= 0 {
		c.order[i].v = v
		c.touch(i)
		return false
	}
	evict := len(c.order) == c.size
	if evict {
		copy(c.order, c.order[1:])
		c.order = c.order[:len(c.order)-1]
	}
	c.order = append(c.order, entry[K, V]{k, v})
	return evict
}
func (c *Cache[K, V]) Get(k K) (v V, ok bool) {
	if i := c.find(k); i >= 0 {
		v = c.order[i].v
		c.touch(i)
		return v, true
	}
	return
}
func (c *Cache[K, V]) Peek(k K) (v V, ok bool) {
	if i := c.find(k); i >= 0 {
		return c.order[i].v, true
	}
	return
}
func (c *Cache[K, V]) Contains(k K) bool { return c.find(k) >= 0 }
func (c *Cache[K, V]) Remove(k K) bool {
	i := c.find(k)
	if i < 0 {
		return false
	}
	c.touch(i)
	c.order = c.order[:len(c.order)-1]
	return true
}
func (c *Cache[K, V]) Len() int { return len(c.order) }
func (c *Cache[K, V]) Purge()   { c.order = nil }
