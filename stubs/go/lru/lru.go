// Package lru stands in for github.com/hashicorp/golang-lru/v2: a map that may lose entries.
package lru

import "errors"

type Cache[K comparable, V any] struct{ m map[K]V }

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{m: map[K]V{}}, nil
}
func (c *Cache[K, V]) Get(k K) (V, bool) { v, ok := c.m[k]; return v, ok }
func (c *Cache[K, V]) Add(k K, v V) bool { c.m[k] = v; return false }
func (c *Cache[K, V]) Len() int { return len(c.m) }
func (c *Cache[K, V]) Contains(k K) bool { _, ok := c.m[k]; return ok }
func (c *Cache[K, V]) Purge() { c.m = map[K]V{} }
