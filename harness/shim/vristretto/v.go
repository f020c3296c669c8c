// Package vristretto is a cache for instrumented code that has every entry it
// was given at once. (The real one may also drop entries; see Drop.)
package vristretto

import (
	"sync"
	"time"

	"github.com/dgraph-io/ristretto"
)

type (
	Config  = ristretto.Config
	Item    = ristretto.Item
	Metrics = ristretto.Metrics
)

// Drop makes every cache forget what it is given.
var Drop bool

type Cache struct {
	mu     sync.Mutex
	m      map[any]any
	closed bool
}

func NewCache(c *Config) (*Cache, error) { return &Cache{m: map[any]any{}}, nil }

func key(k any) any {
	if b, ok := k.([]byte); ok {
		return string(b)
	}
	return k
}

func (c *Cache) Get(k any) (any, bool) {
	if c == nil {
		return nil, false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return nil, false
	}
	v, ok := c.m[key(k)]
	return v, ok
}

func (c *Cache) Set(k, v any, cost int64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed || Drop {
		return false
	}
	c.m[key(k)] = v
	return true
}

func (c *Cache) SetWithTTL(k, v any, cost int64, ttl time.Duration) bool { return c.Set(k, v, cost) }

func (c *Cache) Del(k any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, key(k))
}

func (c *Cache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	clear(c.m)
}

func (c *Cache) Wait() {}

func (c *Cache) Close() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.m = map[any]any{}
}
