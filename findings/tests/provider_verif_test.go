package provider

import (
	"context"
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	"github.com/kacheio/kache/pkg/utils/clock"
)

var bg = context.Background()

// F30: Flush (and Purge "") are safe against concurrent use (run with -race).
func TestF30FlushRace(t *testing.T) {
	c, _ := NewInMemoryCache(DefaultInMemoryCacheConfig)
	go func() {
		for i := 0; i < 1000; i++ {
			c.Set("k", []byte("v"), time.Second)
		}
	}()
	for i := 0; i < 1000; i++ {
		_ = c.Flush(bg)
	}
}

// F31: evicted items leave no bookkeeping behind.
func TestF31TTLMapBounded(t *testing.T) {
	c, _ := NewInMemoryCache(InMemoryCacheConfig{MaxSize: 1000, MaxItemSize: 500})
	for i := 0; i < 1000; i++ {
		c.Set(fmt.Sprint(i), make([]byte, 100), time.Second)
	}
	im := c.(*inMemoryCache)
	if len(im.ttl) != im.inner.Len() {
		t.Fatalf("%d deadlines for %d items", len(im.ttl), im.inner.Len())
	}
}

// F32: items expire by default, also in the local tier of the layered cache.
func TestF32DefaultTTL(t *testing.T) {
	ts := clock.NewEventTimeSource()
	ts.Update(time.Now())
	c, _ := NewInMemoryCache(InMemoryCacheConfig{})
	c.(*inMemoryCache).currentTime = ts.Now
	c.Set("k", []byte("v"), time.Second)
	ts.Update(ts.Now().Add(time.Hour))
	if c.Get(bg, "k") != nil {
		t.Error("in-memory: expired item returned")
	}
	s, _ := NewSimpleCache(nil)
	l, _ := NewCached(s, "x", time.Second, DefaultInMemoryCacheConfig)
	l.outer.(*inMemoryCache).currentTime = ts.Now
	l.Set("k", []byte("v"), time.Second)
	s.Delete(bg, "k")
	ts.Update(ts.Now().Add(time.Hour))
	if l.Get(bg, "k") != nil {
		t.Error("layered: expired item returned")
	}
}

// F33: listing keys of the simple cache is safe against concurrent use (run with -race).
func TestF33SimpleKeysRace(t *testing.T) {
	c, _ := NewSimpleCache(nil)
	go func() {
		for i := 0; i < 1000; i++ {
			c.Set(fmt.Sprint(i), []byte("v"), 0)
		}
	}()
	for i := 0; i < 100; i++ {
		c.Keys(bg, "")
	}
}

// F34: overwriting does not leak list elements.
func TestF34SimpleOverwrite(t *testing.T) {
	c, _ := NewSimpleCache(nil)
	for i := 0; i < 100; i++ {
		c.Set("k", []byte("v"), 0)
	}
	if n := c.(*simpleCache).iterateList.Len(); n != 1 {
		t.Fatalf("%d list elements for one key", n)
	}
}

// slowDel calls hook just before deleting from the remote tier.
type slowDel struct {
	Provider
	hook func()
}

func (s slowDel) Delete(ctx context.Context, k string) bool { s.hook(); return s.Provider.Delete(ctx, k) }

// F35: after Delete returned, a concurrent Get must not have revived the local copy.
func TestF35LayeredDelete(t *testing.T) {
	s, _ := NewSimpleCache(nil)
	var l *Cached
	l, _ = NewCached(slowDel{s, func() { l.Get(bg, "k") }}, "x", time.Minute, DefaultInMemoryCacheConfig)
	l.Set("k", []byte("v"), time.Minute)
	l.Delete(bg, "k")
	if l.Get(bg, "k") != nil {
		t.Fatal("deleted key served from the local tier")
	}
}

// F36: purging an exact key removes exactly that key.
func TestF36ExactPurge(t *testing.T) {
	c, _ := NewInMemoryCache(DefaultInMemoryCacheConfig)
	c.Set("kache-http://a.b/x?id=1", []byte("v"), time.Minute)
	c.Set("kache-http://a_b/x", []byte("v"), time.Minute)
	if err := c.Purge(bg, "kache-http://a.b/x?id=1"); err != nil {
		t.Fatal(err)
	}
	if c.Get(bg, "kache-http://a.b/x?id=1") != nil {
		t.Error("purged key still present")
	}
	_ = c.Purge(bg, "kache-http://a.b/x")
	if c.Get(bg, "kache-http://a_b/x") == nil {
		t.Error("another key was purged")
	}
}

// F37: a failing redis backend is an empty listing, not a panic.
func TestF37KeysPanic(t *testing.T) {
	s := miniredis.RunT(t)
	c, err := NewRedisClient("x", RedisClientConfig{Endpoint: s.Addr()})
	if err != nil {
		t.Fatal(err)
	}
	s.SetError("boom")
	c.Keys(bg, "")
}

// F38: an invalid redis configuration is rejected.
func TestF38Validate(t *testing.T) {
	s := miniredis.RunT(t)
	_, err := CreateCacheProvider("x", ProviderBackendConfig{Backend: BackendRedis, Redis: RedisClientConfig{Endpoint: s.Addr()}})
	if err == nil {
		t.Fatal("no queue workers: nothing would ever be stored")
	}
}

// F39: a non-positive ttl never means "forever".
func TestF39NonPositiveTTL(t *testing.T) {
	s := miniredis.RunT(t)
	c, _ := NewRedisClient("x", RedisClientConfig{Endpoint: s.Addr()})
	_ = c.Store("k", []byte("v"), 0)
	s.FastForward(1000 * time.Hour)
	if c.Fetch(bg, "k") != nil {
		t.Fatal("ttl 0 stored forever")
	}
}

// F54: redis purges match the same keys as the in-memory tier.
func TestF54RedisPattern(t *testing.T) {
	s := miniredis.RunT(t)
	c, _ := NewRedisClient("x", RedisClientConfig{Endpoint: s.Addr()})
	for _, k := range []string{"http://[::1]/x?a=1", "http://[::1]/xya=1"} {
		_ = c.Store(k, []byte("v"), time.Minute)
	}
	_ = c.Purge(bg, "http://[::1]/x?a=1")
	if k := c.Keys(bg, ""); len(k) != 1 || k[0] != "http://[::1]/xya=1" {
		t.Fatal(k)
	}
}

// F61: with a redis cluster, purge, flush and listing concern all its nodes.
func TestF61RedisCluster(t *testing.T) {
	a, b := miniredis.RunT(t), miniredis.RunT(t)
	for _, s := range []*miniredis.Miniredis{a, b} {
		s.Server().SetPreHook(func(c *server.Peer, cmd string, args ...string) bool {
			if cmd != "CLUSTER" || len(args) == 0 || args[0] != "slots" && args[0] != "SLOTS" {
				return false
			}
			c.Block(func(w *server.Writer) {
				w.WriteLen(2)
				for i, n := range []*miniredis.Miniredis{a, b} {
					w.WriteLen(3)
					w.WriteInt(i * 8192)
					w.WriteInt(i*8192 + 8191)
					w.WriteLen(3)
					w.WriteBulk(n.Host())
					p, _ := strconv.Atoi(n.Port())
					w.WriteInt(p)
					w.WriteBulk("node" + n.Port())
				}
			})
			return true
		})
	}
	c, err := NewRedisClient("x", RedisClientConfig{Endpoint: a.Addr() + "," + b.Addr(), MaxQueueConcurrency: 1})
	if err != nil {
		t.Fatal(err)
	}
	fill := func() {
		for i := 0; i < 20; i++ {
			if err := c.Store(fmt.Sprintf("k%d", i), []byte("v"), time.Minute); err != nil {
				t.Fatal(err)
			}
		}
		if len(a.Keys()) == 0 || len(b.Keys()) == 0 {
			t.Fatal("not distributed", a.Keys(), b.Keys())
		}
	}
	fill()
	if k := c.Keys(bg, ""); len(k) != 20 {
		t.Error("keys", len(k))
	}
	if err := c.Purge(bg, "k*"); err != nil || len(a.Keys())+len(b.Keys()) != 0 {
		t.Error("purge", err, a.Keys(), b.Keys())
	}
	fill()
	if err := c.Flush(bg); err != nil || len(a.Keys())+len(b.Keys()) != 0 {
		t.Error("flush", err, a.Keys(), b.Keys())
	}
}
