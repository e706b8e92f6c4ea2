package config

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
)

const base = "listeners:\n  a:\n    addr: :80\nupstreams:\n  - name: x\n    addr: http://x\n"

func load(t *testing.T, s string) (*Loader, string) {
	p := filepath.Join(t.TempDir(), "k.yml")
	_ = os.WriteFile(p, []byte(s), 0o600)
	l, err := NewLoader(p, false, time.Second)
	if err != nil {
		t.Fatal(err)
	}
	return l, p
}

// F20: strict defaults to true when the cache section does not mention it.
func TestF20StrictDefault(t *testing.T) {
	l, _ := load(t, base+"cache:\n  x_header: true\n")
	c, _ := cache.NewHttpCache(l.Config().HttpCache, nil)
	if !c.Strict() {
		t.Fatal("cache section without 'strict' disables strict mode")
	}
}

// F21: a rejected reload is rejected again, and the checksum stays that of the active config.
func TestF21FailedLoad(t *testing.T) {
	l, p := load(t, base)
	sum := l.Checksum()
	_ = os.WriteFile(p, []byte("nonsense: ["), 0o600)
	if _, err := l.Load(context.Background()); err == nil {
		t.Fatal("want error")
	}
	if l.Checksum() != sum {
		t.Fatal("checksum of a rejected file")
	}
	if _, err := l.Load(context.Background()); err == nil {
		t.Fatal("second load of the broken file reports success")
	}
}

// F22: concurrent loads (SIGHUP, API, watcher) do not race.
func TestF22LoadRace(t *testing.T) {
	l, p := load(t, base)
	go func() {
		for i := 0; i < 100; i++ {
			_, _ = l.Load(context.Background())
		}
	}()
	for i := 0; i < 100; i++ {
		_ = os.WriteFile(p, []byte(base+"# "+time.Now().String()), 0o600)
		_, _ = l.Load(context.Background())
		_ = l.Checksum()
	}
}

// F23: missing mandatory sections are a validation error, not a crash.
func TestF23Sections(t *testing.T) {
	for _, s := range []string{
		base,
		"listeners:\n  a:\nupstreams:\n  - name: x\n    addr: http://x\napi:\n  port: 1\nprovider:\n  backend: inmemory\n",
		"listeners:\n  a:\n    addr: :80\nupstreams:\n  -\napi:\n  port: 1\nprovider:\n  backend: inmemory\n",
	} {
		l, _ := load(t, s)
		if l.Config().Validate() == nil {
			t.Fatalf("accepted:\n%s", s)
		}
	}
}

// F52: a change made between the first load and the start of the watcher is
// told to the cache.
func TestF52EarlyChange(t *testing.T) {
	p := filepath.Join(t.TempDir(), "kache.yml")
	if err := os.WriteFile(p, []byte(base), 0o600); err != nil {
		t.Fatal(err)
	}
	l, err := NewLoader(p, true, 20*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	_ = os.WriteFile(p, []byte(base+"# changed\n"), 0o600)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := l.Watch(ctx); err != nil {
		t.Fatal(err)
	}
	select {
	case <-l.Events:
	case <-time.After(2 * time.Second):
		t.Fatal("the change was lost")
	}
}
