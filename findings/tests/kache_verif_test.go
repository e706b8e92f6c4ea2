package kache

import (
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
)

// F24: concurrent reloads do not race (run with -race).
func TestF24ApplyConfig(t *testing.T) {
	p := filepath.Join(t.TempDir(), "k.yml")
	_ = os.WriteFile(p, []byte("cache:\n  strict: true\n"), 0o600)
	l, err := config.NewLoader(p, false, time.Second)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := cache.NewHttpCache(nil, nil)
	k := &Kache{loader: l, Cache: c}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); k.applyConfig() }()
	}
	wg.Wait()
}
