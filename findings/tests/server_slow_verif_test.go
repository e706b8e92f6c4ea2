package server

import (
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/prometheus/client_golang/prometheus"
)

func TestF59SlowUpstream(t *testing.T) {
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(1500 * time.Millisecond)
		_, _ = io.WriteString(w, "slow")
	}))
	defer up.Close()
	p, _ := provider.NewSimpleCache(nil)
	c, _ := cache.NewHttpCache(nil, p)
	srv, err := NewServer(&config.Configuration{
		Listeners: config.Listeners{"a": {Addr: "127.0.0.1:0"}},
		Upstreams: config.Upstreams{{Name: "u", Addr: up.URL, Path: "/"}},
	}, p, c, prometheus.NewRegistry())
	if err != nil {
		t.Fatal(err)
	}
	srv.listeners.Start()
	defer srv.listeners.Stop()
	res, err := http.Get("http://" + srv.listeners["a"].listener.Addr().String() + "/x")
	if err != nil {
		t.Fatal(err)
	}
	if b, _ := io.ReadAll(res.Body); string(b) != "slow" {
		t.Fatalf("%d %q", res.StatusCode, b)
	}
}
