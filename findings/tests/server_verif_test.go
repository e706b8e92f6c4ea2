package server

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/prometheus/client_golang/prometheus"
)

func mk(t *testing.T, cfg *config.Configuration) *Server {
	p, _ := provider.NewSimpleCache(nil)
	c, _ := cache.NewHttpCache(nil, p)
	s, err := NewServer(cfg, p, c, prometheus.NewRegistry())
	if err != nil {
		t.Fatal(err)
	}
	return s
}

// F50: a request no upstream is configured for is answered 503.
func TestF50NoTarget(t *testing.T) {
	s := mk(t, &config.Configuration{})
	rr := httptest.NewRecorder()
	s.ServeHTTP(rr, httptest.NewRequest("GET", "/", nil))
	if rr.Code != 503 {
		t.Fatal(rr.Code, rr.Body.String())
	}
}

// F51: an update without 'strict' (even null) does not disable strict mode.
func TestF51UpdateStrict(t *testing.T) {
	for _, b := range []string{"x_header: true", "null"} {
		s := mk(t, &config.Configuration{})
		rr := httptest.NewRecorder()
		s.CacheConfigUpdateHandler(rr, httptest.NewRequest("PUT", "/", strings.NewReader(b)))
		if !s.httpcache.Strict() {
			t.Fatalf("%q disabled strict mode", b)
		}
	}
}

type conn struct{ path string }

// F52: the broadcast target path is absolute for any configured prefix.
func TestF52BroadcastPath(t *testing.T) {
	s := mk(t, &config.Configuration{API: &config.API{Prefix: "kapi"}, Provider: &provider.ProviderBackendConfig{Layered: true}})
	c := &rec{}
	s.cluster = c
	s.broadcastPurge(httptest.NewRequest("PURGE", "/", nil))
	if c.path != "/kapi/cache/invalidate" {
		t.Fatal(c.path)
	}
}

var _ = http.StatusOK

// F53: encoded paths are forwarded as-is, also below an upstream base path.
func TestF53EncodedPath(t *testing.T) {
	var got string
	up := httptest.NewServer(http.HandlerFunc(func(_ http.ResponseWriter, r *http.Request) { got = r.RequestURI }))
	defer up.Close()
	s := mk(t, &config.Configuration{Upstreams: config.Upstreams{{Name: "x", Addr: up.URL + "/base"}}})
	s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a%2Fb", nil))
	if got != "/base/a%2Fb" {
		t.Fatal(got)
	}
}
