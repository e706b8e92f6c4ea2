package middleware

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/prometheus/client_golang/prometheus"
)

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func two(t *testing.T, rt http.RoundTripper, a, b *http.Request) (ra, rb *http.Response, eb error) {
	done := make(chan bool, 2)
	go func() {
		defer func() { _ = recover(); done <- true }()
		ra, _ = rt.RoundTrip(a)
	}()
	time.Sleep(50 * time.Millisecond)
	go func() {
		defer func() { _ = recover(); done <- true }()
		rb, eb = rt.RoundTrip(b)
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("request hangs")
		}
	}
	return
}

func get(u string) *http.Request { r, _ := http.NewRequest("GET", u, nil); return r }

func echo(cc string) rtf {
	return func(r *http.Request) (*http.Response, error) {
		time.Sleep(150 * time.Millisecond)
		h := http.Header{}
		if cc != "" {
			h.Set("Cache-Control", cc)
		}
		return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: h,
			Body: io.NopCloser(bytes.NewBufferString(r.Header.Get("Authorization") + r.Header.Get("Cookie")))}, nil
	}
}

func body(r *http.Response) string { b, _ := io.ReadAll(r.Body); return string(b) }

// F40: responses to authorized requests are not shared.
func TestF40CoalesceAuth(t *testing.T) {
	a, b := get("http://x/"), get("http://x/")
	a.Header.Set("Authorization", "alice")
	_, rb, _ := two(t, NewCoalesced(echo("")), a, b)
	if body(rb) != "" {
		t.Fatal("anonymous client received alice's response")
	}
}

// F41: private responses are not shared.
func TestF41CoalescePrivate(t *testing.T) {
	a, b := get("http://x/"), get("http://x/")
	a.Header.Set("Cookie", "alice")
	b.Header.Set("Cookie", "bob")
	_, rb, _ := two(t, NewCoalesced(echo("private")), a, b)
	if body(rb) != "bob" {
		t.Fatal("bob received alice's private response")
	}
}

// F42: a panicking transport does not wedge the URL.
func TestF42CoalescePanic(t *testing.T) {
	rt := NewCoalesced(rtf(func(r *http.Request) (*http.Response, error) {
		time.Sleep(100 * time.Millisecond)
		panic("x")
	}))
	two(t, rt, get("http://x/"), get("http://x/"))
}

// F43: the first client hanging up does not fail the others.
func TestF43CoalesceCancel(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	rt := NewCoalesced(rtf(func(r *http.Request) (*http.Response, error) {
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(200 * time.Millisecond):
		}
		return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(&bytes.Buffer{})}, nil
	}))
	time.AfterFunc(100*time.Millisecond, cancel)
	_, _, err := two(t, rt, get("http://x/").WithContext(ctx), get("http://x/"))
	if err != nil {
		t.Fatal("second client failed:", err)
	}
}

func tp(t *testing.T, cfg *cache.HttpCacheConfig, h http.HandlerFunc) (*Transport, *httptest.Server) {
	p, _ := provider.NewSimpleCache(nil)
	c, _ := cache.NewHttpCache(cfg, p)
	s := httptest.NewServer(h)
	t.Cleanup(s.Close)
	return NewCachedTransport(c, prometheus.NewRegistry()), s
}

// F44: an unsolicited 304 is passed through.
func TestF44Unsolicited304(t *testing.T) {
	x, s := tp(t, &cache.HttpCacheConfig{Strict: true}, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(304) })
	r, err := x.RoundTrip(get(s.URL + "/"))
	if err != nil || r.StatusCode != 304 {
		t.Fatal(r, err)
	}
}

// F45: the debug header is only attached when enabled, and not sent upstream.
func TestF45DebugHeader(t *testing.T) {
	x, s := tp(t, &cache.HttpCacheConfig{Strict: true}, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Cache-Control", "max-age=100")
	})
	_, _ = x.RoundTrip(get(s.URL + "/"))
	r, _ := x.RoundTrip(get(s.URL + "/"))
	if r.Header.Get("X-Kache") != "" {
		t.Error("debug header although disabled")
	}
	var up string
	x, s = tp(t, &cache.HttpCacheConfig{Strict: true, XCache: true}, func(w http.ResponseWriter, r *http.Request) { up = r.Header.Get("X-Kache") })
	p, _ := http.NewRequest("POST", s.URL+"/", nil)
	_, _ = x.RoundTrip(p)
	if up != "" {
		t.Error("debug header sent upstream")
	}
}

// F46: without Etag and Last-Modified the validation is conditional on the Date.
func TestF46DateFallback(t *testing.T) {
	var ims, lm string
	x, s := tp(t, &cache.HttpCacheConfig{Strict: true}, func(w http.ResponseWriter, r *http.Request) {
		ims, lm = r.Header.Get("If-Modified-Since"), r.Header.Get("Last-Modified")
		w.Header().Set("Cache-Control", "no-cache")
	})
	_, _ = x.RoundTrip(get(s.URL + "/"))
	_, _ = x.RoundTrip(get(s.URL + "/"))
	if ims == "" || lm != "" {
		t.Fatalf("If-Modified-Since=%q Last-Modified=%q", ims, lm)
	}
}

// Without a configured value the upstream's Cache-Control stays.
func TestF57NoDefaultCacheControl(t *testing.T) {
	for _, force := range []bool{false, true} {
		h := http.Header{"Cache-Control": {"no-store"}}
		updateCacheControl(h, "", force)
		if h.Get("Cache-Control") != "no-store" {
			t.Fatalf("Cache-Control is %q", h["Cache-Control"])
		}
		h = http.Header{}
		updateCacheControl(h, "", force)
		if _, ok := h["Cache-Control"]; ok {
			t.Fatal("an empty Cache-Control was added")
		}
	}
}

// F60: the debug header of a validated response is not stored with it.
func TestF60DebugHeaderStored(t *testing.T) {
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Etag", `"a"`)
		w.Header().Set("Cache-Control", "max-age=60")
		if r.Header.Get("If-None-Match") != "" {
			w.WriteHeader(304)
			return
		}
		_, _ = io.WriteString(w, "x")
	}))
	defer up.Close()
	p, _ := provider.NewSimpleCache(nil)
	c, err := cache.NewHttpCache(&cache.HttpCacheConfig{XCache: true, Strict: true}, p)
	if err != nil {
		t.Fatal(err)
	}
	tr := NewCachedTransport(c, prometheus.NewRegistry())
	do := func(cc string) *http.Response {
		r := get(up.URL + "/")
		if cc != "" {
			r.Header.Set("Cache-Control", cc)
		}
		res, err := tr.RoundTrip(r)
		if err != nil {
			t.Fatal(err)
		}
		_ = body(res)
		return res
	}
	do("")
	if h := do("no-cache").Header.Get("X-Kache"); h != "HIT" {
		t.Fatal("validated response not marked")
	}
	c.UpdateConfig(&cache.HttpCacheConfig{Strict: true}) // debug header off
	if h := do("").Header.Get("X-Kache"); h != "" {
		t.Fatal("marked although the debug header is disabled: " + h)
	}
}
