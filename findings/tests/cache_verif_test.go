package cache

import (
	"net/http"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"gopkg.in/yaml.v3"
)

// F10: directives in a second Cache-Control line count.
func TestF10MultiLine(t *testing.T) {
	h := http.Header{}
	h.Add("Cache-Control", "max-age=60")
	h.Add("Cache-Control", "no-store")
	if IsCacheableResponse(&http.Response{StatusCode: 200, Header: h}) {
		t.Fatal("no-store in a second Cache-Control line was ignored")
	}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	req.Header.Add("Cache-Control", "max-age=60")
	req.Header.Add("Cache-Control", "no-store")
	if !NewLookupRequest(req, time.Now(), true).ReqCacheControl.NoStore {
		t.Fatal("no-store in a second request line ignored")
	}
}

// F11: directive names are case-insensitive.
func TestF11Case(t *testing.T) {
	if !ParseResponseCacheControl("No-Store").NoStore {
		t.Fatal("No-Store ignored")
	}
	if !ParseRequestCacheControl("No-Cache").MustValidate {
		t.Fatal("No-Cache ignored")
	}
}

// F12: a response without a Date header must still age.
func TestF12NoDate(t *testing.T) {
	h := http.Header{}
	h.Set("Cache-Control", "max-age=10")
	now := time.Now()
	req, _ := http.NewRequest("GET", "http://a/", nil)
	l := NewLookupRequest(req, now, true)
	r := l.makeResult(&http.Response{Header: h}, now.Add(-time.Hour))
	if r.Status == EntryOk {
		t.Fatalf("one hour old response with max-age=10 is fresh, Age=%s", h.Get("Age"))
	}
}

// F13: an unparsable Expires means already expired, also for max-stale clients.
func TestF13ExpiresZero(t *testing.T) {
	now := time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC)
	h := http.Header{}
	h.Set("Expires", "0")
	h.Set("Date", now.Add(-time.Hour).Format(http.TimeFormat))
	req, _ := http.NewRequest("GET", "http://a/", nil)
	req.Header.Set("Cache-Control", "max-stale=1")
	l := NewLookupRequest(req, now, true)
	r := l.makeResult(&http.Response{Header: h}, now.Add(-time.Hour))
	if r.Status == EntryOk {
		t.Fatal("one hour stale response served to max-stale=1")
	}
}

// F14: Range requests bypass the cache.
func TestF14Range(t *testing.T) {
	req, _ := http.NewRequest("GET", "http://a/", nil)
	req.Header.Set("Range", "bytes=0-1")
	if IsCacheableRequest(req) {
		t.Fatal("range request is cacheable; its 206 would be stored for the whole resource")
	}
}

// F15: malformed query strings do not collapse onto one key.
func TestF15Query(t *testing.T) {
	a, _ := http.NewRequest("GET", "http://a/x?id=1;v=2", nil)
	b, _ := http.NewRequest("GET", "http://a/x?id=2;v=3", nil)
	if NewKeyFromRequst(a).String() == NewKeyFromRequst(b).String() {
		t.Fatal("different queries share a cache key")
	}
}

// F16: strict is the default, also when a cache section is present.
func TestF16UpdateNil(t *testing.T) {
	p, _ := provider.NewSimpleCache(nil)
	c, _ := NewHttpCache(nil, p)
	c.UpdateConfig(nil) // reload of a configuration without a cache section
	if !c.Strict() {
		t.Fatal("not strict")
	}
}

// F17: publishing the same configuration again must not disturb readers.
func TestF17Republish(t *testing.T) {
	p, _ := provider.NewSimpleCache(nil)
	cfg := &HttpCacheConfig{Strict: true, Exclude: &Exclude{Path: []string{"^/admin"}}}
	c, _ := NewHttpCache(cfg, p)
	done := make(chan bool)
	go func() {
		for i := 0; i < 20000; i++ {
			c.UpdateConfig(cfg)
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
			if !c.IsExcludedPath("/admin") {
				t.Fatal("excluded path not excluded during republication")
			}
		}
	}
}

var _ = yaml.Marshal

// F18: a timeouts rule without a usable ttl does not disable expiry.
func TestF18PathTTL(t *testing.T) {
	p, _ := provider.NewSimpleCache(nil)
	c, _ := NewHttpCache(&HttpCacheConfig{Timeouts: []Timeout{{Path: "/x"}}}, p)
	if c.PathTTL("/x") <= 0 {
		t.Fatal("non-positive ttl (redis: never expires)")
	}
}

// F19: an encoded slash names another resource.
func TestF19EncodedPath(t *testing.T) {
	key := func(u string) string { r, _ := http.NewRequest("GET", u, nil); return NewKeyFromRequst(r).String() }
	if key("http://a/x%2Fy?b=1") == key("http://a/x/y?b=1") {
		t.Fatal("/x%2Fy and /x/y share a cache key")
	}
	if key("http://a/x%2Fy") == key("http://a/x%252Fy") || key("http://a/x%2Fy?a=1") == key("http://a/x%2Fy?a=2") {
		t.Fatal("collision")
	}
}
