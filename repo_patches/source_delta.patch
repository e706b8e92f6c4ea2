From 39f6fdc9ad698b432eec866705e3f22667e2f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 01/61] fix: enforce an API access list that only contains CIDR
 ranges

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From 0e3112701295356e07f8aa6919cd58ef66dac2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 02/61] fix: determine the client address of IPv6 connections

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From f7dba23f69f077d36e6281bb73340fb5b5ab049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 03/61] fix: survive an unreachable peer when broadcasting

---
 pkg/cluster/rqueue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..ee5404b 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
-- 
2.43.0


From 05adbc2f97691612d232fe2f56d7481cbe36e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 04/61] fix: resend the body when retrying a broadcast

---
 pkg/cluster/kubernetes.go |  2 +-
 pkg/cluster/rqueue.go     | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index ee5404b..7979b3c 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -126,6 +126,16 @@ func (q *RequestQueue) process() {
 func (q *RequestQueue) retry(msg Message) {
 	msg.Attempt++
 	if msg.Attempt < q.Options.MaxRetries {
+		// The previous attempt consumed the body.
+		if msg.Request.GetBody != nil {
+			body, err := msg.Request.GetBody()
+			if err != nil {
+				log.Error().Err(err).Send()
+				return
+			}
+			msg.Request = msg.Request.Clone(msg.Request.Context())
+			msg.Request.Body = body
+		}
 		go func() {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
-- 
2.43.0


From 0790c3612d32ca5e99660cac48b679bddd47124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 05/61] fix: do not block forever sending to a stopped
 broadcast queue

---
 pkg/cluster/kubernetes.go | 6 +++++-
 pkg/cluster/rqueue.go     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..308a379 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -155,6 +155,10 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 		out.Host = req.Host
 
 		// Dispatch message.
-		c.broadcast.Queue <- Message{out, 0}
+		select {
+		case c.broadcast.Queue <- Message{out, 0}:
+		case <-c.broadcast.done:
+			return
+		}
 	}
 }
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 7979b3c..f24b354 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -140,7 +140,10 @@ func (q *RequestQueue) retry(msg Message) {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
 			time.Sleep(q.Options.Backoff)
-			q.Queue <- msg
+			select {
+			case q.Queue <- msg:
+			case <-q.done:
+			}
 		}()
 	}
 }
-- 
2.43.0


From 2934cbb92432672aa5e6f45ea7926c53d4df5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 06/61] fix: limit the time a hung peer can occupy a broadcast
 worker

---
 pkg/cluster/rqueue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index f24b354..9be97fb 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -31,6 +31,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout limits the time a peer may take to answer a request.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -88,7 +91,7 @@ func (q *RequestQueue) Stop() {
 func (q *RequestQueue) process() {
 	defer q.wg.Done()
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	client.Transport = http.DefaultTransport
 
 	for {
-- 
2.43.0


From daeae5c5d75288f7aeda5d596f54a2bf67a1005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 07/61] fix: forward the client address without port in
 broadcasts

---
 pkg/cluster/kubernetes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 308a379..dada772 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -150,7 +151,9 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+			out.Header.Set("X-Forwarded-For", host)
+		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 06753ac9c8b4ee506efe4ffcf68f7eafb12e8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 08/61] fix: do not carry the port over between endpoint
 subsets

---
 pkg/cluster/kubernetes.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index dada772..5ad13a8 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -103,12 +103,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
-- 
2.43.0


From ed140ae3113d20617dd8fbb6704d1f9a3885a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 09/61] fix: handle endpoint addresses without target reference

---
 pkg/cluster/kubernetes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 5ad13a8..7747bd5 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -118,8 +118,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := addr.IP
+			if addr.TargetRef != nil {
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
-- 
2.43.0


From 6de3d76716b17dbb6d89ca33957d8bc5af212053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 10/61] fix: broadcast to IPv6 endpoints

---
 pkg/cluster/kubernetes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 7747bd5..35f21ff 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -146,7 +146,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
-		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
+		url := fmt.Sprintf("%s://%s%s", "http", net.JoinHostPort(ep.Host, fmt.Sprint(ep.Port)), path)
 		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
-- 
2.43.0


From 2866c2064dfe44d2f36bfeeef2230b6cb8c18265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 11/61] fix: respect the directives of all Cache-Control header
 lines

---
 pkg/cache/cacheable.go | 3 ++-
 pkg/cache/httpcache.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..1a1ce62 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -24,6 +24,7 @@ package cache
 
 import (
 	"net/http"
+	"strings"
 )
 
 type (
@@ -116,7 +117,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
+	cacheControl := strings.Join(res.Header.Values(HeaderCacheControl), ",")
 	resCacheControl := ParseResponseCacheControl(cacheControl)
 
 	// Only cache responses with enough data to calculate freshness lifetime:
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..81d6255 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := strings.Join(req.Header.Values(HeaderCacheControl), ",")
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(strings.Join(header.Values(HeaderCacheControl), ","))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From 20030ba1ec18f218f54655f71612deefa2749ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 12/61] fix: compare Cache-Control directive names
 case-insensitively

---
 pkg/cache/cache_control.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..9e6c220 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,7 +185,7 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	return strings.ToLower(dir), arg
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From 64f6164e60177bcf538bf5a67890c2a18ddbd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 13/61] fix: calculate the age of responses without a valid
 Date

---
 pkg/cache/cache_control.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 9e6c220..39c8c6e 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -232,6 +232,9 @@ func parseHttpTime(s string) time.Time {
 func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
 	// Calculate apparent age.
 	date := parseHttpTime(headers.Get(HeaderDate))
+	if date.IsZero() {
+		date = responseTime // missing or invalid, assume the time the response was received.
+	}
 	apparentAge := max(0, int64(responseTime.Sub(date)))
 
 	// Set corrected age to the value Age header,
-- 
2.43.0


From 0f5f115ae1e417051ae45ec293805865931754b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 14/61] fix: treat responses with an invalid Expires or Date as
 expired

---
 pkg/cache/httpcache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 81d6255..9ca3ba6 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -421,7 +421,10 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	} else {
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
-		freshness = expires.Sub(date)
+		// An invalid date means the response is already expired.
+		if !expires.IsZero() && !date.IsZero() {
+			freshness = expires.Sub(date)
+		}
 	}
 
 	if age > freshness { // Stale response.
-- 
2.43.0


From dddc5d9dfb302bb002d3338a34510277568faa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 15/61] fix: bypass the cache for range requests

---
 pkg/cache/cacheable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 1a1ce62..b72726c 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -42,6 +42,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -79,7 +80,10 @@ var (
 
 	// conditionalHeaders holds conditional headers.
 	// https://httpwg.org/specs/rfc7232.html#preconditions.
+	// Responses to range requests are partial and cannot be stored for the
+	// whole resource. For now, range requests bypass the cache, too.
 	conditionalHeaders = []string{
+		HeaderRange,
 		HeaderIfRange,
 		HeaderIfMatch,
 		HeaderIfNoneMatch,
-- 
2.43.0


From 45b94643d9e4607861c5f93a9005a94411d7c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 16/61] fix: keep malformed query strings apart in the cache
 key

---
 pkg/cache/key.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..1ad0019 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -47,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       canonicalQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -84,6 +84,16 @@ func StableHashKey(k Key) uint64 {
 	return xxhash.Sum64([]byte(k.String()))
 }
 
+// canonicalQuery returns the canonical query string for q.
+func canonicalQuery(q string) string {
+	values, err := url.ParseQuery(q)
+	if err != nil {
+		// Malformed parts would be dropped, keep them to not mix up different queries.
+		return q
+	}
+	return values.Encode()
+}
+
 // cleanPath returns the canonical path for p.
 func cleanPath(p string) string {
 	if p == "" {
-- 
2.43.0


From 96c0db5750859088ffbb0fe7e37a67332c2aa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 17/61] fix: fall back to the default cache config when it is
 removed

---
 pkg/cache/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 9ca3ba6..ab0b2e3 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -157,6 +157,9 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil {
+		config = &HttpCacheConfig{Strict: true}
+	}
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
-- 
2.43.0


From 443d9b505b7201593b853c4fc622ec66612648ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 18/61] fix: do not modify a published cache config

---
 pkg/cache/httpcache.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index ab0b2e3..43caa18 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -160,6 +160,9 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 	if config == nil {
 		config = &HttpCacheConfig{Strict: true}
 	}
+
+	// Work on a copy, the given config may already be published.
+	config = config.clone()
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
@@ -192,6 +195,18 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 	c.config.Store(config)
 }
 
+// clone returns a copy of the config that does not share the compiled matchers.
+func (c *HttpCacheConfig) clone() *HttpCacheConfig {
+	cfg := *c
+	cfg.Timeouts = append([]Timeout(nil), c.Timeouts...)
+	if c.Exclude != nil {
+		exclude := *c.Exclude
+		exclude.Content = append([]Content(nil), c.Exclude.Content...)
+		cfg.Exclude = &exclude
+	}
+	return &cfg
+}
+
 // Strict returns true if the cache mode is `strict`.
 func (c *HttpCache) Strict() bool {
 	config := c.loadConfig()
-- 
2.43.0


From 3167cc290c2b36038c1831e227bf1c111086b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 19/61] fix: ignore timeouts without a positive ttl

---
 pkg/cache/httpcache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 43caa18..5f17d00 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -294,7 +294,7 @@ func (c *HttpCache) DefaultTTL() time.Duration {
 		return DefaultTTL
 	}
 	t, err := time.ParseDuration(config.DefaultTTL)
-	if err != nil {
+	if err != nil || t <= 0 {
 		return DefaultTTL
 	}
 	return t
@@ -305,7 +305,7 @@ func (c *HttpCache) DefaultTTL() time.Duration {
 func (c *HttpCache) PathTTL(p string) time.Duration {
 	config := c.loadConfig()
 	for _, t := range config.Timeouts {
-		if t.Matcher != nil && t.Matcher.MatchString(p) {
+		if t.TTL > 0 && t.Matcher != nil && t.Matcher.MatchString(p) {
 			return t.TTL
 		}
 	}
-- 
2.43.0


From 7b661e4af12148ebc5394a756cc6dbd39dddec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 20/61] fix: keep the checksum of the active config when a
 reload fails

---
 pkg/config/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..28c01b3 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -77,7 +77,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -88,6 +87,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	}
 
 	l.config.Store(config)
+	l.configHash = hash
 
 	return true, nil
 }
-- 
2.43.0


From a7760e0b1d2b58d7f2ed3e7439f450f4c2e2dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 21/61] fix: serialize concurrent config loads

---
 pkg/config/loader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 28c01b3..e3e7b7f 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -43,7 +44,9 @@ type Loader struct {
 	watch         bool
 	watchInterval time.Duration
 
-	config     atomic.Pointer[Configuration]
+	config atomic.Pointer[Configuration]
+
+	mu         sync.Mutex // serializes loads and guards configHash.
 	configHash []byte
 
 	Events chan bool
@@ -67,6 +70,8 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -104,6 +109,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
-- 
2.43.0


From 498cc04d9f220e9f9b60c42fed1767904b75eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 22/61] fix: default to strict mode when the cache section does
 not set it

---
 pkg/config/loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index e3e7b7f..705ae0f 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -33,6 +33,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -86,7 +87,8 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	// Strict mode is the default, also if the cache section does not mention it.
+	config := &Configuration{HttpCache: &cache.HttpCacheConfig{Strict: true}}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
-- 
2.43.0


From fbf8d996cc42fdc06781f8ed7d525f38e6cf5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 23/61] fix: apply concurrent config reloads in order

---
 pkg/kache/kache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..743303e 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -44,6 +45,7 @@ import (
 type Kache struct {
 	Config *config.Configuration
 	loader *config.Loader
+	mu     sync.Mutex // serializes config updates.
 
 	Registerer prometheus.Registerer
 
@@ -147,6 +149,8 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0


From aa467a245e607bbea16d22caffc8958b277b61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 24/61] fix: reject configurations with missing sections
 instead of crashing

---
 pkg/config/config.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..742e8d0 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -33,6 +33,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errMissingAPIConfig       = errors.New("missing api config")
+	errMissingProviderConfig  = errors.New("missing provider config")
 )
 
 // TODO: set defaults
@@ -53,9 +55,18 @@ type Configuration struct {
 
 // Validate validates the configuration.
 func (c *Configuration) Validate() error {
+	var errAPI, errProvider error
+	if c.API == nil {
+		errAPI = errMissingAPIConfig
+	}
+	if c.Provider == nil {
+		errProvider = errMissingProviderConfig
+	}
 	return errors.Join(
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
+		errAPI,
+		errProvider,
 	)
 }
 
@@ -78,6 +89,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for _, listener := range l {
+		if listener == nil {
+			return errInvalidListenersConfig
+		}
+	}
 	return nil
 }
 
@@ -96,6 +112,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for _, upstream := range u {
+		if upstream == nil {
+			return errInvalidUpstreamsConfig
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From d2bd956308268fc0b9b900eef56900662464b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 25/61] fix: default to strict mode when a cache config update
 does not set it

---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..23cd56c 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true} // strict mode is the default.
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 0c651feba0b0248f86e50cb4d6e6d26e992cde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 26/61] fix: answer 503 when no target matches the request

---
 pkg/server/server.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..997a84c 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -139,15 +139,11 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
-	case errors.Is(err, context.Canceled):
-		ctx := req.Context()
-		cErr := context.Cause(ctx)
-		if errors.Is(cErr, ErrMatchingTarget) {
-			status = http.StatusServiceUnavailable
-			err = cErr
-		} else { // client canceled request
-			status = http.StatusBadGateway
-		}
+	case errors.Is(context.Cause(req.Context()), ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
+		err = ErrMatchingTarget
+	case errors.Is(err, context.Canceled): // client canceled request
+		status = http.StatusBadGateway
 	case errors.Is(err, io.EOF):
 		status = http.StatusBadGateway
 	default: // connection error
-- 
2.43.0


From 6df2781e12b5063f183971e55e2061275f2f29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 27/61] fix: broadcast purges to the sanitized API prefix

---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 23cd56c..c46ce8f 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From c42b7240d3dc6dfc757833a0808b7b6af04974b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 28/61] fix: forward encoded paths as-is to upstreams with a
 base path

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 997a84c..a26e418 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -186,6 +186,9 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
+		if req.URL.RawPath != "" || upstream.RawPath != "" {
+			req.URL.RawPath = singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
+		}
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
 
 		// Pass host header
-- 
2.43.0


From 4aa5bc2a1cd8d8ba1267bd01fd87668ed78f51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 29/61] fix: keep encoded path separators apart in the cache
 key

---
 pkg/cache/key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 1ad0019..14fe36f 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -36,6 +36,7 @@ type Key struct {
 	ClusterName string
 	Host        string
 	Path        string
+	RawPath     string // encoded path, only set if it differs from the default encoding.
 	Query       string
 	Scheme      string
 }
@@ -50,6 +51,9 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		Query:       canonicalQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
+	if req.URL.RawPath != "" {
+		key.RawPath = cleanPath(req.URL.EscapedPath())
+	}
 	if key.Scheme == "" {
 		if req.TLS == nil {
 			key.Scheme = "http"
@@ -68,6 +72,9 @@ func (k Key) String() string {
 		Path:     k.Path,
 		RawQuery: k.Query,
 	}
+	if k.RawPath != "" {
+		url.Opaque = "//" + k.Host + k.RawPath
+	}
 	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
 }
 
-- 
2.43.0


From 19ae8bcdb745a2b9a00e129fb11ddfc11df9f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 30/61] fix: pass through a 304 response nothing was cached for

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..f773658 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 2e8d5c28e194fe77dfca70ea555bef5edc5b9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 31/61] fix: attach the debug header to cache hits only if
 enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index f773658..02c2cc9 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From ace4eeb15f21364d89bcae81ddfa00ef07986322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 32/61] fix: attach the debug header to the response instead of
 the upstream request

---
 pkg/server/middleware/httpcache.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 02c2cc9..d38a24d 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -106,10 +106,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if !cache.IsCacheableRequest(req) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring uncachable request")
-		if t.Cache.MarkCachedResponses() {
-			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
+		resp, err = t.send(req)
+		if err == nil && t.Cache.MarkCachedResponses() {
+			resp.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
 		}
-		return t.send(req)
+		return resp, err
 	}
 
 	lookup := cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict())
-- 
2.43.0


From 1c56982901e2502a19aa795e87e6756adbf1fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 33/61] fix: fall back to the Date for conditional validation
 requests

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index d38a24d..87c1ca4 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -234,7 +234,7 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 		// Fallback to Date header if Last-Modified is missing.
 		forkReq()
 		date := header.Get(cache.HeaderDate)
-		req.Header.Set(cache.HeaderLastModified, date)
+		req.Header.Set(cache.HeaderIfModifiedSince, date)
 	}
 
 	return req
-- 
2.43.0


From a4acccac96a4cde1132114b5f8128bd7316b1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 34/61] fix: do not coalesce authorized, conditional and range
 requests

---
 pkg/server/middleware/coalesce.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..3a89543 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -29,6 +29,7 @@ import (
 	"net/http/httputil"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -73,8 +74,8 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 // requests are blocked until the original request completes. The resulting
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	// Only coalesce GET requests, unless the response depends on more than the URL.
+	if req.Method != http.MethodGet || !cache.IsCacheableRequest(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
-- 
2.43.0


From 34f270ed2d3e05352b3a171709fa130ea5cb7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 35/61] fix: release waiting requests if the coalesced request
 panics

---
 pkg/server/middleware/coalesce.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 3a89543..6bd11fb 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -25,6 +25,7 @@ package middleware
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"net/http"
 	"net/http/httputil"
 	"sync"
@@ -49,6 +50,9 @@ type requestCoalescer struct {
 	next http.RoundTripper
 }
 
+// errNoResponse is the error of calls whose request panicked.
+var errNoResponse = errors.New("no response")
+
 // call is an in-flight or completed singleflight request.
 type call struct {
 	*sync.Cond // rendezvous point for goroutines.
@@ -130,8 +134,20 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.Unlock()
 
 	// Execute e2e request.
-	resp, err := coalescer.next.RoundTrip(req)
+	var resp *http.Response
+	var err error
+	defer func() { coalescer.complete(key, inflight, resp, err) }() // also if it panics.
+	resp, err = coalescer.next.RoundTrip(req)
+	if err != nil {
+		log.Error().Err(err).Str("key", key).Send()
+		return nil, err
+	}
+
+	return resp, nil
+}
 
+// complete removes the inflight request and hands the outcome to waiting callers.
+func (coalescer *requestCoalescer) complete(key string, inflight *call, resp *http.Response, err error) {
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
 	// calls is crucial, otherwise race conditions and memory leaks occur.
@@ -144,6 +160,8 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	if inflight.coalesced {
 		if err != nil {
 			inflight.resp, inflight.err = nil, err
+		} else if resp == nil {
+			inflight.err = errNoResponse
 		} else {
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
@@ -152,11 +170,4 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.Broadcast()
 	}
 	inflight.L.Unlock()
-
-	if err != nil {
-		log.Error().Err(err).Str("key", key).Send()
-		return nil, err
-	}
-
-	return resp, nil
 }
-- 
2.43.0


From 3e93c644006b91c917047a01b9dc0566c7982a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 36/61] fix: do not share private responses between coalesced
 requests

---
 pkg/server/middleware/coalesce.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 6bd11fb..bb5e3ef 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -28,6 +28,7 @@ import (
 	"errors"
 	"net/http"
 	"net/http/httputil"
+	"strings"
 	"sync"
 
 	"github.com/kacheio/kache/pkg/cache"
@@ -60,6 +61,7 @@ type call struct {
 	// coalesced indicates if there are any calls waiting
 	// for the initial in-flight request's response.
 	coalesced bool
+	private   bool // the outcome must not be shared.
 	resp      []byte
 	err       error
 }
@@ -114,6 +116,9 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// Initial request completed.
+		if inflight.private {
+			return coalescer.next.RoundTrip(req)
+		}
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
@@ -162,6 +167,8 @@ func (coalescer *requestCoalescer) complete(key string, inflight *call, resp *ht
 			inflight.resp, inflight.err = nil, err
 		} else if resp == nil {
 			inflight.err = errNoResponse
+		} else if cacheControl := strings.Join(resp.Header.Values(cache.HeaderCacheControl), ","); cache.ParseResponseCacheControl(cacheControl).NoStore {
+			inflight.private = true
 		} else {
 			// Copy the response before releasing it to waiter(s).
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
-- 
2.43.0


From c1d2aa1bff32f95d7cbc5eca2419d84151f70c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 37/61] fix: do not fail coalesced requests when the initial
 client disconnects

---
 pkg/server/middleware/coalesce.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index bb5e3ef..309190b 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -141,7 +141,11 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	// Execute e2e request.
 	var resp *http.Response
 	var err error
-	defer func() { coalescer.complete(key, inflight, resp, err) }() // also if it panics.
+	defer func() {
+		// The initial client hanging up must not fail the waiting requests.
+		inflight.private = req.Context().Err() != nil
+		coalescer.complete(key, inflight, resp, err) // also if it panics.
+	}()
 	resp, err = coalescer.next.RoundTrip(req)
 	if err != nil {
 		log.Error().Err(err).Str("key", key).Send()
-- 
2.43.0


From 1da6f7c2e6b7242f2f87bfee2b7210715c34094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 38/61] fix: flush the in-memory cache under its lock

---
 pkg/provider/inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..3a6e46e 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -267,6 +267,8 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.reset()
 	return nil
 }
-- 
2.43.0


From 9b381fa09afdf5cb6c009e081d5d1dc9a014f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 39/61] fix: drop the deadline of items evicted from the
 in-memory cache

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 3a6e46e..efb1556 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -144,6 +144,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
 	c.curSize -= itemSize(val)
+	delete(c.ttl, key)
 }
 
 // Get retrieves an element based on the provided key.
-- 
2.43.0


From 28d640cc0d02eb23870fd9de6b1a1c6d9f28332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 40/61] fix: evict items by TTL unless it is disabled

---
 pkg/provider/inmemory.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index efb1556..266bce8 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -86,7 +86,7 @@ type InMemoryCacheConfig struct {
 	// DefaultTTL is the defautl ttl of a single item.
 	DefaultTTL string `yaml:"default_ttl"`
 	// TTLEviction specifies if evction of items by TTL is enabled.
-	// Set to true if`DefaultTTL` is -1.
+	// Set to false if `DefaultTTL` is -1.
 	TTLEviction bool
 }
 
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From acb28f4c0244ad7ab9e92b16a10e511414404917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 41/61] fix: respect the configured TTL eviction in the layered
 cache

---
 pkg/provider/cached.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..a0b6a9d 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -61,6 +61,7 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 	l, err := NewInMemoryCache(InMemoryCacheConfig{
 		MaxSize:     config.MaxSize,
 		MaxItemSize: config.MaxItemSize,
+		DefaultTTL:  config.DefaultTTL,
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ae9fba56787654ddbaba924aa522f0eb3c955d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 42/61] fix: list the keys of the simple cache under its lock

---
 pkg/provider/simple.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/provider/simple.go b/pkg/provider/simple.go
index b5959ad..c289169 100644
--- a/pkg/provider/simple.go
+++ b/pkg/provider/simple.go
@@ -102,6 +102,8 @@ func (c *simpleCache) Size() int {
 
 // Keys returns a slice of the keys in the cache.
 func (c *simpleCache) Keys(_ context.Context, _ string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	keys := make([]string, len(c.entryMap))
 	i := 0
 	for k := range c.entryMap {
-- 
2.43.0


From 4430ec869802a1b9ff3411189e135ab8a4e6d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 43/61] fix: release overwritten values of the simple cache

---
 pkg/provider/simple.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/simple.go b/pkg/provider/simple.go
index c289169..25fb49a 100644
--- a/pkg/provider/simple.go
+++ b/pkg/provider/simple.go
@@ -75,6 +75,9 @@ func (c *simpleCache) Get(_ context.Context, key string) []byte {
 func (c *simpleCache) Set(key string, val []byte, _ time.Duration) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	if ent := c.entryMap[key]; ent != nil {
+		_ = c.iterateList.Remove(ent)
+	}
 	c.entryMap[key] = c.iterateList.PushFront(val)
 }
 
-- 
2.43.0


From 823bf099e86083595619a3c95ccef468109fda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 44/61] fix: invalidate the remote before the local tier of the
 layered cache

---
 pkg/provider/cached.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index a0b6a9d..906ed43 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -106,10 +106,12 @@ func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
+	// The inner cache goes first, otherwise a concurrent Get may restore the local copy.
+	deleted := c.inner.Delete(ctx, key)
 	c.mu.Lock()
 	c.outer.Delete(ctx, key)
 	c.mu.Unlock()
-	return c.inner.Delete(ctx, key)
+	return deleted
 }
 
 // Keys returns a slice of cache keys.
@@ -119,18 +121,20 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
 	_ = c.outer.Purge(ctx, pattern)
 	c.mu.Unlock()
-	return c.inner.Purge(ctx, pattern)
+	return err
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	err := c.inner.Flush(ctx)
 	c.mu.Lock()
 	_ = c.outer.Flush(ctx)
 	c.mu.Unlock()
-	return c.inner.Flush(ctx)
+	return err
 }
 
 // Size returns the number of entries currently stored in the Cache.
-- 
2.43.0


From 701def0defb73835d13460aa3161f4ee9c4bf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 45/61] fix: purge exactly the given key if the pattern has no
 wildcard

---
 pkg/provider/inmemory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 266bce8..d9ef643 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -285,7 +285,7 @@ func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
 	if len(parts) == 1 {
 		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
+		return "^" + regexp.QuoteMeta(pattern) + "$"
 	}
 	var result strings.Builder
 	for i, p := range parts {
-- 
2.43.0


From fd3353a3b794f06b494af3602c1a300000d0bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 46/61] fix: do not panic if listing redis keys fails

---
 pkg/provider/redis_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..359aba8 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -163,7 +163,7 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Msg("Error listing keys from redis")
 	}
 	return keys
 }
-- 
2.43.0


From 587591202e100a28b233315703e7c5c7800e42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 47/61] fix: validate the redis configuration

---
 pkg/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
-- 
2.43.0


From 97ae4e1954d78d031d7d66249310a671e9318005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 48/61] fix: do not store redis items without expiration

---
 pkg/provider/redis_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 359aba8..60a812b 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -36,6 +36,7 @@ var (
 	ErrRedisConfigNoEndpoint    = errors.New("no redis endpoint configured")
 	ErrRedisMaxQueueConcurrency = errors.New("max job queue concurrency must be positive")
 	ErrRedisMaxItemSize         = errors.New("max item size exceeded")
+	ErrRedisInvalidTTL          = errors.New("ttl must be positive")
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
 
@@ -129,6 +130,9 @@ func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
 		return ErrRedisMaxItemSize
 	}
+	if ttl <= 0 {
+		return ErrRedisInvalidTTL // would never expire
+	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
 	return err
 
-- 
2.43.0


From b0f91e9f02984431542d34ce155355c0e014cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 49/61] fix: match purge patterns literally except for
 wildcards in redis

---
 pkg/provider/redis_client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 60a812b..e6589f8 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -40,6 +40,10 @@ var (
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
 
+// globEscaper escapes the special characters of redis patterns that are literals
+// in purge patterns, in which only '*' has a special meaning.
+var globEscaper = strings.NewReplacer(`\`, `\\`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // RedisClientConfig holds the configuration for the Redis client.
 type RedisClientConfig struct {
 	// Endpoint holds the endpoint addresses of the Redis server.
@@ -162,7 +166,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, globEscaper.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -183,7 +187,7 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	iter := c.Scan(ctx, 0, globEscaper.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
-- 
2.43.0


From af730afa4ffb1ac2fce3b41d9d72975607484a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 50/61] fix: do not truncate an existing log file on startup

---
 pkg/utils/logger/logger.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/utils/logger/logger.go b/pkg/utils/logger/logger.go
index d38be8a..8053c86 100644
--- a/pkg/utils/logger/logger.go
+++ b/pkg/utils/logger/logger.go
@@ -71,7 +71,6 @@ func initFormat(cfg *config.Log) io.Writer {
 
 	if cfg != nil && cfg.File != "" {
 		// write logs to rolling files
-		_, _ = os.Create(cfg.File)
 		w = &lumberjack.Logger{
 			Filename:   cfg.File,
 			MaxSize:    cfg.MaxSize,
-- 
2.43.0


From cd1860d78a0e2504e84be9fedf3e8c47621495a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 51/61] fix: select the TTL of a path from one cache
 configuration

---
 pkg/cache/httpcache.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 5f17d00..931f3ca 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -289,11 +289,15 @@ func (c *HttpCache) ForceCacheControl() bool {
 // DefaultTTL returns the TTL as specified in the configuration as a valid duration
 // in seconds. If not specified, the default value is returned.
 func (c *HttpCache) DefaultTTL() time.Duration {
-	config := c.loadConfig()
-	if len(config.DefaultTTL) == 0 {
+	return c.loadConfig().ttl()
+}
+
+// ttl returns the default TTL of the config.
+func (c *HttpCacheConfig) ttl() time.Duration {
+	if len(c.DefaultTTL) == 0 {
 		return DefaultTTL
 	}
-	t, err := time.ParseDuration(config.DefaultTTL)
+	t, err := time.ParseDuration(c.DefaultTTL)
 	if err != nil || t <= 0 {
 		return DefaultTTL
 	}
@@ -309,7 +313,7 @@ func (c *HttpCache) PathTTL(p string) time.Duration {
 			return t.TTL
 		}
 	}
-	return c.DefaultTTL()
+	return config.ttl()
 }
 
 // FetchResponse fetches a response matching the given request.
-- 
2.43.0


From f57080f99a0d68eb58f81b2b56d656222c405ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 52/61] fix: apply a config change made before watching starts

---
 pkg/config/loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 705ae0f..31f91df 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -123,10 +123,15 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
-	if _, err := l.Load(ctx); err != nil {
+	changed, err := l.Load(ctx)
+	if err != nil {
 		return err
 	}
 	go func() {
+		// The file may have changed since it was loaded first.
+		if changed {
+			l.notifyChange()
+		}
 		tick := time.NewTicker(l.watchInterval)
 		defer tick.Stop()
 		for {
-- 
2.43.0


From 329155bd08a66a4b5f3225c0098e8d635a5d7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 53/61] fix: mount the existing sample configuration in the
 compose deployment

---
 deploy/docker/docker-compose.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deploy/docker/docker-compose.yml b/deploy/docker/docker-compose.yml
index f6d4d91..164d19c 100644
--- a/deploy/docker/docker-compose.yml
+++ b/deploy/docker/docker-compose.yml
@@ -10,7 +10,7 @@ services:
       - "3128:3128"
       - "6067:6067"
     volumes:
-      - "./../kache.sample.yml:/etc/kache/kache.sample.yml"
+      - "./../../kache.sample.yml:/etc/kache/kache.sample.yml"
 
   redis:
     image: "redis:alpine"
-- 
2.43.0


From 2f75314f856ec83411b491727149589ba21cfef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 54/61] fix: keep max-age if s-maxage is invalid

---
 pkg/cache/cache_control.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 39c8c6e..8f1b478 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -163,7 +163,9 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 		case "public":
 			cc.IsPublic = true
 		case "s-maxage":
-			cc.MaxAge = parseDuration(arg)
+			if d := parseDuration(arg); d >= 0 {
+				cc.MaxAge = d
+			}
 		case "max-age":
 			if cc.MaxAge < 0 {
 				cc.MaxAge = parseDuration(arg)
-- 
2.43.0


From 7fcc399344dc98ecab2fd29b3c2136f97edb030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 55/61] fix: accept only whole seconds as durations of
 directives and the Age header

---
 pkg/cache/cache_control.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f1b478..b1d3008 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -23,8 +23,10 @@
 package cache
 
 import (
+	"errors"
 	"math"
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -195,13 +197,23 @@ func splitDirective(s string) (dir string, arg string) {
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
 	s = strings.Trim(s, "\"'") // trim quotes
-	d, err := time.ParseDuration(s + "s")
-	if err != nil || d < 0 {
+	d, ok := parseSeconds(s)
+	if !ok {
 		return time.Duration(-1)
 	}
 	return d
 }
 
+// parseSeconds parses a non-negative number of seconds, as used by directives and the
+// Age header. Numbers too large to be represented are limited to the largest supported one.
+func parseSeconds(s string) (time.Duration, bool) {
+	n, err := strconv.ParseUint(s, 10, 31)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		return 0, false
+	}
+	return time.Duration(n) * time.Second, true
+}
+
 // parseHttpTime parse a datetime http header value.
 func parseHttpTime(s string) time.Time {
 	if s == "" {
@@ -241,11 +253,7 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 
 	// Set corrected age to the value Age header,
 	// as response delay (response_time - request_time) is assumed to be negligible.
-	age, err := time.ParseDuration(headers.Get(HeaderAge) + "s")
-	if err != nil {
-		age = time.Duration(0 * time.Second)
-	}
-	correctedAge := age
+	correctedAge, _ := parseSeconds(headers.Get(HeaderAge))
 	correctedInitialAge := max(int64(apparentAge), int64(correctedAge))
 
 	// Calculate current age by adding the amount of time (seconds)
-- 
2.43.0


From 0f8009a3cca0023cf862166480ff2a8be4896538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 56/61] fix: respect all Pragma header lines

---
 pkg/cache/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 931f3ca..1f9d3ca 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -391,7 +391,7 @@ func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *Look
 		// According to https://httpwg.org/specs/rfc7234.html#header.pragma, when the Cache-Control
 		// header is not set, the "Pragma:no-cache" directive is equivalent to "Cache-Control:no-cache",
 		// any other directives are ignored.
-		pragma := req.Header.Get(HeaderPragma)
+		pragma := strings.Join(req.Header.Values(HeaderPragma), ",")
 		requestCacheControl.MustValidate = ParseRequestCacheControl(pragma).MustValidate
 	}
 
-- 
2.43.0


From 47d05e07b9137bfcfad4ea81539e6376e3eb577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 57/61] fix: leave Cache-Control alone if no default is
 configured

---
 pkg/server/middleware/httpcache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 87c1ca4..1d9e8ae 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -241,7 +241,11 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 }
 
 // updateCacheControl sets or updates the cache-control header.
+// Without a value, the header is left as it is.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" {
+		return
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From 90ce9e00bf1bfd9cbf3a5ff155e64a3758204a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 58/61] fix: X-Forwarded-For entries on further header lines
 were ignored by the access list

---
 pkg/api/filter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..8882ab1 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -134,7 +134,9 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	// It may be spread over several lines, the last entry is on the last one.
+	forwarded := strings.Join(req.Header.Values("X-Forwarded-For"), ",")
+	if xff := strings.Trim(forwarded, ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From 907c4ce6202cf10cc6b5ea2f928a273bf8235657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 59/61] fix: listeners cut off every response that takes longer
 than a second

The write timeout starts with the request, so an upstream that answers after
more than one second, which the proxy allows for up to DefaultTimeout, left the
client with a closed connection instead of the response or an error.
---
 pkg/server/server_listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server_listener.go b/pkg/server/server_listener.go
index 69e555f..a465b9a 100644
--- a/pkg/server/server_listener.go
+++ b/pkg/server/server_listener.go
@@ -99,7 +99,7 @@ func NewListener(ctx context.Context, cfg *config.Listener, handler http.Handler
 		// TODO: set ErrorLog
 		// TODO: make timeouts configurable
 		ReadTimeout:  1 * time.Second,
-		WriteTimeout: 1 * time.Second,
+		WriteTimeout: DefaultTimeout + 5*time.Second, // the handler may take DefaultTimeout
 		IdleTimeout:  30 * time.Second,
 	}
 
-- 
2.43.0


From bb05d343c2ffc82d350f985d8501e004571a9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 60/61] fix: the debug header of a validated response was
 stored with it

Later hits, also of other instances sharing the cache, carried it although the
header had been disabled or renamed in the meantime.
---
 pkg/server/middleware/httpcache.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 1d9e8ae..f2df928 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -125,9 +125,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -148,7 +145,8 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
+	validated := resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation
+	if validated {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
@@ -183,6 +181,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark a validated response. The mark must not be stored with it.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From 88f0a84a3074cc73e26b03dcc1fd16fa484ffca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 61/61] fix: purge, flush and listing reached only one node of
 a redis cluster

---
 pkg/provider/redis_client.go | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index e6589f8..9a0d2ea 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -26,6 +26,7 @@ import (
 	"context"
 	"errors"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/redis/go-redis/v9"
@@ -163,14 +164,31 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 	return c.Del(ctx, key).Err()
 }
 
+// forEachNode calls fn for every node that holds keys: all masters
+// of a cluster (concurrently), otherwise the only server.
+func (c *redisClient) forEachNode(ctx context.Context, fn func(context.Context, redis.Cmdable) error) error {
+	if cluster, ok := c.UniversalClient.(*redis.ClusterClient); ok {
+		return cluster.ForEachMaster(ctx, func(ctx context.Context, node *redis.Client) error {
+			return fn(ctx, node)
+		})
+	}
+	return fn(ctx, c.UniversalClient)
+}
+
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
+	var mu sync.Mutex
 	var keys []string
-	iter := c.Scan(ctx, 0, globEscaper.Replace(prefix)+"*", 0).Iterator()
-	for iter.Next(ctx) {
-		keys = append(keys, iter.Val())
-	}
-	if err := iter.Err(); err != nil {
+	err := c.forEachNode(ctx, func(ctx context.Context, c redis.Cmdable) error {
+		iter := c.Scan(ctx, 0, globEscaper.Replace(prefix)+"*", 0).Iterator()
+		for iter.Next(ctx) {
+			mu.Lock()
+			keys = append(keys, iter.Val())
+			mu.Unlock()
+		}
+		return iter.Err()
+	})
+	if err != nil {
 		log.Error().Err(err).Msg("Error listing keys from redis")
 	}
 	return keys
@@ -187,6 +205,13 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
+	return c.forEachNode(ctx, func(ctx context.Context, node redis.Cmdable) error {
+		return purgeNode(ctx, node, pattern)
+	})
+}
+
+// purgeNode purges the keys of a single node.
+func purgeNode(ctx context.Context, c redis.Cmdable, pattern string) error {
 	iter := c.Scan(ctx, 0, globEscaper.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
@@ -204,5 +229,7 @@ func (c *redisClient) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all keys from the cache.
 func (c *redisClient) Flush(ctx context.Context) error {
-	return c.FlushDB(ctx).Err()
+	return c.forEachNode(ctx, func(ctx context.Context, node redis.Cmdable) error {
+		return node.FlushDB(ctx).Err()
+	})
 }
-- 
2.43.0

