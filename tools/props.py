#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
MW="pkg/server/middleware/httpcache.go"; CO="pkg/server/middleware/coalesce.go"; HC="pkg/cache/httpcache.go"; CC="pkg/cache/cache_control.go"
CA="pkg/cache/cacheable.go"; KEY="pkg/cache/key.go"; ENT="pkg/cache/entry.go"; IM="pkg/provider/inmemory.go"; SI="pkg/provider/simple.go"
LA="pkg/provider/cached.go"; RC="pkg/provider/redis_client.go"; RM="pkg/provider/remote.go"; QU="pkg/provider/queue.go"; PR="pkg/provider/provider.go"
SV="pkg/server/server.go"; SH="pkg/server/handlers.go"; SL="pkg/server/server_listener.go"; ST="pkg/server/server_target.go"
API="pkg/api/api.go"; FI="pkg/api/filter.go"; DB="pkg/api/debug.go"; ME="pkg/api/metrics.go"; VE="pkg/api/version.go"
LO="pkg/config/loader.go"; CF="pkg/config/config.go"; KA="pkg/kache/kache.go"; MA="cmd/kache/main.go"; LG="pkg/utils/logger/logger.go"
K8="pkg/cluster/kubernetes.go"; RQ="pkg/cluster/rqueue.go"; CL="pkg/cluster/cluster.go"

p("C01","Only plain GET and HEAD requests use the cache",
  "The cache is read, written or invalidated on behalf of a request only if its method is GET or HEAD, its path and host are not empty, and it carries none of the Authorization, Range, If-Range, If-Match, If-None-Match, If-Modified-Since and If-Unmodified-Since headers. Every other request goes to the upstream and the client receives the upstream's own response.",
  ["inputs","configurations"],"every request (any method, any header combination) in every cache mode",
  "The tests send a handful of GET requests and single headers; a leak needs the one combination of method, header and cache state they do not try.",
  [MW,CA],[("IsCacheableRequest","pkg/cache/cacheable.go"),("bypass before the lookup","Transport.RoundTrip")],["http.RoundTripper of the proxy"])
p("C02","Strict mode stores only what a shared cache may store",
  "In strict mode a response is stored only if its status is one of 200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 451 and 501, neither the response (no-store, private) nor the request (no-store) forbids it, and it is marked no-cache, carries a max-age or s-maxage, or carries both Expires and Date. A response to HEAD is never stored in any mode. When the response to a cacheable request may not be stored, the entry cached for that request is removed. Every other complete response to a GET request that may use the cache is stored, unless its content is excluded or it only validates a cached response.",
  ["inputs","configurations"],"every upstream response and request header combination",
  "The space of statuses and header combinations is sampled by a few table entries; whether the gate is applied on every path to the store is not tested.",
  [MW,CA],[("IsCacheableResponse","pkg/cache/cacheable.go"),("store or delete decision","Transport.RoundTrip")],["provider Set and Delete"])
p("C03","Cached responses are served without the upstream only while usable",
  "In strict mode a cached response is returned without contacting the upstream only if neither the response nor the request demands validation (no-cache), its age does not exceed the request's max-age, and it is either fresh (age at most s-maxage, else max-age, else Expires minus Date, with the request's min-fresh left over) or stale by less than the request's max-stale while the response carries no must-revalidate or proxy-revalidate. A fresh cached response that satisfies these conditions is served from the cache. A response whose Expires or Date is invalid and that has no max-age counts as expired.",
  ["inputs","histories"],"every cached response, request directive and age",
  "The decision has seven interacting inputs with ordered durations; the tests fix a few points and none at the boundaries.",
  [HC,MW],[("requiresValidation","pkg/cache/httpcache.go"),("EntryOk path","Transport.RoundTrip")],["http.RoundTripper of the proxy"])
p("C04","Cache-Control directives are understood wherever and however they are sent",
  "Every Cache-Control directive the proxy knows takes effect regardless of its position, of the header line it is on, of surrounding blanks and of letter case; a duration counts only if it is a non-negative number of seconds in digits (optionally quoted; a number too large to be represented counts as the largest one), max-stale without value accepts any staleness, a valid s-maxage wins over max-age in either order, private implies no-store, and must-revalidate and proxy-revalidate forbid stale use. Pragma: no-cache is honoured exactly when the request has no Cache-Control. Directives the proxy does not know change nothing. Directives are separated by commas; if one is repeated with different values, any of them may count.",
  ["inputs"],"every request and response header",
  "Header values are unbounded strings; the tests list a few dozen.",
  [CC,HC,CA],[("ParseRequestCacheControl, ParseResponseCacheControl",CC),("NewLookupRequest",HC)],["parsed directives"])
p("C05","The age of a cached response counts from its origin",
  "The age of a cached response is the larger of the apparent age (time of receipt minus Date, at least zero; zero if Date is missing or invalid) and its Age header (zero if missing or invalid), plus the time since it was received, in whole seconds. Every response served from the cache carries that age in its Age header. Dates are accepted in all three formats of HTTP.",
  ["inputs","histories"],"every Date and Age header and every pair of receipt and lookup times",
  "Tests use a handful of well-formed dates.",
  [CC,HC],[("CalculateAge, parseHttpTime",CC),("makeResult",HC)],["Age header"])
p("C06","Validation reuses a cached response only when the upstream confirms it",
  "A cached response that needs validation is validated with a request that carries its Etag in If-None-Match and its Last-Modified (else its Date) in If-Modified-Since, and the client's own request headers. On a 304 the client receives the cached response with its headers updated from the 304 (except Content-Range, Content-Length, Etag and Vary) and without the old Age; any other response is passed on as it is. The stored entry is refreshed only if the 304 carries no Etag or the same Etag as the cached response, and a 304 for which nothing was cached is passed through.",
  ["inputs","histories"],"every cached response and validation answer",
  "The tests cover a few validation answers; header sets and Etag combinations are unbounded.",
  [MW,HC],[("injectValidationHeaders",MW),("UpdateHeader",HC)],["upstream request","client response"])
p("C07","Operator exclusions keep matching traffic out of the cache",
  "A request whose path matches any configured excluded path pattern, or that carries a configured excluded header with exactly the configured value (underscores in the configured name stand for dashes), is passed to the upstream without reading, writing or deleting a cache entry. A response whose content type matches a configured excluded type is not stored if that rule has no positive size or if the content is longer than the size; the first matching type rule decides. Requests and responses that match no rule are not excluded.",
  ["inputs","configurations"],"every exclusion configuration, request and response",
  "Configurations and URLs are unbounded; the tests check one configuration.",
  [HC,MW],[("IsExcludedPath, IsExcludedHeader, IsExcludedContent",HC),("RoundTrip gate",MW)],["provider calls"])
p("C08","Cache keys tell resources apart and are used consistently",
  "The cache key of a request consists of its scheme (http or https by TLS if the URL has none), host, canonical path and canonical query, so that requests for URLs that differ in one of these after canonicalization have different keys; encoded path separators and malformed queries are kept apart. The lookup, the store and the removal for one request use the same key, computed from that request.",
  ["inputs"],"every pair of requests",
  "Injectivity is a statement about all pairs of URLs; the tests compare a handful.",
  [KEY,HC],[("NewKeyFromRequst, Key.String",KEY),("FetchResponse, StoreResponse, Delete",HC)],["provider keys"])
p("C09","A stored entry is the complete response with its time of receipt",
  "What is stored is the full response (status line, headers, body) and the time it was received or validated, and the client still receives the complete body. A response whose body cannot be read completely, or that cannot be encoded, is not stored; an entry that cannot be decoded counts as a miss and is never served.",
  ["inputs","fault_sequences"],"every response and every encoding or read failure",
  "The tests never make the dump, the encoding or the decoding fail.",
  [HC,ENT,MW],[("StoreResponse, FetchResponse",HC),("Encode, DecodeEntry",ENT)],["provider Set value"])
p("C10","Entries get the TTL configured for their path",
  "An entry is stored with the TTL of the first configured timeout rule with a positive TTL whose pattern matches the request path, else with the configured default TTL if it is a valid positive duration, else with 120 seconds. The TTL is never zero or negative.",
  ["inputs","configurations"],"every timeout configuration and path",
  "The tests check one configuration.",
  [HC],[("PathTTL, DefaultTTL",HC)],["provider Set ttl"])
p("C11","Coalesced requests share only responses that may be shared",
  "A request receives the response obtained for another concurrent request only if both are GET requests for the same full URL, neither carries Authorization, Range or a conditional header, and the response is neither private nor no-store. A request that may not share is sent upstream on its own; one that shares receives the complete status, headers and body of the initial response, and the initial requester's response stays complete.",
  ["schedules","inputs"],"every set of concurrent requests and every response",
  "Sharing happens only under a particular overlap of requests; one test runs identical anonymous requests.",
  [CO],[("requestCoalescer.RoundTrip",CO)],["http.RoundTripper of the proxy"])
p("C12","Coalescing never leaves a request waiting",
  "A request waiting for another one's response is released when that one ends, whether with a response, an error or a panic, and no wake-up can be lost. Once the initial request has ended, the next request for the URL contacts the upstream again. If the initial client disconnects, the waiting requests are still answered by the upstream.",
  ["schedules","fault_sequences"],"every interleaving and every way an upstream request can end",
  "The window between lookup, wait and wake-up is a few instructions; tests do not inject panics, errors or cancellations.",
  [CO],[("inflight map and condition variable",CO)],["http.RoundTripper of the proxy"])
p("C13","Shared state is only touched under its lock",
  "The maps, counters, lists and configuration shared between requests (in-memory, simple and layered caches, coalescer, config loader, config application) are read and written only while the lock or atomic that guards them is held, writes only while it is held exclusively. Variables and maps that several goroutines of the same kind share are written only under a lock, and no goroutine uses a variable that the loop that started it goes on setting. No path leaves a lock held, releases one it does not hold, or acquires one it already holds.",
  ["schedules"],"every interleaving of requests, admin calls and reloads",
  "A race detector sees only the interleavings a test runs; the baseline tests do not run flush, purge, reload or listing concurrently.",
  [IM,SI,LA,CO,LO,KA,HC],[("mutexes and atomics","each type's methods")],["lock state at each access"])
p("C14","The in-memory cache accounts its size exactly and stays within it",
  "The size the in-memory cache accounts is the sum of payload plus fixed per-item overhead over the items it holds, after every insert, overwrite, removal, eviction, expiry and flush, and never exceeds the configured maximum. An item larger than the configured maximum item size is not stored, and room is made by evicting the least recently used items, no more than needed. Bookkeeping of an item disappears with the item.",
  ["histories","inputs"],"every sequence of operations and item sizes",
  "Drift accumulates over long histories; the tests run a few fixed sequences.",
  [IM],[("Set, onEvict, ensureCapacity, reset",IM)],["accounted size"])
p("C15","Expired items are never returned",
  "Unless expiry is disabled (default TTL -1), an in-memory item is not returned once its TTL has passed since it was last written, and it is removed when found expired; this also holds for the local tier of the layered cache, whose copies of remote items live for the layered TTL. Items written to redis expire there after their TTL. An item that has not expired is returned.",
  ["histories","configurations"],"every history of writes and reads and every TTL",
  "Tests check one item and one configuration.",
  [IM,LA,RC,RM],[("deadline check in Get",IM),("ttl hand-over",LA)],["provider Get"])
p("C16","The two cache tiers stay coherent",
  "Writing to the layered cache writes both tiers with the same key, value and TTL; reading prefers the local tier and otherwise returns the remote value and keeps a local copy of it. Delete, purge and flush remove from both tiers and report the remote tier's outcome, and a concurrent read cannot bring the removed item back into the local tier.",
  ["schedules","histories"],"every interleaving of reads with writes and invalidations",
  "The resurrection needs a read between the two removals.",
  [LA],[("Cached",LA)],["provider calls on both tiers"])
p("C17","A purge removes exactly the matching keys",
  "Purging with a pattern removes every key the pattern matches as a whole and no other, where '*' matches any run of characters and every other character only itself, in the in-memory cache as well as in redis and in both tiers of the layered cache. An empty pattern removes everything. With several redis endpoints (a cluster) purging, flushing and listing reach every node. A failing removal is reported to the caller.",
  ["inputs"],"every pattern and key",
  "Keys are URLs full of pattern metacharacters; the tests purge two patterns over plain names.",
  [IM,RC],[("wildcardToRegex, Purge",IM),("Purge",RC)],["remaining keys"])
p("C18","A failing or slow redis never breaks the proxy",
  "A failing redis read is a miss, a failing listing, write or removal is logged or reported, and none of them panics. Items larger than a positive configured maximum and items without a positive TTL are not written. Storing a response only enqueues the write: it never waits for redis or for room in the queue, and a full queue drops the write and reports it.",
  ["fault_sequences","inputs"],"every failure of the backend and every queue state",
  "The tests run against a healthy in-process server.",
  [RC,RM,QU],[("Fetch, Store, StoreAsync, Keys",RC),("dispatch",QU)],["redis commands"])
p("C19","The job queue runs accepted jobs and stops cleanly",
  "Submitting a job never blocks: it is accepted if there is room and rejected with an error otherwise. Each accepted job is executed at most once, by one of exactly the configured number of workers, which keep executing jobs until the queue is stopped. Stopping returns only after all workers have ended and submits or executes nothing itself.",
  ["schedules"],"every interleaving of submitters, workers and stop",
  "Tests run one schedule.",
  [QU],[("jobQueue",QU)],["worker goroutines"])
p("C20","Provider configurations are completed or rejected",
  "The backend 'inmemory' creates the in-memory cache and 'redis' the redis cache, the latter behind a local tier exactly if the layered option is set; any other name is an error. A redis configuration without endpoint or with fewer than one queue worker, and an in-memory configuration whose item limit exceeds its total size, are rejected. Unset in-memory limits get the documented defaults (256 MiB, 128 MiB, 120s), set ones are used as they are, and the configured redis address, credentials, database and queue limits reach the client.",
  ["configurations"],"every provider configuration",
  "The tests build each backend once.",
  [PR,IM,LA,RC],[("CreateCacheProvider",PR),("Sanitize",IM),("Validate",RC)],["created provider"])
p("C21","Requests are routed to the first matching target only",
  "A request is forwarded to the first configured upstream whose path prefix matches, with that upstream's scheme and host, its base path joined to the request path with exactly one slash, the path's encoding and the query preserved, and the upstream's host as Host. A request that matches no upstream is never forwarded and answered with 503.",
  ["inputs","configurations"],"every request and upstream list",
  "The tests use one or two upstreams and plain paths.",
  [SV,ST],[("Director",SV),("MatchTarget",ST)],["upstream request"])
p("C22","Upstream failures map to the documented status codes",
  "A request that fails is answered with 503 if no target matches or the upstream cannot be reached (network operation error), 504 if it timed out, 502 if the client cancelled it or the upstream closed the connection (EOF), and 500 otherwise. The status is always in the 5xx range and the failure's message is the body.",
  ["fault_sequences"],"every error an upstream request can end with",
  "Tests provoke two of the failures.",
  [SV],[("errorHandler",SV)],["client status"])
p("C23","No request can occupy the proxy forever",
  "Every listener of the proxy limits the time to read a request, write a response and keep an idle connection; every proxied request ends with an error after at most 30 seconds; connecting, the TLS handshake and idle upstream connections are limited. Requests to cluster peers are limited as well. All these limits are positive, and the time a listener allows for writing a response exceeds the time the proxy may take to answer, so that the answer to a slow request, including that error, still reaches the client.",
  ["fault_sequences"],"every slow or hung client, upstream or peer",
  "A hang is the absence of an event; no test waits for one.",
  [SL,SV,MW,RQ],[("http.Server timeouts",SL),("TimeoutHandler",SV),("Dialer and Transport",MW),("http.Client",RQ)],["configured limits"])
p("C24","Shutdown stops every listener and waits for requests in flight",
  "When the process is told to stop, every listener stops accepting, requests in flight get up to five seconds to finish before connections are closed, and the shutdown waits for all listeners before the process goes on to exit. Broadcast workers are stopped as well, and the process leaves its wait only after the stop.",
  ["schedules","crash_points"],"every moment the signal can arrive and every set of listeners",
  "The tests shut an idle server down once.",
  [SL,SV,KA],[("Listener.Shutdown, Listeners.Stop",SL),("Start, Stop, Await",SV),("Run",KA)],["calls on http.Server"])
p("C25","Every API endpoint is behind the access control",
  "Every endpoint served on the API port, including metrics, version, debug and endpoints registered later, first checks the access control list. Debug and profiling endpoints exist only if debugging is enabled. Nothing but the API's own router is served on the API port.",
  ["configurations","inputs"],"every registered route and configuration",
  "Tests check one wrapped handler, not the registered routes.",
  [API,DB,ME,VE,FI,KA],[("router middleware","api.New"),("DebugHandler",DB)],["registered routes"])
p("C26","The access control list admits exactly the listed addresses",
  "With a non-empty access list, a request is admitted only if its client address (last X-Forwarded-For entry of all its lines, else X-Real-Ip, else the peer address without port, IPv4 or IPv6) equals a listed address or lies in a listed network; otherwise, and if the address cannot be determined, it is answered 401 and the handler does not run. An empty list admits everyone. A list with a malformed entry is an error.",
  ["inputs","configurations"],"every access list and client address",
  "The tests use lists with plain addresses and one peer format.",
  [FI],[("NewIPFilter, Wrap, IsAllowed, originalIP",FI)],["handler invocation"])
p("C27","Admin endpoints do what their method and path say",
  "Purge (PURGE), invalidate (DELETE) and flush (DELETE) act only on their method, answer other methods with 405 without touching the cache, remove the key given in X-Purge-Key (flush: everything), and answer 200 only if the removal succeeded, 404 otherwise. Key listing and config reading are GET and change nothing; a config update is PUT, is applied completely or, if the body cannot be read or parsed, not at all (400). A removal is not cut short when the client that asked for it leaves. A config reload over the API reports a failed reload with 400.",
  ["inputs","fault_sequences"],"every method, body and backend failure",
  "Tests call a few handlers with a healthy backend.",
  [SH,API,KA],[("handlers",SH),("createRoutes",API)],["provider calls","status"])
p("C28","Live config updates are atomic",
  "Every decision made for a request follows one complete cache configuration, the old or the new one, with all its patterns compiled; a configuration is never modified after it was published, and neither is the caller's. A pattern that does not compile is ignored and does not stop the update. Without a configuration the default one (strict mode) applies.",
  ["schedules","configurations"],"every interleaving of requests with updates and reloads",
  "Requires a request between two steps of an update.",
  [HC],[("UpdateConfig, atomic pointer",HC)],["published configuration"])
p("C29","A failed reload keeps the running configuration",
  "A config file that cannot be read or parsed (unknown keys included) is reported and leaves the active configuration and its checksum as they were, however often it is retried. A changed valid file becomes the active configuration and is applied to the cache, by the file watcher, SIGHUP and the reload endpoint alike; an unchanged file is not applied again. Strict mode is the default if the cache section does not set it.",
  ["histories","fault_sequences"],"every sequence of file contents and reload triggers",
  "Tests never reload, nor fail one.",
  [LO,KA],[("Loader.Load, Watch",LO),("reloadConfig, applyConfig",KA)],["Loader.Config"])
p("C30","Broadcasts reach every peer with retries and no harm",
  "A broadcast sends one request with the given method and path and the original headers, body and host to every ready endpoint that offers the named port, marked as a broadcast and with the sender's client address. A request that fails or is answered with a status from 400 to 599 is repeated with the same body after the backoff until the configured number of attempts is used up, and not repeated otherwise. An unreachable peer never crashes the process, response bodies are always closed, and stopping ends all workers without leaving a sender blocked.",
  ["fault_sequences","schedules"],"every endpoint list and every failure sequence of peers",
  "There are no tests for the cluster package.",
  [K8,RQ],[("Broadcast, Endpoints",K8),("RequestQueue",RQ)],["requests to peers"])
p("C31","Broadcasts cannot echo and hit existing endpoints",
  "Handling a request that came in as a broadcast never sends another broadcast, and nothing is broadcast before it took effect locally or if it failed locally. The method and path of every broadcast belong to an endpoint the API registers. Purges are broadcast only when there is a layered cache and a cluster, and then every purge that took effect is, as is every configuration update in a cluster.",
  ["histories","configurations"],"every chain of broadcasts in a cluster of any size",
  "Needs a cluster; there are no tests for it.",
  [SH,API,K8],[("X-Kache-Cluster check, broadcastPurge",SH),("route table",API)],["cluster Broadcast calls"])
p("C32","Missing or partial configuration never crashes the process",
  "Leaving out the cache, cluster or logging section (or setting it to null) is valid and means defaults. A missing listener, upstream, API or provider section, or an empty listener or upstream entry, is reported as a validation error before anything is started.",
  ["configurations"],"every configuration file",
  "Tests construct complete configurations.",
  [CF,MA,KA,LG,SV,HC],[("Validate",CF)],["startup"])
p("C33","The debug header tells the truth and only when asked for",
  "The debug header is attached only if it is enabled, under the configured name (X-Kache by default): HIT on responses served from the cache or validated with it, MISS on responses to requests that may not use the cache, and never HIT on a response that came from the upstream. It is never added to the request sent upstream, and never stored with a response, so that it does not outlive the configuration that asked for it.",
  ["inputs","configurations"],"every request and configuration",
  "Tests look at responses with the header enabled only.",
  [MW,HC],[("RoundTrip, handleCacheHit",MW),("XCacheHeader, MarkCachedResponses",HC)],["client response headers"])
p("C34","Shipped configurations are accepted by the loader",
  "Every key used in the shipped sample and deployment configurations, including the commented-out options of the sample, is known to the configuration loader at that place, and its value is of the kind the option has. Every configuration file that a shipped compose deployment mounts exists in the repository.",
  ["configurations"],"every shipped configuration file",
  "No test loads a shipped configuration.",
  [CF,HC,PR,IM,RC,CL,"kache.sample.yml","deploy/kubernetes/configmap.yml","deploy/monitoring/demo/config/kache/kache.yml"],[("yaml tags","configuration structs"),("KnownFields",LO)],["Loader.Load"])
p("C35","Backend credentials never leave the process except to the backend",
  "The redis user name and password are used for the redis connection and for nothing else: they do not appear in logs, API responses, debug endpoints, broadcasts or cache keys.",
  ["inputs","configurations"],"every flow of the credentials through the program",
  "A leak is an extra flow; tests check expected outputs only.",
  [RC,PR,KA,API,SH],[("RedisClientConfig",RC)],["log and HTTP output"])
p("C36","Hit and miss metrics count what happened",
  "For each request that consults the cache, the hit counter is incremented once if and only if the response is served from the cache without contacting the upstream, and the miss counter once if and only if no usable entry was found. Requests that bypass the cache, and validations, change neither.",
  ["inputs","histories"],"every request",
  "No test reads the counters.",
  [MW],[("metrics",MW)],["kache_http_cache_requests_total"])
p("C37","Clients get the upstream's headers, with the configured Cache-Control",
  "The response to a request that may use the cache carries the configured default Cache-Control as its only Cache-Control line if a default is configured and the response has none, or if forcing is on; without a configured default, and for all other requests, Cache-Control is passed on as received. All other headers except the debug header and, on cache hits, Age are those of the upstream's or the cached response (after a validation: merged), and a response is stored with the headers it is returned with, except the debug header.",
  ["inputs","configurations"],"every header, response and configuration",
  "Tests look at the headers they set themselves.",
  [MW,HC],[("updateCacheControl",MW),("DefaultCacheControl, ForceCacheControl",HC)],["client response headers","provider Set value"])
p("C38","The process is assembled from its configuration",
  "Provider, cache, proxy, API and logging are each made from their section of the loaded configuration; the proxy, the cache and the API work on the same provider and cache, and live updates are applied to that cache. A request the proxy may answer from the cache is looked up there. A module that cannot be made ends the process with a failure before anything is started, otherwise everything is started. No option of the configuration is ignored altogether.",
  ["configurations","fault_sequences"],"every configuration and failure of a module",
  "No test starts the process.",
  [MA,KA,SV,CF],[("setupModules",KA),("main",MA),("NewServer",SV)],["startup"])
p("C39","Logs go where the configuration says",
  "With a configured log file, logs are written to that file, rotated with the configured size, age and number of backups, otherwise to the standard error; as JSON exactly if the format is json; at the configured level, in any letter case (info if none is configured, error if it is unknown).",
  ["configurations"],"every logging section",
  "Tests use the console format only.",
  [LG],[("InitLogger",LG)],["log output"])
p("C40","The proxy and the API are reachable where configured",
  "Every configured listener accepts TCP connections of every IP version at exactly its configured address and passes them to the proxy; if one of the addresses cannot be bound, the server is not made. The API listens on its configured port of every interface; when it cannot listen, or stops doing so, the process ends with a failure instead of running without its API.",
  ["configurations","fault_sequences"],"every set of listeners, every API section and every failure to bind",
  "The tests bind one address of the loopback interface, and never start the API.",
  [SL,API,SV],[("NewListener",SL),("NewListeners, Start",SL),("Run",API)],["addresses the process listens on"])
p("C41","The key listing shows every key in the cache",
  "The listing endpoint of the API answers with exactly the list the cache in use returns for the empty prefix, as JSON. Asked for the keys with a prefix, the in-memory cache lists exactly the keys it holds that begin with it; redis lists every key that a scan to its end of the server, or of every master of a cluster, finds for the prefix taken literally, followed by anything; the layered cache lists what its remote tier lists.",
  ["inputs","interface_behaviours"],"every content of every cache, every prefix and every paging of a scan",
  "Tests list a few keys; no test uses a cluster, a prefix with special characters, or a listing that needs several pages.",
  ["pkg/provider/inmemory.go","pkg/provider/redis_client.go","pkg/provider/cached.go","pkg/provider/remote.go",SV],[("CacheKeysHandler",SV),("Keys","pkg/provider/inmemory.go"),("Keys","pkg/provider/redis_client.go"),("Keys","pkg/provider/cached.go")],["answer of the listing endpoint"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
