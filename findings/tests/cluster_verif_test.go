package cluster

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
)

// k8s starts a fake kubernetes API serving the given endpoints and returns a client for it.
func k8s(t *testing.T, endpoints string) *client {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write([]byte(endpoints))
	}))
	t.Cleanup(s.Close)
	cs, err := kubernetes.NewForConfig(&rest.Config{Host: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	return &client{clientset: cs, broadcast: NewRequestQueue(RequestQueueOpts{Size: 9}), namespace: "d", service: "s"}
}

// F06: the forwarded client address is a plain IP (peers with an ACL reject anything else).
func TestF06ForwardedFor(t *testing.T) {
	c := k8s(t, `{"subsets":[{"addresses":[{"ip":"2001:db8::1","targetRef":{"name":"a"}}],"ports":[{"name":"api","port":1}]}]}`)
	c.Broadcast(httptest.NewRequest("PUT", "/", nil), "api", "PUT", "/x")
	r := (<-c.broadcast.Queue).Request
	if v := r.Header.Get("X-Forwarded-For"); v != "192.0.2.1" {
		t.Error("X-Forwarded-For:", v)
	}
	if r.URL.Host != "[2001:db8::1]:1" {
		t.Error("Host:", r.URL.Host)
	}
}

// F07: a subset without the named port has no endpoints.
func TestF07SubsetPort(t *testing.T) {
	c := k8s(t, `{"subsets":[{"addresses":[{"ip":"10.0.0.1","targetRef":{"name":"a"}}],"ports":[{"name":"api","port":1}]},{"addresses":[{"ip":"10.0.0.2","targetRef":{"name":"b"}}],"ports":[{"name":"x","port":2}]}]}`)
	if e := c.Endpoints("api"); len(e) != 1 {
		t.Fatal(e)
	}
}

// F08: addresses without target reference do not crash.
func TestF08TargetRef(t *testing.T) {
	c := k8s(t, `{"subsets":[{"addresses":[{"ip":"10.0.0.1"}],"ports":[{"name":"api","port":1}]}]}`)
	if e := c.Endpoints("api"); len(e) != 1 {
		t.Fatal(e)
	}
}

// F03: an unreachable peer must not crash the process.
func TestF03UnreachablePeer(t *testing.T) {
	q := NewRequestQueue(RequestQueueOpts{Size: 2, MaxWorkers: 1, MaxRetries: 1})
	req, _ := http.NewRequest("DELETE", "http://127.0.0.1:1/x", nil)
	q.Queue <- Message{req, 0}
	time.Sleep(200 * time.Millisecond)
	q.Stop()
}

// F04: a retried broadcast must carry the original body.
func TestF04RetryBody(t *testing.T) {
	var mu sync.Mutex
	var bodies []string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		bodies = append(bodies, string(b))
		n := len(bodies)
		mu.Unlock()
		if n == 1 {
			w.WriteHeader(503)
		}
	}))
	defer s.Close()
	q := NewRequestQueue(RequestQueueOpts{Size: 2, MaxWorkers: 1, MaxRetries: 3, Backoff: time.Millisecond})
	req, _ := http.NewRequest("PUT", s.URL, newBody([]byte("strict: true")))
	q.Queue <- Message{req, 0}
	time.Sleep(300 * time.Millisecond)
	q.Stop()
	mu.Lock()
	defer mu.Unlock()
	if len(bodies) != 2 || bodies[0] != bodies[1] {
		t.Fatalf("bodies: %q", bodies)
	}
}

// newBody is what Broadcast hands to http.NewRequest.
func newBody(b []byte) io.Reader { return bytes.NewReader(b) }

// F05: senders must not block forever once the queue is stopped.
func TestF05RetryAfterStop(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(503) }))
	defer s.Close()
	q := NewRequestQueue(RequestQueueOpts{Size: 0, MaxWorkers: 1, MaxRetries: 3, Backoff: 50 * time.Millisecond})
	req, _ := http.NewRequest("PUT", s.URL, nil)
	q.Queue <- Message{req, 0}
	time.Sleep(20 * time.Millisecond)
	q.Stop()
	time.Sleep(150 * time.Millisecond)
	select {
	case <-q.Queue:
		t.Fatal("a retry goroutine was still blocked sending to the stopped queue")
	default:
	}
}
