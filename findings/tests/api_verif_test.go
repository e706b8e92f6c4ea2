package api

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

// F01: an ACL that lists only CIDR ranges must still restrict access.
func TestF01CIDROnlyACL(t *testing.T) {
	f, err := NewIPFilter("10.0.0.0/8")
	if err != nil {
		t.Fatal(err)
	}
	rr := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/", nil)
	req.RemoteAddr = "192.0.2.1:4000"
	f.Wrap(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) })(rr, req)
	if rr.Code != 401 {
		t.Fatalf("client outside the CIDR got %d", rr.Code)
	}
}

// F02: an allowed IPv6 client must get through.
func TestF02IPv6Client(t *testing.T) {
	f, err := NewIPFilter("2001:db8::1")
	if err != nil {
		t.Fatal(err)
	}
	rr := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/", nil)
	req.RemoteAddr = "[2001:db8::1]:4000"
	f.Wrap(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) })(rr, req)
	if rr.Code != 200 {
		t.Fatalf("allowed IPv6 client got %d", rr.Code)
	}
}

// A client can send a listed address on a line of its own.
func TestF58ForwardedForLines(t *testing.T) {
	f, _ := NewIPFilter("10.0.0.1")
	r := httptest.NewRequest("GET", "/", nil)
	r.Header["X-Forwarded-For"] = []string{"10.0.0.1", "6.6.6.6"}
	w := httptest.NewRecorder()
	f.Wrap(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) })(w, r)
	if w.Code != http.StatusUnauthorized {
		t.Fatalf("answered with %d", w.Code)
	}
}
