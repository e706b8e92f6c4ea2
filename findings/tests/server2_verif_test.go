package server

import (
	"net/http"

	"github.com/kacheio/kache/pkg/cluster"
)

type rec struct{ path string }

func (r *rec) Endpoints(string) []cluster.Endpoint                { return nil }
func (r *rec) Broadcast(_ *http.Request, _, _ string, path string) { r.path = path }
func (r *rec) Close()                                             {}
