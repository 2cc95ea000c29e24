// Package mux is a stand-in for github.com/gorilla/mux, which is not
// available offline: exact paths, optional methods.
package mux

import "net/http"

// Router dispatches on the path.
type Router struct {
	routes          []*Route
	NotFoundHandler http.Handler
}

// Route is one registered path.
type Route struct {
	path    string
	methods []string
	h       http.Handler
}

// NewRouter makes a router.
func NewRouter() *Router { return &Router{} }

// NewRoute adds an empty route.
func (r *Router) NewRoute() *Route {
	rt := &Route{}
	r.routes = append(r.routes, rt)
	return rt
}

// Path adds a route for a path.
func (r *Router) Path(p string) *Route { return r.NewRoute().Path(p) }

// HandleFunc adds a route.
func (r *Router) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Path(p).HandlerFunc(f)
}

// Handle adds a route.
func (r *Router) Handle(p string, h http.Handler) *Route { return r.Path(p).Handler(h) }

// Methods adds a route for methods.
func (r *Router) Methods(ms ...string) *Route { return r.NewRoute().Methods(ms...) }

// Path sets the path.
func (rt *Route) Path(p string) *Route { rt.path = p; return rt }

// Methods restricts the methods.
func (rt *Route) Methods(ms ...string) *Route { rt.methods = append(rt.methods, ms...); return rt }

// HandlerFunc sets the handler.
func (rt *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	rt.h = http.HandlerFunc(f)
	return rt
}

// Handler sets the handler.
func (rt *Route) Handler(h http.Handler) *Route { rt.h = h; return rt }

// Name is accepted and ignored.
func (rt *Route) Name(string) *Route { return rt }

// ServeHTTP implements http.Handler: the first route that matches serves the request.
func (r *Router) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	bad := false
	for _, rt := range r.routes {
		if rt.h == nil || rt.path != "" && rt.path != q.URL.Path {
			continue
		}
		ok := len(rt.methods) == 0
		for _, m := range rt.methods {
			ok = ok || m == q.Method
		}
		if !ok {
			bad = true
			continue
		}
		rt.h.ServeHTTP(w, q)
		return
	}
	if bad {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, q)
		return
	}
	http.NotFound(w, q)
}
