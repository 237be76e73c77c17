// Package mux stands in for gorilla/mux: routes are tried in order, a part of a route in braces takes one
// part of the path that is not empty, and a path that only other methods have gets a 405.
package mux

import (
	"github.com/boynton/sadl/zzh/fake/http"
)

type Route struct {
	path    []string
	methods []string
	f       func(http.ResponseWriter, *http.Request)
}

type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

func NewRouter() *Router { return &Router{} }

func split(p string) []string {
	var r []string
	j := 0
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			r = append(r, p[j:i])
			j = i + 1
		}
	}
	return append(r, p[j:])
}

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	x := &Route{path: split(path), f: f}
	for _, s := range x.path {
		for i := 0; i < len(s); i++ {
			if (s[i] == '{') != (i == 0 && s[len(s)-1] == '}') && (s[i] == '{' || i == 0 && s[len(s)-1] == '}') {
				panic("mux: a route that is not supported here: " + path)
			}
		}
	}
	r.routes = append(r.routes, x)
	return x
}

func (x *Route) Methods(m ...string) *Route {
	x.methods = append(x.methods, m...)
	return x
}

func (x *Route) match(parts []string) (map[string]string, bool) {
	if len(parts) != len(x.path) {
		return nil, false
	}
	vars := map[string]string{}
	for i, s := range x.path {
		if len(s) > 2 && s[0] == '{' {
			if parts[i] == "" {
				return nil, false
			}
			vars[s[1:len(s)-1]] = parts[i]
		} else if s != parts[i] {
			return nil, false
		}
	}
	return vars, true
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	parts := split(req.URL.Path)
	other := false
	for _, x := range r.routes {
		vars, ok := x.match(parts)
		if !ok {
			continue
		}
		for _, m := range x.methods {
			if m == req.Method {
				req.Vars = vars
				x.f(w, req)
				return
			}
		}
		if len(x.methods) == 0 {
			req.Vars = vars
			x.f(w, req)
			return
		}
		other = true
	}
	if other {
		w.WriteHeader(405)
		return
	}
	r.NotFoundHandler.ServeHTTP(w, req)
}

func Vars(r *http.Request) map[string]string { return r.Vars }
