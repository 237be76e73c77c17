package http

import (
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"time"
)

// What programs that serve need; ListenAndServe gives the handler to Listening, and ends with what that returns.

const (
	MethodGet  = "GET"
	MethodHead = "HEAD"

	StatusOK                  = 200
	StatusBadRequest          = 400
	StatusBadGateway          = 502
	StatusServiceUnavailable  = 503
	StatusNotFound            = 404
	StatusMethodNotAllowed    = 405
	StatusInternalServerError = 500
)

func (h Header) Del(k string) { delete(h, CanonicalHeaderKey(k)) }

var Listening func(addr string, h Handler) error

type ServeMux struct {
	patterns []string
	handlers []Handler
}

var DefaultServeMux = &ServeMux{}

func NewServeMux() *ServeMux { return &ServeMux{} }

func (m *ServeMux) Handle(pattern string, h Handler) {
	for _, p := range m.patterns {
		if p == pattern {
			panic("http: multiple registrations for " + pattern)
		}
	}
	m.patterns = append(m.patterns, pattern)
	m.handlers = append(m.handlers, h)
}
func (m *ServeMux) HandleFunc(pattern string, f func(ResponseWriter, *Request)) {
	m.Handle(pattern, HandlerFunc(f))
}
func (m *ServeMux) ServeHTTP(w ResponseWriter, r *Request) {
	best := -1
	for i, p := range m.patterns {
		if r.URL.Path == p || strings.HasSuffix(p, "/") && strings.HasPrefix(r.URL.Path, p) {
			if best < 0 || len(p) > len(m.patterns[best]) {
				best = i
			}
		}
	}
	if best < 0 {
		NotFound(w, r)
		return
	}
	m.handlers[best].ServeHTTP(w, r)
}

func Handle(pattern string, h Handler) { DefaultServeMux.Handle(pattern, h) }
func HandleFunc(pattern string, f func(ResponseWriter, *Request)) {
	DefaultServeMux.HandleFunc(pattern, f)
}

func ListenAndServe(addr string, h Handler) error {
	if h == nil {
		h = DefaultServeMux
	}
	return Listening(addr, h)
}

func NotFound(w ResponseWriter, r *Request) { Error(w, "404 page not found", 404) }
func Error(w ResponseWriter, msg string, code int) {
	w.Header().Set("Content-Type", "text/plain; charset=utf-8")
	w.WriteHeader(code)
	fmt.Fprintln(w, msg)
}

// Remote answers what is asked for with Get
var Remote func(url string) (*Response, error)

func Get(u string) (*Response, error) {
	if Remote == nil {
		return nil, errors.New("no network")
	}
	return Remote(u)
}

// Yield is called where another request may go on; Chunk is how much is sent at once
var Yield = func() {}
var Chunk = 32 * 1024

// ServeContent finds the size with a seek to the end, goes back to the start and sends what it reads, as net/http does
func ServeContent(w ResponseWriter, r *Request, name string, modtime time.Time, content io.ReadSeeker) {
	Yield()
	size, err := content.Seek(0, io.SeekEnd)
	if err == nil {
		Yield()
		_, err = content.Seek(0, io.SeekStart)
	}
	if err != nil {
		Error(w, "seeker can't seek", 500)
		return
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 && w.Header().Get("Content-Type") == "" {
		switch name[i:] {
		case ".json":
			w.Header().Set("Content-Type", "application/json")
		case ".html":
			w.Header().Set("Content-Type", "text/html; charset=utf-8")
		case ".js":
			w.Header().Set("Content-Type", "text/javascript; charset=utf-8")
		case ".css":
			w.Header().Set("Content-Type", "text/css; charset=utf-8")
		}
	}
	w.Header().Set("Content-Length", fmt.Sprint(size))
	w.WriteHeader(200)
	buf := make([]byte, Chunk)
	for size > 0 {
		Yield()
		p := buf
		if int64(len(p)) > size {
			p = p[:size]
		}
		n, err := content.Read(p)
		if n > 0 {
			if _, err := w.Write(p[:n]); err != nil {
				return
			}
			size -= int64(n)
		}
		if err != nil {
			return
		}
	}
}

// Ask gives a request for the path to the handler, and returns what it answers
func Ask(h Handler, path string) (status int, header Header, text string) {
	w := &recorder{header: Header{}}
	h.ServeHTTP(w, &Request{Method: "GET", URL: &url.URL{Path: path}, Header: Header{}, Body: Text("")})
	if w.status == 0 {
		w.WriteHeader(200)
	}
	return w.status, w.sent, string(w.body)
}

type Server struct {
	Addr                                                      string
	Handler                                                   Handler
	ReadTimeout, WriteTimeout, IdleTimeout, ReadHeaderTimeout time.Duration
}

func (s *Server) ListenAndServe() error { return ListenAndServe(s.Addr, s.Handler) }
func (s *Server) Close() error          { return nil }

func (c *Client) Get(u string) (*Response, error) { return Get(u) }
