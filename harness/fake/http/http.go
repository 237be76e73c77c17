// Package http stands in for net/http in generated code: one process, no network. What a client sends is what the
// server's handler gets, with the URL taken apart and decoded as net/http does, and the other way round.
package http

import (
	"errors"
	"io"
	"net/url"

	rt "github.com/boynton/sadl/zzrt"
)

const TimeFormat = "Mon, 02 Jan 2006 15:04:05 GMT"

type Header map[string][]string

func CanonicalHeaderKey(k string) string {
	b := []byte(k)
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

func (h Header) Add(k, v string) {
	k = CanonicalHeaderKey(k)
	h[k] = append(h[k], v)
}
func (h Header) Set(k, v string) { h[CanonicalHeaderKey(k)] = []string{v} }
func (h Header) Get(k string) string {
	if v := h[CanonicalHeaderKey(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}

type ResponseWriter interface {
	Header() Header
	Write([]byte) (int, error)
	WriteHeader(status int)
}

type Handler interface {
	ServeHTTP(ResponseWriter, *Request)
}

type HandlerFunc func(ResponseWriter, *Request)

func (f HandlerFunc) ServeHTTP(w ResponseWriter, r *Request) { f(w, r) }

type Request struct {
	Method string
	URL    *url.URL
	Header Header
	Body   io.ReadCloser
	Form   url.Values
	Target string            // as the client gave it
	Vars   map[string]string // what mux.Vars gives
}

type Response struct {
	Status     string
	StatusCode int
	Header     Header
	Body       io.ReadCloser
}

type body struct {
	b []byte
}

func (r *body) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
func (r *body) Close() error { return nil }

// Text is a body with the text given
func Text(s string) io.ReadCloser { return &body{[]byte(s)} }

type nopCloser struct{ io.Reader }

func (nopCloser) Close() error { return nil }

func hex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	}
	return 0, false
}

func decode(s string, query bool) (string, error) {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if rt.Fork(c == '%') {
			if i+2 >= len(s) {
				return "", errors.New("invalid URL escape")
			}
			h, ok1 := hex(s[i+1])
			l, ok2 := hex(s[i+2])
			if !ok1 || !ok2 {
				return "", errors.New("invalid URL escape")
			}
			b = append(b, h<<4|l)
			i += 2
			continue
		}
		if query && rt.Fork(c == '+') {
			c = ' '
		}
		b = append(b, c)
	}
	return string(b), nil
}

func index(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if rt.Fork(s[i] == c) {
			return i
		}
	}
	return -1
}

func NewRequest(method, target string, b io.Reader) (*Request, error) {
	for i := 0; i < len(target); i++ {
		if rt.Fork(rt.Or(target[i] <= ' ', target[i] == 0x7f)) {
			return nil, errors.New("invalid character in URL")
		}
	}
	r := &Request{Method: method, Header: Header{}, Target: target}
	if b != nil {
		r.Body = nopCloser{b}
	}
	const scheme = "http://"
	if len(target) < len(scheme) || target[:len(scheme)] != scheme {
		return nil, errors.New("unsupported protocol scheme")
	}
	rest := target[len(scheme):]
	if i := index(rest, '#'); i >= 0 {
		rest = rest[:i]
	}
	u := &url.URL{Scheme: "http"}
	if i := index(rest, '?'); i >= 0 {
		u.RawQuery = rest[i+1:]
		rest = rest[:i]
	}
	if i := index(rest, '/'); i >= 0 {
		p, err := decode(rest[i:], false)
		if err != nil {
			return nil, err
		}
		u.Path = p
		rest = rest[:i]
	}
	u.Host = rest
	r.URL = u
	return r, nil
}

func (r *Request) ParseForm() error {
	r.Form = url.Values{}
	q := r.URL.RawQuery
	for q != "" {
		part := q
		if i := index(q, '&'); i >= 0 {
			part, q = q[:i], q[i+1:]
		} else {
			q = ""
		}
		if part == "" {
			continue
		}
		k, v := part, ""
		if i := index(part, '='); i >= 0 {
			k, v = part[:i], part[i+1:]
		}
		k, err := decode(k, true)
		if err != nil {
			return err
		}
		v, err = decode(v, true)
		if err != nil {
			return err
		}
		r.Form[k] = append(r.Form[k], v)
	}
	return nil
}

// Serving is the handler all requests go to
var Serving Handler

// Last is the last request a client sent, and Exchanges how many there were
var Last *Request
var Exchanges int

type Client struct{}

var DefaultClient = &Client{}

type recorder struct {
	status int
	sent   Header
	header Header
	body   []byte
}

func (w *recorder) Header() Header { return w.header }
func (w *recorder) WriteHeader(status int) {
	if w.status != 0 {
		return
	}
	w.status = status
	w.sent = Header{} // later changes are not sent
	for k, v := range w.header {
		w.sent[k] = v
	}
}
func (w *recorder) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if w.status == 204 || w.status == 304 || w.status < 200 {
		return 0, errors.New("http: request method or response status code does not allow body")
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// Serve gives a request to the server, and returns what it answers
func Serve(r *Request) *Response {
	if r.Body == nil {
		r.Body = Text("")
	}
	w := &recorder{header: Header{}}
	Serving.ServeHTTP(w, r)
	if w.status == 0 {
		w.WriteHeader(200)
	}
	return &Response{StatusCode: w.status, Header: w.sent, Body: &body{w.body}}
}

func (c *Client) Do(r *Request) (*Response, error) {
	Last = r
	Exchanges++
	return Serve(r), nil
}

func StatusText(code int) string {
	switch code {
	case 200:
		return "OK"
	case 400:
		return "Bad Request"
	case 404:
		return "Not Found"
	case 405:
		return "Method Not Allowed"
	case 500:
		return "Internal Server Error"
	}
	return ""
}
