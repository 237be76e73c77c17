package c31

import (
	"errors"
	"net/url"

	"github.com/boynton/sadl/zzg/svc"
	"github.com/boynton/sadl/zzg/two"
	"github.com/boynton/sadl/zzh/fake/http"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound the fixture service of harness/c31/gen: 8 actions, all of GET PUT POST DELETE PATCH, path, query and header parameters of String, integer, UUID and Timestamp types and named types of these, with and without defaults, struct, array and plain bodies, header outputs, shared and separate exceptions
//verif:bound every request and response with strings of 0..2 symbolic bytes from an alphabet with the characters URLs and JSON escape, integers of -12..12 (thorough: -99..99 everywhere); base URLs with and without a path; every undeclared path and method of up to 3 parts
//verif:assume net/http and gorilla/mux behave as the stand-ins in harness/fake do; a path parameter is not empty and has no slash; a header value has no line break

const text = "a/ %\"&+=?\\"
const seg = "a %\"&+=?"
const word = "ab"

// impl records what the server passes on, and answers what the harness says
type impl struct {
	calls []string
	req   interface{}
	res   interface{}
	err   error
}

func (s *impl) call(name string, req interface{}) {
	s.calls = append(s.calls, name)
	s.req = req
}

func (s *impl) GetItem(req *svc.GetItemRequest) (*svc.GetItemResponse, error) {
	s.call("GetItem", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.GetItemResponse), nil
}
func (s *impl) PutItem(req *svc.PutItemRequest) (*svc.PutItemResponse, error) {
	s.call("PutItem", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.PutItemResponse), nil
}
func (s *impl) AddItem(req *svc.AddItemRequest) (*svc.AddItemResponse, error) {
	s.call("AddItem", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.AddItemResponse), nil
}
func (s *impl) DeleteItem(req *svc.DeleteItemRequest) (*svc.DeleteItemResponse, error) {
	s.call("DeleteItem", req)
	if s.err != nil {
		return nil, s.err
	}
	return &svc.DeleteItemResponse{}, nil
}
func (s *impl) ListItems(req *svc.ListItemsRequest) (*svc.ListItemsResponse, error) {
	s.call("ListItems", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.ListItemsResponse), nil
}
func (s *impl) Part(req *svc.PartRequest) (*svc.PartResponse, error) {
	s.call("Part", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.PartResponse), nil
}
func (s *impl) PatchKey(req *svc.PatchKeyRequest) (*svc.PatchKeyResponse, error) {
	s.call("PatchKey", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*svc.PatchKeyResponse), nil
}
func (s *impl) Since(req *svc.SinceRequest) (*svc.SinceResponse, error) {
	s.call("Since", req)
	if s.err != nil {
		return nil, s.err
	}
	return &svc.SinceResponse{}, nil
}

var bases = []string{"http://h", "http://h:80/", "http://h/v1", "http://h/v1/"}

func serve() (*impl, *svc.SvcClient) { return serveAt(bases[2]) }

func serveAt(b string) (*impl, *svc.SvcClient) {
	s := &impl{}
	http.Serving = svc.InitServer(s, b)
	http.Exchanges = 0
	if b[len(b)-1] == '/' {
		b = b[:len(b)-1]
	}
	c, err := svc.NewClient(b)
	rt.Assert(err == nil && c != nil, "a client is made")
	return s, c
}

func (s *impl) once(name string) bool {
	ok := len(s.calls) == 1 && s.calls[0] == name
	rt.Assert(ok, "the server calls the action that was asked for, once")
	return ok
}

func item(n string, depth int) *svc.Item {
	i := &svc.Item{Id: rt.StrN(n+" id", 0, 2, text), N: small(n + " n"), Color: []svc.Color{svc.RED, svc.BLUE}[rt.Choice(n+" color", 2)]}
	if depth > 0 && rt.Choice(n+" next", 2) == 1 {
		i.Next = &svc.Item{Id: "x", N: 5, Color: svc.RED}
	}
	return i
}

func sameItem(a, b *svc.Item) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return rt.And(a.Id == b.Id, a.N == b.N, a.Color == b.Color, sameItem(a.Next, b.Next))
}

func small(n string) int32 {
	if rt.Thorough() {
		return rt.Int32(n, -99, 99)
	}
	return []int32{0, 5, -120}[rt.Choice(n, 3)]
}

// digit is a symbolic number
func digit(n string) int32 {
	return rt.Int32(n, -12, 12)
}

func V_GetItem() {
	s, c := serve()
	req := &svc.GetItemRequest{Id: rt.StrN("id", 1, 2, seg), Limit: small("limit"), Off: svc.Name(rt.StrN("off", 0, 1, text)), Trace: rt.StrN("trace", 0, 1, text)}
	res := &svc.GetItemResponse{Item: &svc.Item{Id: "i", N: 1, Color: svc.BLUE}, Tag: rt.StrN("tag", 0, 1, text)}
	s.res = res
	got, err := c.GetItem(req)
	if !s.once("GetItem") {
		return
	}
	r := s.req.(*svc.GetItemRequest)
	limit, off := req.Limit, req.Off
	if limit == 0 {
		limit = 7
	}
	if off == "" {
		off = "start"
	}
	rt.Assert(r.Id == req.Id, "a path parameter arrives")
	rt.Assert(r.Limit == limit, "a query parameter arrives, or its default")
	rt.Assert(r.Off == off, "a query parameter arrives, or its default")
	rt.Assert(r.Trace == req.Trace, "a header parameter arrives")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got != nil {
		rt.Assert(rt.And(sameItem(got.Item, res.Item), got.Tag == res.Tag), "the response comes back with its entity and its headers")
	}
}

func V_PutItem() {
	s, c := serve()
	req := &svc.PutItemRequest{Id: svc.Name(rt.StrN("id", 1, 1, seg))}
	if rt.Choice("item given", 2) == 1 {
		req.Item = item("item", 1)
	}
	res := &svc.PutItemResponse{}
	if rt.Choice("old given", 2) == 1 {
		res.Old = &svc.Item{Id: rt.StrN("old id", 0, 1, text), Color: svc.RED}
	}
	s.res = res
	got, err := c.PutItem(req)
	if !s.once("PutItem") {
		return
	}
	rt.Assert(http.Last.Header.Get("Content-Type") == "application/json", "a request with a body says that it is JSON")
	r := s.req.(*svc.PutItemRequest)
	rt.Assert(r.Id == req.Id, "a path parameter arrives")
	rt.Assert(sameItem(r.Item, req.Item), "a body arrives")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got != nil {
		rt.Assert(sameItem(got.Old, res.Old), "the response comes back with its entity and its headers")
	}
}

func V_AddItem() {
	s, c := serve()
	req := &svc.AddItemRequest{Item: item("item", 0), Count: svc.Count(small("count"))}
	res := &svc.AddItemResponse{Location: svc.Name(rt.StrN("location", 0, 1, text)), Item: &svc.Item{Id: "q", Color: svc.RED}}
	s.res = res
	got, err := c.AddItem(req)
	if !s.once("AddItem") {
		return
	}
	rt.Assert(http.Last.Header.Get("Content-Type") == "application/json", "a request with a body says that it is JSON")
	r := s.req.(*svc.AddItemRequest)
	rt.Assert(sameItem(r.Item, req.Item), "a body arrives")
	rt.Assert(r.Count == req.Count, "a header parameter arrives")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got != nil {
		rt.Assert(rt.And(sameItem(got.Item, res.Item), got.Location == res.Location), "the response comes back with its entity and its headers")
	}
}

func V_DeleteItem() {
	s, c := serveAt(bases[rt.Choice("base", len(bases))])
	req := &svc.DeleteItemRequest{Id: rt.StrN("id", 1, 2, seg), Match: svc.Name(rt.StrN("match", 0, 1, text))}
	got, err := c.DeleteItem(req)
	if !s.once("DeleteItem") {
		return
	}
	r := s.req.(*svc.DeleteItemRequest)
	rt.Assert(rt.And(r.Id == req.Id, r.Match == req.Match), "path and header parameters arrive")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
}

func V_ListItems() {
	s, c := serve()
	req := &svc.ListItemsRequest{N: int64(small("n")), Nn: svc.Count(small("nn"))}
	res := &svc.ListItemsResponse{}
	for i := rt.Choice("items", 3); i > 0; i-- {
		res.Items = append(res.Items, &svc.Item{Id: rt.StrN("id", 0, 1, text), Color: svc.RED})
	}
	s.res = res
	got, err := c.ListItems(req)
	if !s.once("ListItems") {
		return
	}
	r := s.req.(*svc.ListItemsRequest)
	nn := req.Nn
	if nn == 0 {
		nn = 3
	}
	rt.Assert(rt.And(r.N == req.N, r.Nn == nn), "a query parameter arrives, or its default")
	rt.Assert(err == nil && got != nil && len(got.Items) == len(res.Items), "an expected response is no error")
	if got != nil && len(got.Items) == len(res.Items) {
		for i := range got.Items {
			rt.Assert(sameItem(got.Items[i], res.Items[i]), "the response comes back with its entity and its headers")
		}
	}
}

func V_Part() {
	s, c := serve()
	req := &svc.PartRequest{Id: "a"}
	if rt.Choice("symbolic", 2) == 0 {
		req.Id = rt.StrN("id", 1, 2, seg)
		req.Idx = small("idx")
	} else {
		req.Idx = digit("idx")
	}
	res := &svc.PartResponse{Text: rt.StrN("text", 0, 1, text)}
	s.res = res
	got, err := c.Part(req)
	if !s.once("Part") {
		return
	}
	r := s.req.(*svc.PartRequest)
	rt.Assert(rt.And(r.Id == req.Id, r.Idx == req.Idx), "a path parameter arrives")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got != nil {
		rt.Assert(got.Text == res.Text, "the response comes back with its entity and its headers")
	}
}

func V_PatchKey() {
	s, c := serve()
	req := &svc.PatchKeyRequest{Key: svc.Key(rt.StrN("key", 1, 1, word))}
	for i := rt.Choice("names", 3); i > 0; i-- {
		req.Names = append(req.Names, svc.Name(rt.StrN("name", 0, 1, text)))
	}
	res := &svc.PatchKeyResponse{Size: small("size"), Key: svc.Key(rt.StrN("new key", 0, 1, word))}
	s.res = res
	got, err := c.PatchKey(req)
	if !s.once("PatchKey") {
		return
	}
	rt.Assert(http.Last.Header.Get("Content-Type") == "application/json", "a request with a body says that it is JSON")
	r := s.req.(*svc.PatchKeyRequest)
	rt.Assert(r.Key == req.Key, "a path parameter arrives")
	rt.Assert(len(r.Names) == len(req.Names), "a body arrives")
	if len(r.Names) == len(req.Names) {
		for i := range r.Names {
			rt.Assert(r.Names[i] == req.Names[i], "a body arrives")
		}
	}
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got != nil {
		rt.Assert(rt.And(got.Size == res.Size, got.Key == res.Key), "the response comes back with its entity and its headers")
	}
}

func V_Since() {
	s, c := serve()
	req := &svc.SinceRequest{}
	if rt.Choice("t", 2) == 1 {
		req.T = svc.TimestampFromString("2020-01-02T03:04:05.678Z")
	}
	if rt.Choice("u", 2) == 1 {
		req.U = svc.TimestampFromString("1999-12-31T23:59:59Z")
	}
	got, err := c.Since(req)
	if !s.once("Since") {
		return
	}
	r := s.req.(*svc.SinceRequest)
	same := func(a, b *svc.Timestamp) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return a.String() == b.String()
	}
	rt.Assert(same(r.T, req.T), "a query parameter arrives, or its default")
	rt.Assert(same(r.U, req.U), "a header parameter arrives")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
}

func V_Exceptions() {
	s, c := serve()
	k := rt.Choice("exception", 3)
	msg := rt.StrN("message", 0, 2, text)
	code := small("code")
	switch k {
	case 0:
		s.err = &svc.NotFound{Message: msg}
	case 1:
		s.err = &svc.Conflict{Code: code}
	case 2:
		s.err = errors.New(msg)
	}
	var err error
	var declared bool
	var none bool
	switch rt.Choice("action", 4) {
	case 0:
		var r *svc.GetItemResponse
		r, err = c.GetItem(&svc.GetItemRequest{Id: "a"})
		none = r == nil
		declared = k < 2
	case 1:
		var r *svc.PutItemResponse
		r, err = c.PutItem(&svc.PutItemRequest{Id: "a"})
		none = r == nil
		declared = k == 1
	case 2:
		var r *svc.DeleteItemResponse
		r, err = c.DeleteItem(&svc.DeleteItemRequest{Id: "a"})
		none = r == nil
		declared = k == 0
	case 3:
		var r *svc.ListItemsResponse
		r, err = c.ListItems(&svc.ListItemsRequest{})
		none = r == nil
	}
	rt.Assert(len(s.calls) == 1, "the server calls the action that was asked for, once")
	rt.Assert(err != nil && none, "an exception is an error at the client, without a response")
	nf, isNF := err.(*svc.NotFound)
	cf, isCF := err.(*svc.Conflict)
	if !declared {
		rt.Assert(!isNF && !isCF, "an exception that is not declared never comes back as a declared one")
		return
	}
	switch k {
	case 0:
		rt.Assert(isNF && nf.Message == msg, "a declared exception comes back with its type and content")
	case 1:
		rt.Assert(isCF && cf.Code == code, "a declared exception comes back with its type and content")
	}
}

func V_Status() {
	s := &impl{}
	http.Serving = svc.InitServer(s, "http://h")
	k := rt.Choice("exception", 4)
	switch k {
	case 0:
		s.res = &svc.GetItemResponse{Item: &svc.Item{Id: "x", Color: svc.RED}}
	case 1:
		s.err = &svc.NotFound{}
	case 2:
		s.err = &svc.Conflict{}
	case 3:
		s.err = errors.New("x")
	}
	r := request("GET", "/items/a", "")
	res := http.Serve(r)
	rt.Assert(res.StatusCode == []int{200, 404, 409, 500}[k], "a response has the status of the expected response or of the exception")
	rt.Assert(res.Header.Get("Content-Type") == "application/json", "a response says that it is JSON")
	s.err = nil
	s.res = &svc.AddItemResponse{}
	rt.Assert(http.Serve(request("POST", "/items", "{\"id\":\"a\"}")).StatusCode == 201, "a response has the status of the expected response or of the exception")
	rt.Assert(http.Serve(request("DELETE", "/items/a", "")).StatusCode == 204, "a response has the status of the expected response or of the exception")
}

func request(method, path, body string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Body: http.Text(body)}
}

// V_Raw: requests that no generated client makes
func V_Raw() {
	s := &impl{}
	http.Serving = svc.InitServer(s, "http://h/v1")
	verbs := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD"}
	m := verbs[rt.Choice("method", len(verbs))]
	var parts []string
	p := ""
	for i := rt.Choice("parts", 5); i > 0; i-- {
		x := []string{"v1", "items", "keys", "since", "parts", "7"}[rt.Choice("part", 6)]
		parts = append(parts, x)
		p += "/" + x
	}
	s.err = errors.New("x")
	res := http.Serve(request(m, p, "{}"))
	n := len(parts)
	want := ""
	is := func(l ...string) bool {
		if len(l) != n {
			return false
		}
		for i := range l {
			if l[i] != "*" && l[i] != parts[i] {
				return false
			}
		}
		return true
	}
	switch {
	case m == "GET" && is("v1", "items"):
		want = "ListItems"
	case m == "POST" && is("v1", "items"):
		want = "AddItem"
	case m == "GET" && is("v1", "items", "*"):
		want = "GetItem"
	case m == "PUT" && is("v1", "items", "*"):
		want = "PutItem"
	case m == "DELETE" && is("v1", "items", "*"):
		want = "DeleteItem"
	case m == "PATCH" && is("v1", "keys", "*"):
		want = "PatchKey"
	case m == "GET" && is("v1", "since"):
		want = "Since"
	case m == "GET" && is("v1", "items", "*", "parts", "*"):
		want = "Part"
	}
	if want == "PatchKey" {
		rt.Assert(len(s.calls) == 0 && res.StatusCode == 400, "a body that cannot be read is a bad request, and no action is called")
	} else if want != "" {
		rt.Assert(len(s.calls) == 1 && s.calls[0] == want && res.StatusCode == 500, "each method and path calls its action")
		rt.Reach("routed")
	} else {
		rt.Assert(len(s.calls) == 0 && (res.StatusCode == 404 || res.StatusCode == 405), "what is not declared is not found, and no action is called")
		rt.Reach("not found")
	}
}

// V_Query: values that are not numbers, and parameters given more than once
func V_Query() {
	s := &impl{}
	http.Serving = svc.InitServer(s, "http://h")
	s.res = &svc.GetItemResponse{Item: &svc.Item{Color: svc.RED}}
	v := rt.StrN("limit", 0, 3, "10-a")
	r := request("GET", "/items/a", "")
	r.URL.RawQuery = "lim=" + v + "&x=y"
	if rt.Choice("upper", 2) == 1 {
		r.Header.Set("x-TRACE", "t")
	}
	http.Serve(r)
	if !s.once("GetItem") {
		return
	}
	q := s.req.(*svc.GetItemRequest)
	want := int32(7)
	n, digits, neg := int32(0), 0, false
	ok := true
	for i := 0; i < len(v); i++ {
		switch {
		case v[i] == '-' && i == 0:
			neg = true
		case v[i] == '0' || v[i] == '1':
			n = n*10 + int32(v[i]-'0')
			digits++
		default:
			ok = false
		}
	}
	if ok && digits > 0 {
		want = n
		if neg {
			want = -n
		}
	}
	rt.Assert(q.Limit == want, "a number that cannot be read counts as not given")
	rt.Assert(q.Off == "start" && q.Id == "a", "a query parameter arrives, or its default")
}

func V_BadBody() {
	s := &impl{}
	http.Serving = svc.InitServer(s, "http://h")
	s.res = &svc.AddItemResponse{}
	b := rt.StrN("body", 0, 3, "{}[1\"a")
	res := http.Serve(request("POST", "/items", b))
	if len(s.calls) == 0 {
		rt.Assert(res.StatusCode == 400, "a body that cannot be read is a bad request, and no action is called")
		rt.Assert(b != "{}" && b != "{}{", "a body that can be read is passed on")
	} else {
		rt.Assert(s.once("AddItem") && res.StatusCode == 201, "a body that can be read is passed on")
		rt.Assert(len(b) >= 2 && b[0] == '{' && b[1] == '}', "a body that cannot be read is a bad request, and no action is called")
	}
}

type impl2 struct {
	calls []string
	req   interface{}
	res   interface{}
	err   error
}

func (s *impl2) call(name string, req interface{}) {
	s.calls = append(s.calls, name)
	s.req = req
}

func (s *impl2) Mixed(req *two.MixedRequest) (*two.MixedResponse, error) {
	s.call("Mixed", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*two.MixedResponse), nil
}
func (s *impl2) Counts(req *two.CountsRequest) (*two.CountsResponse, error) {
	s.call("Counts", req)
	return s.res.(*two.CountsResponse), nil
}
func (s *impl2) Literal(req *two.LiteralRequest) (*two.LiteralResponse, error) {
	s.call("Literal", req)
	if s.err != nil {
		return nil, s.err
	}
	return s.res.(*two.LiteralResponse), nil
}
func (s *impl2) Variable(req *two.VariableRequest) (*two.VariableResponse, error) {
	s.call("Variable", req)
	return s.res.(*two.VariableResponse), nil
}
func (s *impl2) When(req *two.WhenRequest) (*two.WhenResponse, error) {
	s.call("When", req)
	return s.res.(*two.WhenResponse), nil
}
func (s *impl2) Late(req *two.LateRequest) (*two.LateResponse, error) {
	s.call("Late", req)
	return s.res.(*two.LateResponse), nil
}

func (s *impl2) NoBody(req *two.NoBodyRequest) (*two.NoBodyResponse, error) {
	s.call("NoBody", req)
	return &two.NoBodyResponse{}, nil
}

func (s *impl2) TagOnly(req *two.TagOnlyRequest) (*two.TagOnlyResponse, error) {
	s.call("TagOnly", req)
	return s.res.(*two.TagOnlyResponse), nil
}

func serve2() (*impl2, *two.TwoClient) {
	s := &impl2{}
	http.Serving = two.InitServer(s, "http://h/base/v2/")
	c, err := two.NewClient("http://h/base/v2")
	rt.Assert(err == nil && c != nil, "a client is made")
	return s, c
}

func (s *impl2) once(name string) bool {
	ok := len(s.calls) == 1 && s.calls[0] == name
	rt.Assert(ok, "the server calls the action that was asked for, once")
	return ok
}

func stamp(n string) *two.Timestamp {
	return []*two.Timestamp{nil, two.TimestampFromString("2020-02-29T23:59:59.5Z"), two.TimestampFromString("1999-01-01T00:00:00.123Z")}[rt.Choice(n, 3)]
}

func show(t *two.Timestamp) string {
	if t == nil {
		return "none"
	}
	return t.String()
}

func V_Mixed() {
	s, c := serve2()
	req := &two.MixedRequest{Body: &two.A{A: "z"}, A: "y"}
	res := &two.MixedResponse{}
	if rt.Choice("vary", 2) == 0 {
		req = &two.MixedRequest{Body: &two.A{A: rt.StrN("body", 0, 1, text)}, Q: rt.StrN("q", 0, 1, text), A: rt.StrN("a", 1, 1, seg), B: []int64{0, -1, 1 << 40}[rt.Choice("b", 3)], One: []int8{0, 100, -128}[rt.Choice("one", 3)], Id: rt.StrN("id", 0, 1, word)}
	} else {
		res = &two.MixedResponse{Total: []int64{0, -4, 1 << 40}[rt.Choice("total", 3)], When: stamp("when"), At: stamp("at")}
	}
	s.res = res
	got, err := c.Mixed(req)
	if !s.once("Mixed") {
		return
	}
	r := s.req.(*two.MixedRequest)
	q, one, id := req.Q, req.One, req.Id
	if q == "" {
		q = "say \"hi\" \\"
	}
	if one == 0 {
		one = 12
	}
	if id == "" {
		id = "a-b"
	}
	rt.Assert(r.Body != nil && r.Body.A == req.Body.A, "a body arrives")
	rt.Assert(rt.And(r.A == req.A, r.B == req.B), "a path parameter arrives")
	rt.Assert(r.Q == q, "a query parameter arrives, or its default")
	rt.Assert(rt.And(r.One == one, r.Id == id), "a header parameter arrives, or its default")
	rt.Assert(err == nil && got != nil, "an expected response is no error")
	if got == nil {
		return
	}
	rt.Assert(got.Total == res.Total && show(got.At) == show(res.At), "the response comes back with its entity and its headers")
	want := show(res.When)
	if res.When != nil {
		want = want[:len(want)-4] + "000Z" // HTTP dates have no fractions
	}
	rt.Assert(show(got.When) == want, "the response comes back with its entity and its headers")
}

func V_Exceptions2() {
	s, c := serve2()
	k := rt.Choice("exception", 4)
	msg := rt.StrN("message", 0, 2, text)
	switch k {
	case 0:
		s.err = &two.E1{X: msg}
	case 1:
		s.err = &two.E2{Y: msg}
	case 2:
		s.err = &two.Fault{S: msg}
	case 3:
		s.err = &two.Fault{A: &two.A{A: msg}}
	}
	if rt.Choice("action", 2) == 1 {
		s.res = &two.LiteralResponse{R: &two.A{}}
		_, err := c.Literal(&two.LiteralRequest{})
		e, ok := err.(*two.E2)
		rt.Assert(err != nil, "an exception is an error at the client, without a response")
		if k == 1 {
			rt.Assert(ok && e.Y == msg, "a declared exception comes back with its type and content")
		}
		return
	}
	got, err := c.Mixed(&two.MixedRequest{A: "a", Body: &two.A{}})
	rt.Assert(err != nil && got == nil && len(s.calls) == 1, "an exception is an error at the client, without a response")
	switch k {
	case 0:
		e, ok := err.(*two.E1)
		rt.Assert(ok && e.X == msg, "a declared exception comes back with its type and content")
	case 2:
		e, ok := err.(*two.Fault)
		rt.Assert(ok && e.S == msg && e.A == nil, "a declared exception comes back with its type and content")
	case 3:
		e, ok := err.(*two.Fault)
		rt.Assert(ok && e.S == "" && e.A != nil && e.A.A == msg, "a declared exception comes back with its type and content")
	}
	// the status, as the server sends it
	res := http.Serve(request("POST", "/base/v2/m/1/x/a", "{}"))
	rt.Assert(res.StatusCode == []int{400, 400, 422, 422}[k], "a response has the status of the expected response or of the exception")
}

func V_HeaderOnly() {
	s, c := serve2()
	tag := "T" + rt.StrN("tag", 0, 1, text)
	s.res = &two.TagOnlyResponse{Tag: tag}
	got, err := c.TagOnly(&two.TagOnlyRequest{})
	s.once("TagOnly")
	rt.Assert(err == nil && got != nil && got.Tag == tag, "the response comes back with its entity and its headers")
	res := http.Serve(request("GET", "/base/v2/tag", ""))
	rt.Assert(res.Header.Get("X-Tag") == tag, "a header output is sent as that header")
	b := make([]byte, 64)
	n, _ := res.Body.Read(b)
	for _, ch := range b[:n] {
		rt.Assert(ch != 'T', "a header output is not sent as the body")
	}
}

func V_Others() {
	s, c := serve2()
	switch rt.Choice("action", 6) {
	case 0:
		m := map[string]int32{}
		if rt.Choice("entry", 2) == 1 {
			m[rt.StrN("key", 0, 1, text)] = 5
		}
		s.res = &two.CountsResponse{M: m}
		got, err := c.Counts(&two.CountsRequest{})
		s.once("Counts")
		rt.Assert(err == nil && got != nil && len(got.M) == len(m), "an expected response is no error")
		for k, v := range m {
			rt.Assert(got.M[k] == v, "the response comes back with its entity and its headers")
		}
	case 1:
		s.res = &two.LiteralResponse{R: &two.A{A: rt.StrN("r", 0, 1, text)}}
		got, err := c.Literal(&two.LiteralRequest{})
		s.once("Literal")
		rt.Assert(err == nil && got != nil && got.R.A == s.res.(*two.LiteralResponse).R.A, "the response comes back with its entity and its headers")
	case 2:
		s.res = &two.VariableResponse{}
		x := rt.StrN("x", 1, 2, seg)
		_, err := c.Variable(&two.VariableRequest{X: x})
		s.once("Variable")
		rt.Assert(err == nil && s.req.(*two.VariableRequest).X == x, "a path parameter arrives")
	case 3:
		at, t := stamp("at"), stamp("t")
		s.res = &two.WhenResponse{T: t}
		got, err := c.When(&two.WhenRequest{At: at})
		s.once("When")
		if at == nil {
			at = two.TimestampFromString("2001-02-03T04:05:06Z")
		}
		rt.Assert(show(s.req.(*two.WhenRequest).At) == show(at), "a query parameter arrives, or its default")
		rt.Assert(err == nil && got != nil && show(got.T) == show(t), "the response comes back with its entity and its headers")
	case 5:
		req := &two.LateRequest{C: rt.StrN("c", 1, 1, seg), D: rt.StrN("d", 0, 1, text), E: rt.StrN("e", 0, 1, word), Body: &two.A{A: rt.StrN("body", 0, 1, text)}}
		res := &two.LateResponse{F: rt.StrN("f", 0, 1, word), G: &two.A{A: "g" + rt.StrN("g", 0, 1, text)}}
		s.res = res
		got, err := c.Late(req)
		if !s.once("Late") {
			return
		}
		r := s.req.(*two.LateRequest)
		rt.Assert(r.Body != nil && r.Body.A == req.Body.A, "a body arrives")
		rt.Assert(rt.And(r.C == req.C, rt.And(r.D == req.D, r.E == req.E)), "the other parameters arrive")
		rt.Assert(err == nil && got != nil && got.F == res.F && got.G != nil && got.G.A == res.G.A, "the response comes back with its entity and its headers")
	case 4:
		req := &two.NoBodyRequest{A: rt.StrN("a", 0, 1, text), B: rt.StrN("b", 0, 1, text)}
		got, err := c.NoBody(req)
		s.once("NoBody")
		r := s.req.(*two.NoBodyRequest)
		rt.Assert(rt.And(r.A == req.A, r.B == req.B), "a query parameter arrives, or its default")
		rt.Assert(err == nil && got != nil, "an expected response is no error")
	}
}
