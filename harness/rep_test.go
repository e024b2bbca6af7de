package zzverif

// Representations, requests and responses.

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
	"pgregory.net/rapid"
)

// Rep describes one representation offered by the server.
type Rep struct {
	Type    string   `json:",omitempty"`
	Charset string   `json:",omitempty"`
	Lang    string   `json:",omitempty"`
	Enc     []string `json:",omitempty"`
	Feat    []string `json:",omitempty"`
	SQ      int      // thousandths
	Loc     string   `json:",omitempty"`
	Len     int      // length of the body, negative if it is empty
	Fail    bool     `json:",omitempty"` // Bytes fails
	Real    bool     `json:",omitempty"` // serialized the way the module does
	Same    bool     `json:",omitempty"` // the very representation before it, provided that it's like it
}

var errBytes = errors.New("bytes failed")

// stub is a representation with a body of its own.
type stub struct {
	Rep
	id  int
	loc url.URL
}

func newStub(r Rep, id int) *stub {
	u := location(r.Loc)
	r.Enc, r.Feat = roomy(r.Enc), roomy(r.Feat)
	return &stub{Rep: r, id: id, loc: *u}
}

// location parses the URL, leaving the case of its scheme alone.
func location(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic("harness: bad location " + s)
	}
	if n := len(u.Scheme); n > 0 && strings.EqualFold(s[:n], u.Scheme) {
		u.Scheme = s[:n]
	}
	return u
}

// roomy copies the strings to an array that goes on after them, so that what is
// appended ends up next to them. Nobody but its owner may do that.
func roomy(ss []string) []string {
	if ss == nil {
		return nil
	}
	return append(append(make([]string, 0, len(ss)+2), ss...), "reserved", "reserved")[:len(ss)]
}

func (s *stub) ContentLocation() url.URL  { return s.loc }
func (s *stub) ContentType() string       { return s.Type }
func (s *stub) ContentEncoding() []string { return s.Enc }
func (s *stub) ContentCharset() string    { return s.Charset }
func (s *stub) ContentLanguage() string   { return s.Lang }
func (s *stub) ContentFeatures() []string { return s.Feat }
func (s *stub) SourceQuality() float32    { return float32(s.SQ) / 1000 }
func (s *stub) FromBytes([]byte) error    { return nil }
func (s *stub) Bytes() ([]byte, error) {
	if s.Fail {
		return nil, errBytes
	}
	return bodyOf(s.id, s.Len), nil
}

const minLen = 4

var fillings = []string{"x", "\n", "text \t\r\n", "\x00\xff\x80", "é€", "{}<>\"\n"}

// bodyOf is a body of the length, at least, that tells whose it is.
func bodyOf(id, n int) []byte {
	if n < 0 {
		return nil
	}
	b := []byte(fmt.Sprintf("%03d|", id))
	if n > len(b) {
		f := fillings[n%len(fillings)]
		b = append(b, strings.Repeat(f, (n-len(b))/len(f)+1)...)[:n]
	}
	return b
}

// document is a representation that leaves everything to the module.
type document struct {
	representation.Base
	id int
}

func (d *document) Bytes() ([]byte, error) {
	return d.Base.Bytes(map[string]int{"document": d.id})
}

func (d *document) FromBytes(b []byte) error {
	m := map[string]int{}
	return d.Base.FromBytes(b, &m)
}

func newDocument(r Rep, id int) *document {
	d := &document{id: id}
	d.SetContentType(r.Type)
	d.SetContentCharset(r.Charset)
	d.SetContentLanguage(r.Lang)
	d.SetContentEncoding(roomy(r.Enc))
	d.SetContentFeatures(roomy(r.Feat))
	d.SetSourceQuality(float32(r.SQ) / 1000)
	d.SetContentLocation(newStub(r, id).loc)
	return d
}

// origin is the position at which the representation is offered for the first
// time in a row.
func origin(reps []Rep, i int) int {
	for i > 0 && reps[i].Same {
		r, before := reps[i], reps[i-1]
		r.Same, before.Same = false, false
		if !reflect.DeepEqual(r, before) {
			break
		}
		i--
	}
	return i
}

func stubs(reps []Rep) (rs []representation.Representation) {
	for i, r := range reps {
		if origin(reps, i) < i {
			rs = append(rs, rs[i-1])
			continue
		}
		if r.Real {
			rs = append(rs, newDocument(r, i))
			continue
		}
		rs = append(rs, newStub(r, i))
	}
	return rs
}

// Req is a request.
type Req struct {
	Accept    Hdr      `json:",omitempty"`
	Charset   Hdr      `json:",omitempty"`
	Language  Hdr      `json:",omitempty"`
	Encoding  Hdr      `json:",omitempty"`
	Features  []Expr   `json:",omitempty"`
	Negotiate []string `json:",omitempty"`
	URL       string   `json:",omitempty"`
	Method    string   `json:",omitempty"`
	Other     []string `json:",omitempty"` // what is of no concern to negotiations
}

// request builds the HTTP request, formatted as generated or canonically.
func (q Req) request(canonical bool) *http.Request {
	raw := q.URL
	if raw == "" {
		raw = "/res/thing"
	}
	u := location(raw)
	m := q.Method
	if m == "" {
		m = "GET"
	}
	r := &http.Request{Method: m, URL: u, Host: "example.com", Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	r.Header["User-Agent"] = []string{"verif"}
	set := func(name string, h Hdr) {
		if !h.present() {
			return
		}
		if canonical {
			r.Header[name] = h.canonical()
		} else {
			r.Header[name] = h.lines()
		}
	}
	set("Accept", q.Accept)
	set("Accept-Charset", q.Charset)
	set("Accept-Language", q.Language)
	set("Accept-Encoding", q.Encoding)
	if len(q.Features) > 0 {
		r.Header["Accept-Features"] = exprLines(q.Features, canonical)
	}
	if len(q.Negotiate) > 0 {
		r.Header["Negotiate"] = []string{strings.Join(q.Negotiate, ", ")}
	}
	besides(r, q.Other)
	for k, vs := range r.Header {
		r.Header[k] = roomy(vs)
	}
	return r
}

// besides adds to the request what is of no concern to negotiations.
func besides(r *http.Request, other []string) {
	for _, o := range other {
		switch k, v, _ := strings.Cut(o, ": "); k {
		case "HTTP":
			major, minor, _ := strings.Cut(v, ".")
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/"+v, int(major[0]-'0'), int(minor[0]-'0')
		case "Host":
			r.Host = v
		case "TLS":
			r.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: v}
		case "Remote":
			r.RemoteAddr = v
		case "Query":
			if r.URL.RawQuery == "" {
				r.URL.RawQuery = v
			}
		case "Path":
			if r.URL.Path == "/res/thing" {
				r.URL.Path = v
			}
		case "Close":
			r.Close = true
		case "Context":
			// the client may have gone, which is for the connection to report.
			ctx, cancel := context.WithCancel(context.WithValue(r.Context(), errWrite, v))
			switch v {
			case "canceled":
				cancel()
			case "expired":
				ctx, cancel = context.WithTimeout(ctx, -time.Second)
				cancel()
			default:
				_ = cancel // goes on for as long as the request does
			}
			*r = *r.WithContext(ctx)
		case "URI":
			r.RequestURI = r.URL.RequestURI()
		case "Form":
			r.Form, r.PostForm = url.Values{"format": {v}, "lang": {"fr"}}, url.Values{}
		case "Pattern":
			r.Pattern = v
			r.SetPathValue("format", "json")
		case "Trailer":
			r.Trailer = http.Header{v: nil}
		case "Length":
			r.ContentLength = int64(len(v))
			r.TransferEncoding = []string{"chunked"}
		case "Bare":
			delete(r.Header, "User-Agent")
		case "User-Agent":
			r.Header[k] = []string{v}
		default:
			r.Header[k] = append(r.Header[k], v)
		}
	}
}

var besidesPool = []string{
	"Context: canceled", "Context: expired", "Context: alive", "URI: ", "Form: json", "Pattern: GET /res/{format}", "Trailer: Accept",
	"Length: unknown", "Bare: ",
	"HTTP: 1.0", "HTTP: 2.0", "Host: www.example.org:8080", "Host: ", "TLS: example.com", "Remote: [::1]:4711", "Close: ",
	"Path: /res/thing.html", "Path: /res/thing.en.json.gz", "Path: /res/", "Path: /res/thing;type=html",
	"Query: format=json", "Query: lang=fr&charset=utf-8", "Query: q=0", "Query: type=text/html",
	"User-Agent: Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)", "User-Agent: curl/8.5.0",
	"User-Agent: Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/126.0 Safari/537.36",
	"Range: bytes=0-1", "If-None-Match: *", "If-Match: \"abc\"", "If-Modified-Since: Sat, 29 Oct 1994 19:43:31 GMT",
	"Cache-Control: no-cache", "Cache-Control: no-transform", "Pragma: no-cache", "Connection: close", "Connection: Upgrade",
	"Upgrade: h2c", "Cookie: lang=fr; format=json", "Prefer: return=minimal", "Prefer: return=representation",
	"TE: gzip, trailers", "Accept-Ranges: bytes", "Accept-Datetime: Thu, 31 May 2007 20:35:00 GMT", "Accept-Patch: application/json",
	"Accept-Post: text/html", "Content-Type: application/xml", "Content-Language: fr", "Content-Encoding: gzip",
	"Content-Location: /res/other", "X-Requested-With: XMLHttpRequest", "X-HTTP-Method-Override: PUT", "Origin: https://example.org",
	"Authorization: Basic bWU6c2VjcmV0", "Via: 1.1 proxy", "Forwarded: for=192.0.2.1;proto=https", "X-Forwarded-Proto: https",
	"Expect: 100-continue", "Referer: https://example.com/de/", "Save-Data: on", "DNT: 1", "Sec-Fetch-Mode: navigate", "From: me@example.com",
	"TCN: list", "Alternates: {\"x\" 1.0}", "Variant-Vary: *", "Vary: Accept",
}

// genBesides draws what is of no concern to negotiations.
func genBesides(t *rapid.T) (other []string) {
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "besides"); i < n; i++ {
		other = append(other, rapid.SampledFrom(besidesPool).Draw(t, "other"))
	}
	return
}

// ---- responses ------------------------------------------------------------

// recorder is a response writer that keeps what a client would get to see.
type recorder struct {
	header http.Header
	sent   http.Header // as of the time the status was written
	status int
	calls  int // of WriteHeader
	body   []byte
	limit  int // fail once the body exceeds this, if >= 0
}

var errWrite = errors.New("connection lost")

func newRecorder() *recorder { return &recorder{header: http.Header{}, limit: -1} }

func (r *recorder) Header() http.Header { return r.header }

func (r *recorder) WriteHeader(status int) {
	r.calls++
	if r.status != 0 {
		return
	}
	r.status = status
	r.sent = r.header.Clone()
}

func (r *recorder) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.WriteHeader(200)
		r.calls--
	}
	if r.limit >= 0 && len(r.body)+len(b) > r.limit {
		n := r.limit - len(r.body)
		if n > 0 {
			r.body = append(r.body, b[:n]...)
		} else {
			n = 0
		}
		return n, errWrite
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// response is the observable outcome of one negotiation.
type response struct {
	Status int
	Header map[string]string // without the empty ones
	Body   string
	Err    string
	calls  int
	err    error
	head   bool // the method is HEAD, so that nobody gets to see the body
}

func (r response) String() string {
	b := r.Body
	if len(b) > 300 {
		b = b[:300] + "..."
	}
	return fmt.Sprintf("status=%d err=%q header=%v body=%q", r.Status, r.Err, r.Header, b)
}

func (r response) equal(o response) bool {
	return r.String() == o.String() && r.Body == o.Body
}

// same tells whether both are the same as far as a client, and the caller, can
// tell, disregarding the text of errors.
func (r response) untouched() bool {
	return r.Status == 0 && r.Body == "" && r.calls == 0
}

// versatile is a response writer that can do more than it has to.
type versatile struct{ *recorder }

func (v versatile) WriteString(s string) (int, error) { return v.Write([]byte(s)) }
func (v versatile) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{v.recorder}, r)
}
func (v versatile) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, http.ErrNotSupported
}
func (v versatile) Push(string, *http.PushOptions) error { return http.ErrNotSupported }
func (v versatile) CloseNotify() <-chan bool             { return make(chan bool) }
func (v versatile) Flush() {
	if v.status == 0 {
		_, _ = v.Write(nil)
	}
}

func (r *recorder) response(err error) response {
	res := response{Status: r.status, Header: map[string]string{}, Body: string(r.body), calls: r.calls, err: err}
	if err != nil {
		res.Err = err.Error()
	}
	for k, vs := range r.sent {
		var nonEmpty []string
		for _, v := range vs {
			if v != "" {
				nonEmpty = append(nonEmpty, v)
			}
		}
		if len(nonEmpty) == 0 {
			continue
		}
		v := strings.Join(nonEmpty, ", ")
		if http.CanonicalHeaderKey(k) == "Content-Encoding" {
			// naming the identity coding is the same as naming none.
			if v = codings(v); v == "" {
				continue
			}
		}
		res.Header[http.CanonicalHeaderKey(k)] = v
	}
	return res
}

// codings normalizes a Content-Encoding value.
func codings(v string) string {
	var cs []string
	for _, c := range strings.Split(v, ",") {
		if c = strings.TrimSpace(c); c != "" && !strings.EqualFold(c, "identity") {
			cs = append(cs, c)
		}
	}
	return strings.Join(cs, ",")
}

type negotiating interface {
	Negotiate(negotiator.NegotiationContext, ...representation.Representation) error
}

func negotiate(n negotiating, r *http.Request, creation bool, reps ...representation.Representation) response {
	return negotiateTo(newRecorder(), n, r, creation, reps...)
}

func negotiateTo(rec *recorder, n negotiating, r *http.Request, creation bool, reps ...representation.Representation) response {
	err := n.Negotiate(negotiator.NegotiationContext{
		Request:        r,
		ResponseWriter: rec,
		IsCreation:     creation,
	}, reps...)
	return rec.response(err)
}

// wantChoice checks that the response carries the representation: its body and
// the headers describing it.
func (r response) wantChoice(status int, rep Rep, id int) error {
	want := map[string]string{
		"Content-Length": fmt.Sprint(len(bodyOf(id, rep.Len))),
	}
	for k, v := range map[string]string{
		"Content-Type":     rep.Type,
		"Content-Language": rep.Lang,
		"Content-Charset":  rep.Charset,
		"Content-Location": rep.Loc,
		"Content-Encoding": codings(strings.Join(rep.Enc, ",")),
	} {
		if v != "" {
			want[k] = v
		}
	}
	return r.want(status, want, string(bodyOf(id, rep.Len)))
}

var ignoredHeaders = map[string]bool{"Alternates": true, "Tcn": true}

func (r response) want(status int, header map[string]string, body string) error {
	if r.err != nil {
		return fmt.Errorf("unexpected error %v (want %d)", r.err, status)
	}
	if r.Status != status || r.calls != 1 {
		return fmt.Errorf("status %d written %d times, want %d once; got %v", r.Status, r.calls, status, r)
	}
	if r.Body != body && !(r.head && r.Body == "") {
		return fmt.Errorf("body %.200q (%d bytes), want %.200q (%d bytes)", r.Body, len(r.Body), body, len(body))
	}
	for k, v := range header {
		if r.Header[k] != v {
			return fmt.Errorf("header %s is %q, want %q", k, r.Header[k], v)
		}
	}
	for k, v := range r.Header {
		if _, ok := header[k]; !ok && !ignoredHeaders[k] && strings.HasPrefix(k, "Content-") {
			return fmt.Errorf("unexpected header %s: %q", k, v)
		}
	}
	return nil
}

// ---- generators -----------------------------------------------------------

func genRep(t *rapid.T) Rep {
	var r Rep
	r.Type = genType(t)
	r.Charset = genOptional(t, "rep.cs", charsetPool)
	r.Lang = genOptional(t, "rep.lang", langPool)
	r.Enc = rapid.SampledFrom(encPool).Draw(t, "rep.enc")
	r.SQ = genSQ(t)
	r.Len = genLen(t)
	return r
}

func genType(t *rapid.T) string {
	if rapid.IntRange(0, 15).Draw(t, "rep.notype") == 0 {
		return ""
	}
	m := rapid.SampledFrom(typePool).Draw(t, "rep.type")
	if rapid.IntRange(0, 7).Draw(t, "rep.type.rich") == 0 {
		m = mtype{Name: rapid.SampledFrom([]string{"text/html", "text/plain", "application/json"}).Draw(t, "rep.type.name")}
		for _, p := range richParams {
			if rapid.Bool().Draw(t, "rep.type.param") {
				m.Params = append(m.Params, p)
			}
		}
	}
	s := m.String()
	switch rapid.IntRange(0, 7).Draw(t, "rep.type.style") {
	case 0:
		s = strings.ToUpper(m.Name) + s[len(m.Name):]
	case 1:
		s = m.Name
		for _, p := range m.Params {
			s += "; " + p[0] + "=" + paramValue(p[1], true)
		}
	}
	return s
}

func genOptional(t *rapid.T, label string, pool []string) string {
	if rapid.IntRange(0, 5).Draw(t, label+".none") == 0 {
		return ""
	}
	return rapid.SampledFrom(pool).Draw(t, label)
}

func genSQ(t *rapid.T) int {
	if rapid.IntRange(0, 5).Draw(t, "sq.any") == 0 {
		return rapid.IntRange(0, 1000).Draw(t, "sq")
	}
	return rapid.SampledFrom([]int{1000, 1000, 1000, 900, 800, 500, 400, 300, 0}).Draw(t, "sq")
}

func genLen(t *rapid.T) int {
	if rapid.IntRange(0, 39).Draw(t, "len.big") == 0 {
		return rapid.IntRange(100, 70000).Draw(t, "len")
	}
	return rapid.SampledFrom([]int{4, 4, 10, 10, 11, 30, 99, -1}).Draw(t, "len")
}

// genReps draws representations that resemble each other, so that the later
// criteria get to decide between them.
func genReps(t *rapid.T, usual, most int) []Rep {
	n := count(t, "reps.n", 1, usual, most)
	if n > most-usual && rapid.IntRange(0, 3).Draw(t, "reps.lots") == 0 {
		n *= 3
	}
	base := genRep(t)
	keep := rapid.IntRange(2, 9).Draw(t, "reps.keep")
	same := func(label string) bool { return rapid.IntRange(0, 9).Draw(t, label) < keep }
	// at times there is nothing but the level to tell many apart.
	leveled := n > usual && rapid.IntRange(0, 2).Draw(t, "reps.leveled") == 0
	if leveled {
		keep = 10
	}
	var reps []Rep
	for i := 0; i < n; i++ {
		r := genRep(t)
		if leveled {
			r.Type = rapid.SampledFrom([]string{"text/html;level=1", "text/html;level=1", "text/html; level=01", "TEXT/HTML;level=0", "text/html"}).Draw(t, "leveled.type")
		}
		if !leveled && same("same.type") {
			r.Type = base.Type
		}
		if same("same.cs") {
			r.Charset = base.Charset
		}
		if same("same.lang") {
			r.Lang = base.Lang
		}
		if same("same.enc") {
			r.Enc = base.Enc
		}
		if same("same.sq") {
			r.SQ = base.SQ
		}
		if same("same.len") {
			r.Len = base.Len
		}
		r.Loc = fmt.Sprintf("/res/variant%d", i)
		reps = append(reps, r)
	}
	if n > 1 && rapid.IntRange(0, 9).Draw(t, "reps.same") == 0 {
		i := rapid.IntRange(1, n-1).Draw(t, "reps.same.at")
		reps[i] = reps[i-1]
		reps[i].Same = true
	}
	return reps
}

var codingNames = map[string]bool{"gzip": true, "x-gzip": true, "deflate": true, "compress": true, "x-compress": true, "identity": true, "br": true, "zstd": true}

func focusOf(reps []Rep) (f focus) {
	for _, r := range reps {
		if r.Type != "" {
			m := parseType(r.Type)
			f.types = append(f.types, m)
		}
		if r.Charset != "" {
			f.cs = append(f.cs, r.Charset)
		}
		if r.Lang != "" {
			f.lang = append(f.lang, r.Lang)
		}
		for _, e := range r.Enc {
			if e = strings.ToLower(e); codingNames[e] {
				f.e = append(f.e, e)
			}
		}
	}
	return f
}

// genReq draws a request with negotiation headers about the representations.
func genReq(t *rapid.T, reps []Rep, messy bool) (q Req) {
	f := focusOf(reps)
	has := func(label string) bool { return rapid.IntRange(0, 9).Draw(t, label) < 6 }
	if has("has.accept") {
		q.Accept = genAccept(t, messy, f)
	}
	if has("has.charset") {
		q.Charset = genAcceptCharset(t, messy, f)
	}
	if has("has.language") {
		q.Language = genAcceptLanguage(t, messy, f)
	}
	if has("has.encoding") {
		q.Encoding = genAcceptEncoding(t, messy, f)
	}
	if rapid.IntRange(0, 4).Draw(t, "method?") == 0 {
		q.Method = genMethod(t)
	}
	q.Other = genBesides(t)
	return q
}

// genMethod draws a method other than GET; none of them matters.
func genMethod(t *rapid.T) string {
	return rapid.SampledFrom([]string{"POST", "PUT", "PATCH", "DELETE", "OPTIONS", "QUERY"}).Draw(t, "method")
}

// lenient draws headers in which everything is acceptable to some degree, which
// keeps most representations in the running.
func lenient(t *rapid.T, q Req) Req {
	add := func(h Hdr, name string) Hdr {
		if !h.present() {
			return h
		}
		out := append(Hdr(nil), h...)
		for i := range out {
			if out[i].Q == 0 {
				out[i].Q = 400
			}
			if out[i].Name == name && len(out[i].Params) == 0 {
				return out
			}
		}
		return append(out, Member{Name: name, Q: rapid.SampledFrom([]int{-1, 1000, 500, 1}).Draw(t, "lenient")})
	}
	q.Accept = add(q.Accept, "*/*")
	q.Charset = add(q.Charset, "*")
	q.Language = add(q.Language, "*")
	q.Encoding = add(q.Encoding, "*")
	return q
}

func absInt(a int) int { return int(math.Abs(float64(a))) }
