//go:build go1.21

// Package mhttp models http.Server and http.Client on the modelled
// network.
package mhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mctx"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
)

// Host is the HTTP state of an execution.
type Host struct {
	servers []*Server
	// Do answers outgoing client requests.
	Do func(r *Request) Response
	// HandlerPanics records handler panics (net/http recovers them).
	HandlerPanics []string
	nreq          int
	unclosed      []*respBody // bodies of answers to Do
	// Header is added to the requests of Call.
	Header map[string]string
	// Chunked makes the requests of Call carry no Content-Length.
	Chunked bool
}

// H is the state of the current execution.
var H *Host

// Setup creates fresh state.
func Setup() *Host {
	H = &Host{}
	return H
}

// Request is an outgoing request as seen by the modelled remote server.
type Request struct {
	Seq     int
	At      int64
	Method  string
	URL     *url.URL
	Header  http.Header
	Body    []byte
	User    string
	Pass    string
	HasAuth bool
}

// Response is the modelled remote server's behaviour.
type Response struct {
	Status int
	Body   string
	Err    error         // transport error (connection refused, reset, ...)
	Delay  time.Duration // time until the answer arrives
}

// Server models http.Server.
type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(context.Context, net.Conn) context.Context
	ErrorLog          interface{}

	b      *mnet.Binding
	sync   byte // happens-before edges of the real server's accept loop and locks
	w      mcrt.Waiter
	closed bool
	active int
	bodies []*bodyReader
	onStop []func()
}

// ListenAndServe binds and serves until closed.
func (s *Server) ListenAndServe() error {
	mcrt.Yield("http-listen")
	if s.closed {
		return http.ErrServerClosed
	}
	port, err := mnet.ParsePort(s.Addr)
	if err != nil {
		return err
	}
	b, err := mnet.N.BindTCP(port)
	if err != nil {
		return err
	}
	return s.serve(b)
}

// Serve serves on a modelled listener.
func (s *Server) Serve(l net.Listener) error {
	ml, ok := l.(*mnet.Listener)
	if !ok {
		return errors.New("mhttp: unsupported listener")
	}
	mcrt.Yield("http-serve")
	if s.closed {
		ml.Bound().Closed = true
		return http.ErrServerClosed
	}
	return s.serve(ml.Bound())
}

func (s *Server) serve(b *mnet.Binding) error {
	s.b = b
	H.servers = append(H.servers, s)
	mcrt.RaceReleaseMerge(&s.sync)
	b.OnClose = s.w.WakeAll
	mcrt.BlockUntil("http-accept", &s.w, -1, func() bool { return s.closed || b.Closed })
	if !s.closed {
		return &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	return http.ErrServerClosed
}

func (s *Server) stop() {
	s.closed = true
	if s.b != nil {
		s.b.Closed = true
	}
	s.w.WakeAll()
	for _, f := range s.onStop {
		f()
	}
	s.onStop = nil
}

// Close closes the listener and all connections.
func (s *Server) Close() error {
	mcrt.Yield("http-close")
	s.stop()
	mcrt.RaceAcquire(&s.sync)
	for _, b := range s.bodies {
		b.aborted = true
		b.w.WakeAll()
	}
	return nil
}

// Shutdown closes the listener and waits for active requests.
func (s *Server) Shutdown(ctx context.Context) error {
	mcrt.Yield("http-shutdown")
	s.stop()
	defer mcrt.RaceAcquire(&s.sync)
	for s.active > 0 {
		mcrt.SleepNanos(5e6)
		if ctx != nil && ctx.Err() != nil {
			return ctx.Err()
		}
	}
	return nil
}

// RegisterOnShutdown registers f.
func (s *Server) RegisterOnShutdown(f func()) { s.onStop = append(s.onStop, f) }

// SetKeepAlivesEnabled is ignored.
func (s *Server) SetKeepAlivesEnabled(bool) {}

// ListenAndServe is http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	s := &Server{Addr: addr, Handler: h}
	return s.ListenAndServe()
}

// Serve is http.Serve.
func Serve(l net.Listener, h http.Handler) error {
	s := &Server{Handler: h}
	return s.Serve(l)
}

// Piece is a part of a request body.
type Piece struct {
	Data  []byte
	Delay time.Duration
	Err   error
}

type bodyReader struct {
	pieces  []Piece
	rest    []byte
	aborted bool
	closed  bool
	w       mcrt.Waiter
	done    bool  // a read has failed
	limit   int64 // read deadline of the server, or 0
	arrival []int64
}

func (b *bodyReader) Read(p []byte) (int, error) {
	mcrt.Yield("body-read")
	n, err := b.read(p)
	if err != nil {
		b.done = true
	}
	if n > 0 {
		mcrt.RaceWrite(p[:n])
	}
	return n, err
}

func (b *bodyReader) read(p []byte) (int, error) {
	for {
		if b.closed {
			return 0, http.ErrBodyReadAfterClose
		}
		if b.aborted {
			return 0, io.ErrUnexpectedEOF
		}
		if b.limit > 0 && mcrt.NowNanos() >= b.limit {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if len(b.rest) > 0 {
			n := mcrt.CopyBytes(p, b.rest)
			b.rest = b.rest[n:]
			return n, nil
		}
		if len(b.pieces) == 0 {
			return 0, io.EOF
		}
		if at := b.arrival[len(b.arrival)-len(b.pieces)]; at > mcrt.NowNanos() {
			if b.limit > 0 && b.limit < at {
				at = b.limit
			}
			mcrt.BlockUntil("body-wait", &b.w, at, func() bool { return b.aborted })
			continue
		}
		if err := b.pieces[0].Err; err != nil {
			return 0, err
		}
		if len(p) == 0 {
			return 0, nil
		}
		b.rest = b.pieces[0].Data
		b.pieces = b.pieces[1:]
	}
}
func (b *bodyReader) Close() error { b.closed = true; return nil }

// Result is the outcome of an incoming request.
type Result struct {
	Err     error // connection level failure
	Status  int
	Header  http.Header
	Body    []byte
	Done    bool
	Panic   string
	Started int64
	Ended   int64
}

type recorder struct {
	res   *Result
	wrote bool
	hdr   http.Header
}

func (r *recorder) Header() http.Header { return r.hdr }
func (r *recorder) WriteHeader(code int) {
	if r.wrote {
		return
	}
	r.wrote = true
	r.res.Status = code
	r.res.Header = r.hdr.Clone()
}
func (r *recorder) Write(p []byte) (int, error) {
	if !r.wrote {
		r.WriteHeader(200)
	}
	mcrt.RaceRead(p)
	mcrt.Yield("resp-write")
	if r.res.Status == 204 || r.res.Status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	for _, c := range p {
		r.res.Body = append(r.res.Body, c)
	}
	return len(p), nil
}
func (r *recorder) Flush() {}

func serverOn(port int) *Server {
	for _, s := range H.servers {
		if !s.closed && s.b != nil && !s.b.Closed && s.b.Port == port {
			return s
		}
	}
	return nil
}

// Listening reports whether an HTTP server accepts on port.
func Listening(port int) bool { return serverOn(port) != nil }

// Call performs a request against the server on port, in the calling
// thread.
func Call(port int, method, target string, pieces ...Piece) *Result {
	res := &Result{Started: mcrt.NowNanos()}
	mcrt.Yield("http-call")
	s := serverOn(port)
	for s == nil && mnet.N.TCPBound(port) {
		// connected, waiting in the accept queue
		mcrt.SleepNanos(1e6)
		s = serverOn(port)
	}
	if s == nil {
		res.Err = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
		res.Done = true
		return res
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		res.Status = 400
		res.Done = true
		return res
	}
	body := &bodyReader{pieces: append([]Piece(nil), pieces...)}
	var clen int64
	at := mcrt.NowNanos()
	for _, p := range pieces {
		clen += int64(len(p.Data))
		if p.Err != nil {
			clen += 16 // announced, but never sent
		}
		at += int64(p.Delay)
		body.arrival = append(body.arrival, at)
	}
	req := &http.Request{
		Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"User-Agent": []string{"mc"}}, Body: body, ContentLength: clen,
		Host: fmt.Sprintf("localhost:%d", port), RemoteAddr: "127.0.0.1:40000", RequestURI: target,
	}
	for k, v := range H.Header {
		req.Header.Set(k, v)
	}
	if len(pieces) == 0 {
		req.Body = http.NoBody
	} else if H.Chunked {
		req.ContentLength = -1
		req.TransferEncoding = []string{"chunked"}
	}
	if s.ReadTimeout > 0 {
		body.limit = mcrt.NowNanos() + int64(s.ReadTimeout)
	}
	rec := &recorder{res: res, hdr: http.Header{}}
	s.bodies = append(s.bodies, body)
	s.active++
	defer func() {
		s.active--
		res.Ended = mcrt.NowNanos()
		res.Done = true
	}()
	h := s.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	mcrt.RaceAcquire(&s.sync)
	serveOne(h, rec, req, res)
	if !body.done && clen <= 256<<10 && (len(body.pieces) > 0 || len(body.rest) > 0) {
		// the server reads what the handler left before it answers
		body.closed = false
		for buf := make([]byte, 4096); ; {
			if _, err := body.read(buf); err != nil {
				break
			}
		}
	}
	mcrt.RaceReleaseMerge(&s.sync)
	body.closed = true
	if res.Panic != "" {
		res.Err = io.EOF
		return res
	}
	if !rec.wrote {
		rec.WriteHeader(200)
	}
	if s.closed && body.aborted || s.WriteTimeout > 0 && mcrt.NowNanos()-res.Started > int64(s.WriteTimeout) {
		res.Err = io.EOF
	}
	return res
}

func serveOne(h http.Handler, w http.ResponseWriter, r *http.Request, res *Result) {
	defer func() {
		if mcrt.Ending() {
			return
		}
		if v := recover(); v != nil {
			if v == http.ErrAbortHandler {
				res.Panic = "abort"
				return
			}
			res.Panic = fmt.Sprint(v)
			H.HandlerPanics = append(H.HandlerPanics, res.Panic)
		}
	}()
	h.ServeHTTP(w, r)
}

// CallAsync performs the request in its own thread.
func CallAsync(name string, port int, method, target string, pieces ...Piece) *Result {
	out := &Result{}
	mcrt.GoNamed(name, func() {
		r := Call(port, method, target, pieces...)
		*out = *r
	})
	return out
}

// Client models http.Client.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

// DefaultClient is http.DefaultClient.
var DefaultClient = &Client{}

type netErr struct {
	msg     string
	timeout bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

// Do sends a request.
func (c *Client) Do(req *http.Request) (*http.Response, error) {
	start := mcrt.NowNanos()
	mcrt.Yield("http-do")
	wrap := func(err error) error {
		return &url.Error{Op: strings.Title(strings.ToLower(req.Method)), URL: req.URL.String(), Err: err}
	}
	if req.URL == nil || req.URL.Host == "" {
		return nil, wrap(errors.New("http: no Host in request URL"))
	}
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return nil, wrap(errors.New("unsupported protocol scheme"))
	}
	var body []byte
	if req.Body != nil {
		// the transport reads the body in pieces while others run
		buf := make([]byte, 32)
		if req.ContentLength > 4096 {
			buf = make([]byte, 1<<20)
		}
		for {
			n, err := req.Body.Read(buf)
			body = append(body, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				return nil, wrap(err)
			}
			if n > 0 {
				mcrt.Yield("body-send")
			}
		}
		req.Body.Close()
		if req.ContentLength > 0 && req.ContentLength != int64(len(body)) {
			return nil, wrap(fmt.Errorf("http: ContentLength=%d with Body length %d", req.ContentLength, len(body)))
		}
	}
	H.nreq++
	r := &Request{Seq: H.nreq, At: mcrt.NowNanos(), Method: req.Method, URL: req.URL, Header: req.Header.Clone(), Body: body}
	if u := req.URL.User; u != nil && req.Header.Get("Authorization") == "" {
		// net/http sends the credentials of the URL
		pass, _ := u.Password()
		r.Header = r.Header.Clone()
		if r.Header == nil {
			r.Header = http.Header{}
		}
		tmp := &http.Request{Header: r.Header}
		tmp.SetBasicAuth(u.Username(), pass)
	}
	r.User, r.Pass, r.HasAuth = (&http.Request{Header: r.Header}).BasicAuth()
	mcrt.Logf("http %s %s body %d bytes", r.Method, r.URL, len(body))
	resp := Response{Status: 204}
	if H.Do != nil {
		resp = H.Do(r)
	}
	mcrt.Logf("http answer %d err=%v delay=%v", resp.Status, resp.Err, resp.Delay)
	if ctx := mctx.Find(req.Context()); ctx != nil {
		limit := mcrt.NowNanos() + int64(resp.Delay)
		if d := start + int64(c.Timeout); c.Timeout > 0 && d < limit {
			limit = d
		}
		if limit > mcrt.NowNanos() {
			mcrt.BlockUntil("http-wait", &ctx.W, limit, func() bool { return ctx.Err() != nil })
		}
		resp.Delay -= time.Duration(mcrt.NowNanos() - start)
		if err := ctx.Err(); err != nil {
			return nil, wrap(err)
		}
	}
	if c.Timeout > 0 && time.Duration(mcrt.NowNanos()-start)+resp.Delay > c.Timeout {
		mcrt.SleepNanos(start + int64(c.Timeout) - mcrt.NowNanos())
		return nil, wrap(&netErr{"context deadline exceeded (Client.Timeout exceeded while awaiting headers)", true})
	}
	if resp.Delay > 0 {
		mcrt.SleepNanos(int64(resp.Delay))
	}
	if resp.Err != nil {
		return nil, wrap(resp.Err)
	}
	rb := &respBody{r: bytes.NewReader([]byte(resp.Body))}
	if len(resp.Body) > 0 {
		// answers without body don't need their connection any longer
		open := H.unclosed[:0]
		for _, b := range H.unclosed {
			if !b.closed && b.r.Len() > 0 {
				open = append(open, b)
			}
		}
		H.unclosed = append(open, rb)
	}
	return &http.Response{
		Status:     fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status)),
		StatusCode: resp.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: rb,
		ContentLength: int64(len(resp.Body)), Request: req,
	}, nil
}

// Unclosed returns the number of answers with a body which was neither closed
// nor read to its end: net/http keeps their connections and goroutines.
func (h *Host) Unclosed() int {
	n := 0
	for _, b := range h.unclosed {
		if !b.closed && b.r.Len() > 0 {
			n++
		}
	}
	return n
}

type respBody struct {
	r      *bytes.Reader
	closed bool
}

func (b *respBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	return b.r.Read(p)
}
func (b *respBody) Close() error { b.closed = true; return nil }

// Get issues a GET.
func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

// Post issues a POST.
func (c *Client) Post(u, ctype string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ctype)
	return c.Do(req)
}

// CloseIdleConnections does nothing.
func (c *Client) CloseIdleConnections() {}

// PostForm issues a POST.
func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

// Head issues a HEAD.
func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func PostForm(u string, data url.Values) (*http.Response, error) {
	return DefaultClient.PostForm(u, data)
}
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Post(u, ctype string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ctype, body)
}
