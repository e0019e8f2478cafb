//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mctx"
	"github.com/jumptrading/influx-spout/v2/verifmc/mhttp"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
)

const hu = 40 * time.Millisecond

// srvClock abstracts what differs between the two sides of a server script.
type srvEnv struct {
	mu    sync.Mutex
	obs   []string
	sleep func(time.Duration)
	unit  time.Duration
	ended bool
}

func (e *srvEnv) note(f string, a ...interface{}) {
	e.mu.Lock()
	e.obs = append(e.obs, fmt.Sprintf(f, a...))
	e.mu.Unlock()
}

func bodyErr(err error) string {
	switch {
	case err == nil || err == io.EOF:
		return "end"
	case netErr(err) == "timeout":
		return "timeout"
	}
	return "failed"
}

var handlerModes = []string{"read all", "small reads", "no read", "panic", "read once", "late read"}

func handler(mode int, e *srvEnv) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			e.mu.Lock()
			e.ended = true
			e.mu.Unlock()
		}()
		e.note("handler: %s %s %s", r.Method, r.URL.Path, r.URL.RawQuery)
		switch mode {
		case 0, 5:
			if mode == 5 {
				e.sleep(3 * e.unit)
			}
			var all []byte
			buf := make([]byte, 512)
			for {
				n, err := r.Body.Read(buf)
				all = append(all, buf[:n]...)
				if err != nil {
					if mode == 5 && err != io.EOF {
						// what came along with the header may or may
						// not have been buffered
						all = nil
					}
					e.note("handler: %q %s", all, bodyErr(err))
					break
				}
			}
			w.WriteHeader(204)
			w.WriteHeader(500)
		case 1:
			var all []byte
			buf := make([]byte, 1)
			for {
				n, err := r.Body.Read(buf)
				all = append(all, buf[:n]...)
				if err != nil {
					e.note("handler: %q %s", all, bodyErr(err))
					break
				}
			}
			w.Header().Set("X-A", "b")
			w.Write(all)
			w.WriteHeader(500)
		case 2:
			http.Error(w, "no", 400)
		case 3:
			panic("boom")
		case 4:
			buf := make([]byte, 1)
			n, err := r.Body.Read(buf)
			e.note("handler: %q %s", buf[:n], bodyErr(err))
		}
	}
}

var actions = []string{"none", "close", "shutdown", "shutdown with deadline", "read timeout", "write timeout"}

var pieceKinds = []string{"ab", "later cd", "abort"}

func pieces(seq []int) (out []mhttp.Piece) {
	for _, k := range seq {
		switch k {
		case 0:
			out = append(out, mhttp.Piece{Data: []byte("ab")})
		case 1:
			out = append(out, mhttp.Piece{Data: []byte("cd"), Delay: hu})
		case 2:
			out = append(out, mhttp.Piece{Err: io.ErrUnexpectedEOF})
			return
		}
	}
	return
}

// a case is handler mode, action, pieces...
func serverModel(c []int) []string {
	e := &srvEnv{unit: hu, sleep: func(d time.Duration) { mcrt.SleepNanos(int64(d)) }}
	if v := inModel(func() {
		mnet.Setup()
		mhttp.Setup()
		s := &mhttp.Server{Addr: ":7000", Handler: handler(c[0], e)}
		switch c[1] {
		case 4:
			s.ReadTimeout = 5 * hu / 2
		case 5:
			s.WriteTimeout = 5 * hu / 2
		}
		served := ""
		mcrt.Go(func() { served = fmt.Sprint(s.ListenAndServe()) })
		mcrt.Quiesce()
		e.note("second: %s", netErr((&mhttp.Server{Addr: ":7000"}).ListenAndServe()))
		t0 := mcrt.NowNanos()
		units := func() int { return int((mcrt.NowNanos() - t0 + int64(hu)/2) / int64(hu)) }
		res := mhttp.CallAsync("client", 7000, "POST", "/p?q=1", pieces(c[2:])...)
		mcrt.SleepNanos(int64(3 * hu / 2))
		stop(c[1], e, s.Close, s.Shutdown, mctx.WithTimeout)
		e.note("stopped after %d", units()/2)
		if c[1] >= 1 && c[1] <= 3 {
			mcrt.Quiesce()
			e.note("served: %s", served)
			r := mhttp.Call(7000, "GET", "/")
			e.note("next call: %v", r.Err != nil)
		}
		for !res.Done {
			mcrt.SleepNanos(int64(hu / 4))
		}
		if res.Err != nil {
			e.note("client: error")
		} else {
			e.note("client: %d %q %q", res.Status, res.Body, res.Header.Get("X-A"))
		}
		if c[1] == 0 || c[1] > 3 {
			s.Close()
			mcrt.Quiesce()
			e.note("served: %s", served)
		}
		mcrt.SleepNanos(int64(6 * hu))
	}); v != nil {
		return v
	}
	return order(e.obs)
}

func stop(action int, e *srvEnv, closeF func() error, shutdown func(context.Context) error, timeout func(context.Context, time.Duration) (context.Context, context.CancelFunc)) {
	switch action {
	case 1:
		e.note("stop: %s", errText(closeF()))
	case 2:
		e.note("stop: %s", errText(shutdown(context.Background())))
	case 3:
		ctx, cancel := timeout(context.Background(), e.unit)
		e.note("stop: %s", errText(shutdown(ctx)))
		cancel()
	}
}

// order groups the observations of each party: what different parties do is
// not ordered.
func order(obs []string) (out []string) {
	for _, who := range []string{"second", "handler", "stop", "stopped", "served", "next call", "client"} {
		for _, o := range obs {
			if o == who || strings.HasPrefix(o, who+":") || strings.HasPrefix(o, who+" ") {
				out = append(out, o)
			}
		}
	}
	return out
}

func serverReal(c []int, patience int) []string {
	u := hu * time.Duration(patience)
	e := &srvEnv{unit: u, sleep: time.Sleep}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return []string{err.Error()}
	}
	addr := l.Addr().String()
	s := &http.Server{Handler: handler(c[0], e), ErrorLog: log.New(io.Discard, "", 0)}
	switch c[1] {
	case 4:
		s.ReadTimeout = 5 * u / 2
	case 5:
		s.WriteTimeout = 5 * u / 2
	}
	served := make(chan string, 1)
	go func() { served <- fmt.Sprint(s.Serve(l)) }()
	e.note("second: %s", netErr((&http.Server{Addr: addr}).ListenAndServe()))
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return []string{err.Error()}
	}
	defer conn.Close()
	t0 := time.Now()
	units := func() int { return int((time.Since(t0) + u/2) / u) }
	result := make(chan string, 1)
	ps := pieces(c[2:])
	go func() {
		n, abort := 0, false
		for _, p := range ps {
			n += len(p.Data)
			abort = abort || p.Err != nil
		}
		if abort {
			n += 10
		}
		head := "POST /p?q=1 HTTP/1.1\r\nHost: x\r\nUser-Agent: mc\r\n"
		if len(ps) > 0 {
			head += fmt.Sprintf("Content-Length: %d\r\n", n)
		}
		fmt.Fprintf(conn, "%s\r\n", head)
		done := make(chan bool)
		go func() {
			defer close(done)
			r, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: "POST"})
			if err != nil {
				result <- "client: error"
				return
			}
			b, _ := io.ReadAll(r.Body)
			result <- fmt.Sprintf("client: %d %q %q", r.StatusCode, b, r.Header.Get("X-A"))
		}()
		for _, p := range ps {
			time.Sleep(p.Delay * time.Duration(patience))
			if p.Err != nil {
				// half close: the answer can still be read
				conn.(*net.TCPConn).CloseWrite()
				break
			}
			if _, err := conn.Write(p.Data); err != nil {
				break
			}
		}
		<-done
	}()
	time.Sleep(3 * u / 2)
	stop(c[1], e, s.Close, s.Shutdown, context.WithTimeout)
	e.note("stopped after %d", units()/2)
	if c[1] >= 1 && c[1] <= 3 {
		e.note("served: %s", <-served)
		_, err := http.Get("http://" + addr + "/")
		e.note("next call: %v", err != nil)
	}
	e.note("%s", <-result)
	if c[1] == 0 || c[1] > 3 {
		s.Close()
		e.note("served: %s", <-served)
	}
	s.Close()
	for i := 0; i < 24; i++ {
		e.mu.Lock()
		ended := e.ended
		e.mu.Unlock()
		if ended {
			break
		}
		time.Sleep(u / 4)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	return order(e.obs)
}

// ----------------------------------------------------------------- client

type remote struct {
	status int
	delay  time.Duration
	body   string
	hangup bool
	refuse bool
}

var clientURLs = []string{
	"http://%s/write?db=x&precision=ms",
	"http://%s/write?db=a+b%%26c",
	"http://user:pa%%20ss@%s/write",
	"http://%s",
	"http://%s/a%%2Fb?",
	"ftp://%s/",
	"http:///x",
	"http://%s/bad%%zz",
}

type doer interface {
	Do(*http.Request) (*http.Response, error)
}

func clientScript(c []int, host string, cl doer, post func(u, ct string, b io.Reader) (*http.Response, error), seen *[]string, mu *sync.Mutex) (obs []string) {
	u := strings.ReplaceAll(clientURLs[c[0]], "%s", host)
	u = strings.ReplaceAll(u, "%%", "%")
	payload := []string{"", "line value=1\n", strings.Repeat("x", 100000)}[c[2]]
	var resp *http.Response
	var err error
	switch c[3] {
	case 0:
		resp, err = post(u, "application/json; charset=UTF-8", strings.NewReader(payload))
	case 1:
		var req *http.Request
		req, err = http.NewRequest("POST", u, bytes.NewBufferString(payload))
		if err == nil {
			req.SetBasicAuth("me", "secret")
			resp, err = cl.Do(req)
		}
	}
	if err != nil {
		timeout := false
		if ne, ok := err.(net.Error); ok {
			timeout = ne.Timeout()
		}
		var ue *url.Error
		obs = append(obs, fmt.Sprint("error timeout=", timeout, " urlerror=", errors.As(err, &ue)))
	} else {
		b, rerr := io.ReadAll(resp.Body)
		obs = append(obs, fmt.Sprintf("answer %d %q %q %s", resp.StatusCode, resp.Status, b, bodyErr(rerr)))
		resp.Body.Close()
		_, rerr = resp.Body.Read(make([]byte, 1))
		obs = append(obs, "after close: "+fmt.Sprint(rerr != nil))
	}
	mu.Lock()
	defer mu.Unlock()
	return append(obs, *seen...)
}

func describe(method, path, query string, h http.Header, body []byte) string {
	u, p, ok := (&http.Request{Header: h}).BasicAuth()
	return fmt.Sprintf("seen %s %s ? %s auth %q %q %v type %q body %d %s", method, path, query, u, p, ok, h.Get("Content-Type"), len(body), brief(body))
}

var remotes = []remote{
	{status: 204}, {status: 200, body: "fine"}, {status: 400, body: "bad"}, {status: 404}, {status: 500, body: "oops"}, {status: 503}, {status: 301},
	{status: 204, delay: hu}, {status: 204, delay: 4 * hu}, {status: 500, delay: 4 * hu, body: "late"}, {hangup: true}, {refuse: true},
}

func init() {
	addPart("http-server", "request bodies arriving in pieces, kinds of handlers, stopping the server meanwhile", func(p *part) {
		var cases [][]int
		for m := range handlerModes {
			for a := range actions {
				for d := 0; d <= 3; d++ {
					sequences(len(pieceKinds), d, func(s []int) {
						for i, k := range s {
							if k == 2 && i != len(s)-1 {
								return
							}
							if k == 2 && a == 3 && (m == 2 || m == 4) {
								// net/http lingers for 500 ms on
								// connections with unread failing bodies,
								// which the model does not do; nothing
								// here uses Shutdown
								return
							}
						}
						cases = append(cases, append([]int{m, a}, s...))
					})
					if d == 0 {
						continue
					}
				}
			}
		}
		parallel(96, cases, func(_ int, c []int) {
			name := handlerModes[c[0]] + " / " + actions[c[1]]
			for _, k := range c[2:] {
				name += " / " + pieceKinds[k]
			}
			p.compare(name,
				func(int) []string { modelMu.Lock(); defer modelMu.Unlock(); return serverModel(c) },
				func(patience int) []string { return serverReal(c, patience) })
		})
	})

	addPart("http-client", "kinds of answers, URLs, payloads and credentials", func(p *part) {
		var cases [][]int
		for u := range clientURLs {
			for r := range remotes {
				for b := 0; b < 3; b++ {
					for k := 0; k < 2; k++ {
						cases = append(cases, []int{u, r, b, k})
					}
				}
			}
		}
		parallel(64, cases, func(_ int, c []int) {
			r := remotes[c[1]]
			p.compare(fmt.Sprint(clientURLs[c[0]], r, c[2:]),
				func(int) (obs []string) {
					modelMu.Lock()
					defer modelMu.Unlock()
					if v := inModel(func() {
						var mu sync.Mutex
						var seen []string
						mhttp.Setup().Do = func(q *mhttp.Request) mhttp.Response {
							if r.refuse {
								return mhttp.Response{Err: errors.New("connection refused")}
							}
							path := q.URL.EscapedPath()
							if path == "" {
								path = "/"
							}
							seen = append(seen, describe(q.Method, path, q.URL.RawQuery, q.Header, q.Body))
							if r.hangup {
								return mhttp.Response{Err: io.EOF}
							}
							body := r.body
							return mhttp.Response{Status: r.status, Delay: r.delay, Body: body}
						}
						cl := &mhttp.Client{Timeout: 2 * hu}
						obs = clientScript(c, "127.0.0.1:9", cl, cl.Post, &seen, &mu)
					}); v != nil {
						return v
					}
					return obs
				},
				func(patience int) []string {
					var mu sync.Mutex
					var seen []string
					l, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						return []string{err.Error()}
					}
					host := l.Addr().String()
					s := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
						b, _ := io.ReadAll(q.Body)
						mu.Lock()
						seen = append(seen, describe(q.Method, q.URL.EscapedPath(), q.URL.RawQuery, q.Header, b))
						mu.Unlock()
						if r.hangup {
							panic(http.ErrAbortHandler)
						}
						time.Sleep(r.delay * time.Duration(patience))
						w.WriteHeader(r.status)
						io.WriteString(w, r.body)
					})}
					if r.refuse {
						l.Close()
					} else {
						go s.Serve(l)
						defer s.Close()
					}
					tr := &http.Transport{}
					defer tr.CloseIdleConnections()
					cl := &http.Client{Timeout: 2 * hu * time.Duration(patience), Transport: tr}
					return clientScript(c, host, cl, cl.Post, &seen, &mu)
				})
		})
	})
}
