//go:build go1.21

package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/fnats"
	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats-server/v2/test"
	"github.com/nats-io/nats.go"
)

// drv is what a script needs from either implementation.
type drv interface {
	connect(name string, opts connOpts) error
	sub(conn, subj, queue string, label string) error
	pub(conn, subj string, data []byte) error
	unsub(label string) error
	subDrain(label string) error
	auto(label string, n int) error
	limits(label string, msgs, bytes int) error
	dropped(label string) string
	pending(label string) string
	valid(label string) string
	flush(conn string, d time.Duration) error
	close(conn string)
	drain(conn string) error
	status(conn string) string
	block(label string)
	release(label string)
	settle(patience int)
	got() []string
	down()
	up()
	end()
}

type connOpts struct {
	maxReconnect int
	wait         time.Duration
	buf          int
}

// ------------------------------------------------------------------ model

type modelDrv struct {
	conns map[string]*fnats.Conn
	subs  map[string]*fnats.Subscription
	gates map[string]*mgate
	recv  []string
}

type mgate struct {
	blocked bool
	w       mcrt.Waiter
}

func newModelDrv() *modelDrv {
	fnats.Setup()
	return &modelDrv{conns: map[string]*fnats.Conn{}, subs: map[string]*fnats.Subscription{}, gates: map[string]*mgate{}}
}

func (d *modelDrv) connect(name string, o connOpts) error {
	opts := []fnats.Option{fnats.Name(name)}
	if o.wait > 0 {
		opts = append(opts, fnats.MaxReconnects(o.maxReconnect), fnats.ReconnectWait(o.wait))
	}
	if o.buf > 0 {
		opts = append(opts, fnats.ReconnectBufSize(o.buf))
	}
	c, err := fnats.Connect("x", opts...)
	if err == nil {
		d.conns[name] = c
	}
	return err
}
func (d *modelDrv) sub(conn, subj, queue, label string) error {
	g := &mgate{}
	cb := func(m *fnats.Msg) {
		if g.blocked {
			mcrt.BlockUntil("gate", &g.w, -1, func() bool { return !g.blocked })
		}
		d.recv = append(d.recv, fmt.Sprintf("%s %s %s", label, m.Subject, brief(m.Data)))
	}
	var s *fnats.Subscription
	var err error
	if queue != "" {
		s, err = d.conns[conn].QueueSubscribe(subj, queue, cb)
	} else {
		s, err = d.conns[conn].Subscribe(subj, cb)
	}
	if err == nil {
		d.subs[label] = s
		d.gates[label] = g
	}
	return err
}
func (d *modelDrv) pub(conn, subj string, data []byte) error {
	return d.conns[conn].Publish(subj, data)
}
func (d *modelDrv) unsub(l string) error            { return d.subs[l].Unsubscribe() }
func (d *modelDrv) subDrain(l string) error         { return d.subs[l].Drain() }
func (d *modelDrv) auto(l string, n int) error      { return d.subs[l].AutoUnsubscribe(n) }
func (d *modelDrv) limits(l string, m, b int) error { return d.subs[l].SetPendingLimits(m, b) }
func (d *modelDrv) dropped(l string) string {
	n, err := d.subs[l].Dropped()
	return fmt.Sprint(n, " ", errText(err))
}
func (d *modelDrv) pending(l string) string {
	n, b, err := d.subs[l].Pending()
	return fmt.Sprint(n, " ", b, " ", errText(err))
}
func (d *modelDrv) valid(l string) string                 { return fmt.Sprint(d.subs[l].IsValid()) }
func (d *modelDrv) flush(c string, t time.Duration) error { return d.conns[c].FlushTimeout(t) }
func (d *modelDrv) close(c string)                        { d.conns[c].Close() }
func (d *modelDrv) drain(c string) error                  { return d.conns[c].Drain() }
func (d *modelDrv) block(l string)                        { d.gates[l].blocked = true }
func (d *modelDrv) release(l string)                      { d.gates[l].blocked = false; d.gates[l].w.WakeAll() }
func (d *modelDrv) settle(int)                            { settleModel() }
func (d *modelDrv) down()                                 { fnats.B.GoDown() }
func (d *modelDrv) up()                                   { fnats.B.GoUp() }
func (d *modelDrv) end()                                  {}
func (d *modelDrv) status(c string) string {
	n := d.conns[c]
	return fmt.Sprintf("closed=%v connected=%v reconnecting=%v subs=%d", n.IsClosed(), n.IsConnected(), n.IsReconnecting(), n.NumSubscriptions())
}
func (d *modelDrv) got() []string { g := d.recv; d.recv = nil; return g }

// ------------------------------------------------------------------- real

type natsServer struct {
	port int
	s    *server.Server
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func (n *natsServer) start() {
	opts := test.DefaultTestOptions
	opts.Port = n.port
	opts.NoSigs = true
	s, err := server.NewServer(&opts)
	if err != nil {
		panic(err)
	}
	go s.Start()
	if !s.ReadyForConnections(10 * time.Second) {
		panic("nats server does not start")
	}
	n.s = s
}

type realDrv struct {
	srv   *natsServer
	conns map[string]*nats.Conn
	subs  map[string]*nats.Subscription
	gates map[string]chan struct{}
	mu    sync.Mutex
	recv  []string
	open  []*nats.Conn
}

func newRealDrv(srv *natsServer) *realDrv {
	return &realDrv{srv: srv, conns: map[string]*nats.Conn{}, subs: map[string]*nats.Subscription{}, gates: map[string]chan struct{}{}}
}

func (d *realDrv) connect(name string, o connOpts) error {
	opts := []nats.Option{nats.Name(name), nats.DrainTimeout(5 * time.Second), nats.ErrorHandler(func(*nats.Conn, *nats.Subscription, error) {})}
	if o.wait > 0 {
		opts = append(opts, nats.MaxReconnects(o.maxReconnect), nats.ReconnectWait(o.wait), nats.ReconnectJitter(0, 0))
	}
	if o.buf > 0 {
		opts = append(opts, nats.ReconnectBufSize(o.buf))
	}
	c, err := nats.Connect(fmt.Sprintf("nats://127.0.0.1:%d", d.srv.port), opts...)
	if err == nil {
		d.conns[name] = c
		d.open = append(d.open, c)
	}
	return err
}
func (d *realDrv) sub(conn, subj, queue, label string) error {
	cb := func(m *nats.Msg) {
		d.mu.Lock()
		g := d.gates[label]
		d.mu.Unlock()
		if g != nil {
			<-g
		}
		d.mu.Lock()
		d.recv = append(d.recv, fmt.Sprintf("%s %s %s", label, m.Subject, brief(m.Data)))
		d.mu.Unlock()
	}
	var s *nats.Subscription
	var err error
	if queue != "" {
		s, err = d.conns[conn].QueueSubscribe(subj, queue, cb)
	} else {
		s, err = d.conns[conn].Subscribe(subj, cb)
	}
	if err == nil {
		d.subs[label] = s
	}
	return err
}
func (d *realDrv) pub(conn, subj string, data []byte) error { return d.conns[conn].Publish(subj, data) }
func (d *realDrv) unsub(l string) error                     { return d.subs[l].Unsubscribe() }
func (d *realDrv) subDrain(l string) error                  { return d.subs[l].Drain() }
func (d *realDrv) auto(l string, n int) error               { return d.subs[l].AutoUnsubscribe(n) }
func (d *realDrv) limits(l string, m, b int) error          { return d.subs[l].SetPendingLimits(m, b) }
func (d *realDrv) dropped(l string) string {
	n, err := d.subs[l].Dropped()
	return fmt.Sprint(n, " ", errText(err))
}
func (d *realDrv) pending(l string) string {
	n, b, err := d.subs[l].Pending()
	return fmt.Sprint(n, " ", b, " ", errText(err))
}
func (d *realDrv) valid(l string) string                 { return fmt.Sprint(d.subs[l].IsValid()) }
func (d *realDrv) flush(c string, t time.Duration) error { return d.conns[c].FlushTimeout(t) }
func (d *realDrv) close(c string)                        { d.conns[c].Close() }
func (d *realDrv) drain(c string) error                  { return d.conns[c].Drain() }
func (d *realDrv) block(l string) {
	d.mu.Lock()
	d.gates[l] = make(chan struct{})
	d.mu.Unlock()
}
func (d *realDrv) release(l string) {
	d.mu.Lock()
	g := d.gates[l]
	delete(d.gates, l)
	d.mu.Unlock()
	if g != nil {
		close(g)
	}
}
func (d *realDrv) settle(patience int) {
	for round := 0; round < 2; round++ {
		for _, c := range d.open {
			c.FlushTimeout(2 * time.Second)
		}
	}
	until := time.Now().Add(time.Duration(patience) * 500 * time.Millisecond)
	for time.Now().Before(until) {
		busy := false
		for l, s := range d.subs {
			d.mu.Lock()
			blocked := d.gates[l] != nil
			d.mu.Unlock()
			if n, _, err := s.Pending(); err == nil && n > 0 && !blocked {
				busy = true
			}
		}
		for _, c := range d.open {
			if c.IsDraining() && !c.IsClosed() {
				busy = true
			}
		}
		if !busy {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	if patience > 1 {
		time.Sleep(time.Duration(patience) * 10 * time.Millisecond)
	}
}
func (d *realDrv) down() { d.srv.s.Shutdown(); d.srv.s.WaitForShutdown() }
func (d *realDrv) up()   { d.srv.start() }
func (d *realDrv) end() {
	for l := range d.gates {
		d.release(l)
	}
	for _, c := range d.open {
		c.Close()
	}
}
func (d *realDrv) status(c string) string {
	n := d.conns[c]
	return fmt.Sprintf("closed=%v connected=%v reconnecting=%v subs=%d", n.IsClosed(), n.IsConnected(), n.IsReconnecting(), n.NumSubscriptions())
}
func (d *realDrv) got() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	g := d.recv
	d.recv = nil
	return g
}

func brief(b []byte) string {
	if len(b) > 20 {
		return fmt.Sprintf("%d bytes", len(b))
	}
	return string(b)
}

// perSub lists deliveries by subscription, each in order; members of a
// queue group are interchangeable.
func perSub(got []string) string {
	m := map[string][]string{}
	for _, g := range got {
		l := strings.SplitN(g, " ", 2)[0]
		if strings.HasPrefix(l, "q") {
			l = "q"
		}
		m[l] = append(m[l], g[strings.Index(g, " ")+1:])
	}
	var out []string
	for l, v := range m {
		if l == "q" {
			sort.Strings(v)
		}
		out = append(out, l+":"+strings.Join(v, ","))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// script performs seq on d and returns the observations.
func script(d drv, seq []int, patience int) (obs []string) {
	n := 0
	last := ""
	note := func(op string, v interface{}) { obs = append(obs, fmt.Sprintf("%s: %v", op, v)) }
	if err := d.connect("A", connOpts{}); err != nil {
		return []string{err.Error()}
	}
	if err := d.connect("B", connOpts{}); err != nil {
		return []string{err.Error()}
	}
	sub := func(c, subj, q string) {
		n++
		l := fmt.Sprintf("s%d", n)
		if q != "" {
			l = fmt.Sprintf("q%d", n)
		}
		err := d.sub(c, subj, q, l)
		note("sub "+c+" "+subj+" "+q, errText(err))
		if err == nil {
			last = l
		}
	}
	// every sequence starts with one subscription
	sub("A", "a", "")
	d.settle(patience)
	for i, op := range seq {
		msg := []byte(fmt.Sprintf("m%d", i))
		natsOps[op].do(d, &last, msg, sub, note)
		d.settle(patience)
		note("got", perSub(d.got()))
	}
	note("A", d.status("A"))
	note("B", d.status("B"))
	d.end()
	return obs
}

type natsOp struct {
	name string
	do   func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{}))
}

var natsOps = []natsOp{
	{"pub A a", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("pub", errText(d.pub("A", "a", msg)))
	}},
	{"pub B a", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("pub", errText(d.pub("B", "a", msg)))
	}},
	{"pub B x.y", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("pub", errText(d.pub("B", "x.y", msg)))
	}},
	{"sub B a", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("B", "a", "")
	}},
	{"sub A x.*", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("A", "x.*", "")
	}},
	{"sub B >", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("B", ">", "")
	}},
	{"qsub A a", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("A", "a", "g")
	}},
	{"qsub B a", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("B", "a", "g")
	}},
	{"qsub B a other", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("B", "a", "h")
	}},
	{"unsub", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("unsub", errText(d.unsub(*last)))
	}},
	{"sub drain", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("subdrain", errText(d.subDrain(*last)))
	}},
	{"close A", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		d.close("A")
	}},
	{"drain A", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("drain", errText(d.drain("A")))
	}},
	{"flush A", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("flush", errText(d.flush("A", time.Second)))
		note("flush 0", errText(d.flush("A", 0)))
	}},
	{"bad args", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		sub("A", "", "")
		sub("A", "a..b", "")
		sub("A", "a b", "")
		sub("A", ".a", "")
		sub("A", "a", "q q")
		note("pub", errText(d.pub("A", "", msg)))
		note("big", errText(d.pub("A", "a", make([]byte, 1024*1024+1))))
		note("limit", errText(d.pub("A", "a", make([]byte, 1024*1024))))
	}},
	{"limits", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("limits", errText(d.limits(*last, 2, 10)))
		note("limits", errText(d.limits(*last, 0, 10)))
		note("limits", errText(d.limits(*last, 10, 0)))
		note("limits", errText(d.limits(*last, -1, 3)))
	}},
	{"counts", func(d drv, last *string, msg []byte, sub func(c, s, q string), note func(string, interface{})) {
		note("dropped", d.dropped(*last))
		note("pending", d.pending(*last))
		note("valid", d.valid(*last))
	}},
}

func seqName(seq []int) string {
	var out []string
	for _, s := range seq {
		out = append(out, natsOps[s].name)
	}
	return strings.Join(out, " / ")
}

func modelRun(f func(d drv) []string) []string {
	modelMu.Lock()
	defer modelMu.Unlock()
	var obs []string
	if v := inModel(func() { obs = f(newModelDrv()) }); v != nil {
		return v
	}
	return obs
}

func newServers(n int) []*natsServer {
	var out []*natsServer
	for i := 0; i < n; i++ {
		s := &natsServer{port: freePort()}
		s.start()
		out = append(out, s)
	}
	return out
}

func init() {
	addPart("nats-sequences", "all sequences of client operations on two connections", func(p *part) {
		const workers = 8
		srvs := newServers(workers)
		var cases [][]int
		for d := 1; d <= depth; d++ {
			sequences(len(natsOps), d, func(s []int) { cases = append(cases, s) })
		}
		parallel(workers, cases, func(w int, seq []int) {
			p.compare(seqName(seq),
				func(int) []string { return modelRun(func(d drv) []string { return script(d, seq, 1) }) },
				func(patience int) []string { return script(newRealDrv(srvs[w]), seq, patience) })
		})
		for _, s := range srvs {
			s.s.Shutdown()
		}
	})

	addPart("nats-pending", "bursts of messages to a busy subscriber with client side limits", func(p *part) {
		const workers = 8
		srvs := newServers(workers)
		sizes := []int{1, 4, 7}
		limits := [][2]int{{-1, -1}, {-1, 8}, {-1, 10}, {2, -1}, {3, 8}, {1, 1}}
		var cases [][]int
		for l := range limits {
			for n := 1; n <= 5; n++ {
				sequences(len(sizes), n, func(s []int) { cases = append(cases, append([]int{l}, s...)) })
			}
		}
		run := func(d drv, c []int, patience int) (obs []string) {
			note := func(op string, v interface{}) { obs = append(obs, fmt.Sprintf("%s: %v", op, v)) }
			if d.connect("A", connOpts{}) != nil || d.connect("B", connOpts{}) != nil {
				return []string{"connect failed"}
			}
			note("sub", errText(d.sub("A", "a", "", "s1")))
			note("limits", errText(d.limits("s1", limits[c[0]][0], limits[c[0]][1])))
			d.settle(patience)
			d.block("s1")
			for i, s := range c[1:] {
				note("pub", errText(d.pub("B", "a", []byte(strings.Repeat(string(rune('a'+i)), sizes[s])))))
				d.settle(patience)
				note("dropped", d.dropped("s1"))
				note("pending", d.pending("s1"))
			}
			d.release("s1")
			d.settle(patience)
			note("got", perSub(d.got()))
			note("dropped", d.dropped("s1"))
			note("pending", d.pending("s1"))
			// usable again afterwards
			note("pub", errText(d.pub("B", "a", []byte("z"))))
			d.settle(patience)
			note("got", perSub(d.got()))
			d.end()
			return obs
		}
		parallel(workers, cases, func(w int, c []int) {
			p.compare(fmt.Sprint(c),
				func(int) []string { return modelRun(func(d drv) []string { return run(d, c, 1) }) },
				func(patience int) []string { return run(newRealDrv(srvs[w]), c, patience) })
		})
		for _, s := range srvs {
			s.s.Shutdown()
		}
	})

	addPart("nats-outages", "server outages: buffered publishing, resubscription, attempts used up, closing meanwhile", func(p *part) {
		const workers = 8
		ops := []struct {
			name string
			do   func(d drv, note func(string, interface{}), i int)
		}{
			{"pub", func(d drv, note func(string, interface{}), i int) {
				note("pub", errText(d.pub("A", "a", []byte(fmt.Sprint("m", i)))))
			}},
			{"pub large", func(d drv, note func(string, interface{}), i int) {
				note("pub", errText(d.pub("A", "a", []byte(strings.Repeat("x", 600)))))
			}},
			{"sub", func(d drv, note func(string, interface{}), i int) {
				note("sub", errText(d.sub("A", "a", "", fmt.Sprint("t", i))))
			}},
			{"unsub", func(d drv, note func(string, interface{}), i int) {
				note("unsub", errText(d.unsub("s1")))
			}},
			{"flush", func(d drv, note func(string, interface{}), i int) {
				note("flush", errText(d.flush("A", 50*time.Millisecond)))
			}},
			{"close", func(d drv, note func(string, interface{}), i int) { d.close("A") }},
			{"nothing", func(d drv, note func(string, interface{}), i int) {}},
		}
		var cases [][]int
		for _, mode := range []int{0, 1} { // reconnect for ever, give up
			for _, bs := range []int{0, 1} { // default buffer, small buffer
				sequences(len(ops), outageDepth, func(s []int) { cases = append(cases, append([]int{mode, bs}, s...)) })
			}
		}
		run := func(d drv, c []int, patience int, pause func(time.Duration)) (obs []string) {
			note := func(op string, v interface{}) { obs = append(obs, fmt.Sprintf("%s: %v", op, v)) }
			o := connOpts{maxReconnect: -1, wait: 100 * time.Millisecond}
			if c[0] == 1 {
				o.maxReconnect = 2
			}
			if c[1] == 1 {
				o.buf = 1000
			}
			note("connect", errText(d.connect("A", o)))
			note("connect", errText(d.connect("B", connOpts{maxReconnect: -1, wait: 100 * time.Millisecond})))
			note("sub", errText(d.sub("A", "a", "", "s1")))
			d.settle(patience)
			note("pub", errText(d.pub("A", "a", []byte("before"))))
			d.settle(patience)
			note("got", perSub(d.got()))
			d.down()
			pause(30 * time.Millisecond)
			note("down", d.status("A"))
			note("connect", errText(d.connect("C", connOpts{})))
			for i, op := range c[2:] {
				ops[op].do(d, note, i)
			}
			if c[0] == 1 {
				pause(500 * time.Millisecond) // two attempts fail
			}
			note("still", d.status("A"))
			d.up()
			pause(time.Duration(400*patience) * time.Millisecond)
			note("up", d.status("A"))
			d.settle(patience)
			note("got", perSub(d.got()))
			note("pub", errText(d.pub("B", "a", []byte("after"))))
			d.settle(patience)
			note("got", perSub(d.got()))
			note("pub", errText(d.pub("A", "a", []byte("again"))))
			d.settle(patience)
			note("got", perSub(d.got()))
			note("end", d.status("A"))
			d.end()
			return obs
		}
		name := func(c []int) string {
			s := fmt.Sprintf("giveup=%d smallbuf=%d", c[0], c[1])
			for _, o := range c[2:] {
				s += " / " + ops[o].name
			}
			return s
		}
		parallel(workers, cases, func(w int, c []int) {
			p.compare(name(c),
				func(int) []string {
					return modelRun(func(d drv) []string {
						return run(d, c, 1, func(t time.Duration) { mcrt.SleepNanos(int64(t)); mcrt.Quiesce() })
					})
				},
				func(patience int) []string {
					srv := &natsServer{port: freePort()}
					srv.start()
					defer func() { srv.s.Shutdown() }()
					return run(newRealDrv(srv), c, patience, time.Sleep)
				})
		})
	})
}
