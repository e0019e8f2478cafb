//go:build go1.21

// Package fnats is an in-memory model of the parts of nats.go and of a
// NATS server that influx-spout uses.  Its behaviour is compared with the
// real client and server by the conformance check (see DESIGN.md).
package fnats

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

const (
	DefaultURL                  = "nats://127.0.0.1:4222"
	DefaultPort                 = 4222
	DefaultSubPendingMsgsLimit  = 65536
	DefaultSubPendingBytesLimit = 65536 * 1024
)

var (
	ErrConnectionClosed     = errors.New("nats: connection closed")
	ErrConnectionDraining   = errors.New("nats: connection draining")
	ErrBadSubscription      = errors.New("nats: invalid subscription")
	ErrTypeSubscription     = errors.New("nats: invalid subscription type")
	ErrBadSubject           = errors.New("nats: invalid subject")
	ErrBadQueueName         = errors.New("nats: invalid queue name")
	ErrSlowConsumer         = errors.New("nats: slow consumer, messages dropped")
	ErrTimeout              = errors.New("nats: timeout")
	ErrMaxPayload           = errors.New("nats: maximum payload exceeded")
	ErrInvalidArg           = errors.New("nats: invalid argument")
	ErrInvalidConnection    = errors.New("nats: invalid connection")
	ErrInvalidMsg           = errors.New("nats: invalid message or message nil")
	ErrNoServers            = errors.New("nats: no servers available for connection")
	ErrReconnectBufExceeded = errors.New("nats: outbound buffer limit exceeded")
	ErrMaxMessages          = errors.New("nats: maximum messages delivered")
)

// Pub is one message accepted by the broker (or refused, with Err set).
type Pub struct {
	At   int64
	Conn string
	ID   int
	Subj string
	Data []byte
	Err  error
}

// Broker is the modelled NATS server, one per execution.
type Broker struct {
	MaxPayload int
	Log        []Pub
	Conns      []*Conn
	subs       []*Subscription
	sid        int

	// Hooks decide environment faults; nil means none.
	PublishErr   func(c *Conn, subj string, data []byte) error
	ConnectErr   func(url string, name string) error
	SubscribeErr func(c *Conn, subj, queue string) error
	FlushErr     func(c *Conn) error
	// SubDelay is how long it takes until the server knows about a new
	// subscription if the client does not flush (nil: no time).
	SubDelay func(subj string) time.Duration

	// CloseDelay is how long closing a connection takes (what is still
	// buffered is written to the socket first).
	CloseDelay time.Duration
	// OnPublish observes every accepted message.
	OnPublish func(p *Pub)
	// QueuePick chooses the queue group member (default: a free choice is
	// not made, the first member with the fewest deliveries is used).
	QueuePick func(n int) int
	// RTT is the duration of a round trip to the server (connecting,
	// flushing); nil: no time.
	RTT func() time.Duration

	down    bool
	downGen int
}

// B is the broker of the current execution.
var B *Broker

// Setup creates a fresh broker.
func Setup() *Broker {
	B = &Broker{MaxPayload: 1024 * 1024}
	return B
}

type (
	// MsgHandler is a callback for messages.
	MsgHandler func(msg *Msg)
	// ConnHandler is a connection event callback.
	ConnHandler func(*Conn)
	// ConnErrHandler is a connection error callback.
	ConnErrHandler func(*Conn, error)
	// ErrHandler is an async error callback.
	ErrHandler func(*Conn, *Subscription, error)
)

// Options is the (mostly ignored) connection configuration.
type Options struct {
	Url                         string
	Servers                     []string
	NoRandomize                 bool
	NoEcho                      bool
	Name                        string
	Verbose                     bool
	Pedantic                    bool
	Secure                      bool
	AllowReconnect              bool
	MaxReconnect                int
	ReconnectWait               time.Duration
	CustomReconnectDelayCB      ReconnectDelayHandler
	ReconnectJitter             time.Duration
	ReconnectJitterTLS          time.Duration
	Timeout                     time.Duration
	DrainTimeout                time.Duration
	FlusherTimeout              time.Duration
	PingInterval                time.Duration
	MaxPingsOut                 int
	ClosedCB                    ConnHandler
	DisconnectedCB              ConnHandler
	DisconnectedErrCB           ConnErrHandler
	ReconnectedCB               ConnHandler
	DiscoveredServersCB         ConnHandler
	AsyncErrorCB                ErrHandler
	ReconnectBufSize            int
	SubChanLen                  int
	User                        string
	Password                    string
	Token                       string
	UseOldRequestStyle          bool
	NoCallbacksAfterClientClose bool
}

// ReconnectDelayHandler decides how long to wait before a further attempt.
type ReconnectDelayHandler func(attempts int) time.Duration

const (
	DefaultMaxReconnect     = 60
	DefaultReconnectWait    = 2 * time.Second
	DefaultTimeout          = 2 * time.Second
	DefaultPingInterval     = 2 * time.Minute
	DefaultMaxPingOut       = 2
	DefaultReconnectBufSize = 8 * 1024 * 1024
	DefaultDrainTimeout     = 30 * time.Second
)

// GetDefaultOptions returns the options of a plain Connect.
func GetDefaultOptions() Options {
	return Options{
		AllowReconnect:   true,
		MaxReconnect:     DefaultMaxReconnect,
		ReconnectWait:    DefaultReconnectWait,
		Timeout:          DefaultTimeout,
		PingInterval:     DefaultPingInterval,
		MaxPingsOut:      DefaultMaxPingOut,
		ReconnectBufSize: DefaultReconnectBufSize,
		DrainTimeout:     DefaultDrainTimeout,
	}
}

// Option configures a connection.
type Option func(*Options) error

func Name(n string) Option { return func(o *Options) error { o.Name = n; return nil } }
func MaxReconnects(n int) Option {
	return func(o *Options) error { o.MaxReconnect = n; return nil }
}
func nop() Option { return func(*Options) error { return nil } }
func ReconnectWait(d time.Duration) Option {
	return func(o *Options) error { o.ReconnectWait = d; return nil }
}
func ReconnectBufSize(n int) Option {
	return func(o *Options) error { o.ReconnectBufSize = n; return nil }
}
func Timeout(time.Duration) Option        { return nop() }
func PingInterval(time.Duration) Option   { return nop() }
func MaxPingsOutstanding(int) Option      { return nop() }
func FlusherTimeout(time.Duration) Option { return nop() }
func DrainTimeout(time.Duration) Option   { return nop() }
func NoReconnect() Option {
	return func(o *Options) error { o.AllowReconnect = false; return nil }
}
func CustomReconnectDelay(cb ReconnectDelayHandler) Option {
	return func(o *Options) error { o.CustomReconnectDelayCB = cb; return nil }
}
func ReconnectJitter(time.Duration, time.Duration) Option { return nop() }
func NoCallbacksAfterClientClose() Option {
	return func(o *Options) error { o.NoCallbacksAfterClientClose = true; return nil }
}
func UseOldRequestStyle() Option     { return nop() }
func NoEcho() Option                 { return nop() }
func DontRandomize() Option          { return nop() }
func SyncQueueLen(int) Option        { return nop() }
func UserInfo(string, string) Option { return nop() }
func Token(string) Option            { return nop() }
func DisconnectErrHandler(cb ConnErrHandler) Option {
	return func(o *Options) error { o.DisconnectedErrCB = cb; return nil }
}
func DisconnectHandler(cb ConnHandler) Option {
	return func(o *Options) error { o.DisconnectedCB = cb; return nil }
}
func ReconnectHandler(cb ConnHandler) Option {
	return func(o *Options) error { o.ReconnectedCB = cb; return nil }
}
func DiscoveredServersHandler(ConnHandler) Option { return nop() }
func ClosedHandler(cb ConnHandler) Option {
	return func(o *Options) error { o.ClosedCB = cb; return nil }
}
func ErrorHandler(cb ErrHandler) Option {
	return func(o *Options) error { o.AsyncErrorCB = cb; return nil }
}

// Conn models nats.Conn.
type Conn struct {
	Opts   Options
	id     int
	closed bool
	drain  bool
	// lost: the connection is being re-established
	lost bool
	buf  []Pub
	size int
	w    mcrt.Waiter
}

// GoDown ends the server: all connections are lost.
func (b *Broker) GoDown() {
	b.down = true
	b.downGen++
	for _, c := range b.Conns {
		if c.closed || c.lost {
			continue
		}
		if c.Opts.DisconnectedErrCB != nil {
			c := c
			mcrt.GoNamed("nats-disconnect-cb", func() { c.Opts.DisconnectedErrCB(c, errors.New("EOF")) })
		} else if c.Opts.DisconnectedCB != nil {
			c := c
			mcrt.GoNamed("nats-disconnect-cb", func() { c.Opts.DisconnectedCB(c) })
		}
		if !c.Opts.AllowReconnect {
			c.Close()
			continue
		}
		c.lost = true
		c := c
		mcrt.GoNamed("nats-reconnect", c.reconnect)
	}
}

// GoUp starts the server again.
func (b *Broker) GoUp() { b.down = false }

// reconnect tries to reach the server again, as often as allowed.
func (nc *Conn) reconnect() {
	for n := 0; nc.Opts.MaxReconnect < 0 || n < nc.Opts.MaxReconnect; n++ {
		wait := nc.Opts.ReconnectWait
		if nc.Opts.CustomReconnectDelayCB != nil {
			wait = nc.Opts.CustomReconnectDelayCB(n + 1)
		}
		if wait <= 0 {
			wait = time.Millisecond // the attempt itself takes time
		}
		mcrt.BlockUntil("nats-reconnect-wait", &nc.w, mcrt.NowNanos()+int64(wait), func() bool { return nc.closed })
		if nc.closed {
			return
		}
		if B.down {
			continue
		}
		nc.lost = false
		for _, p := range nc.buf {
			p.At = mcrt.NowNanos()
			B.Log = append(B.Log, p)
			if B.OnPublish != nil {
				B.OnPublish(&B.Log[len(B.Log)-1])
			}
			B.route(p.Subj, p.Data)
		}
		nc.buf, nc.size = nil, 0
		nc.w.WakeAll()
		if nc.Opts.ReconnectedCB != nil {
			mcrt.GoNamed("nats-reconnect-cb", func() { nc.Opts.ReconnectedCB(nc) })
		}
		return
	}
	nc.Close()
}

// Connect connects to the broker.
func Connect(url string, options ...Option) (*Conn, error) {
	o := GetDefaultOptions()
	o.Url = url
	for _, opt := range options {
		if opt != nil {
			if err := opt(&o); err != nil {
				return nil, err
			}
		}
	}
	return o.Connect()
}

// Connect connects to the broker.
func (o Options) Connect() (*Conn, error) {
	if o.Url == "" && len(o.Servers) > 0 {
		o.Url = o.Servers[0]
	}
	if o.ReconnectBufSize == 0 {
		o.ReconnectBufSize = DefaultReconnectBufSize
	}
	mcrt.Yield("nats-connect")
	if B.ConnectErr != nil {
		if err := B.ConnectErr(o.Url, o.Name); err != nil {
			return nil, err
		}
	}
	if B.RTT != nil {
		mcrt.SleepNanos(int64(B.RTT()))
	}
	if B.down {
		return nil, ErrNoServers
	}
	c := &Conn{Opts: o, id: len(B.Conns)}
	B.Conns = append(B.Conns, c)
	return c, nil
}

// Msg models nats.Msg.
type Msg struct {
	Subject string
	Reply   string
	Data    []byte
	Sub     *Subscription
}

// Subscription models nats.Subscription.
type Subscription struct {
	Subject string
	Queue   string

	conn      *Conn
	sid       int
	cb        MsgHandler
	ch        chan *Msg
	pending   []*Msg
	w         mcrt.Waiter
	closed    bool
	pMsgs     int
	pBytes    int
	pMsgsMax  int
	pBytesMax int
	msgLimit  int
	byteLimit int
	dropped   int
	delivered int
	max       int
	enqueued  int
	activeAt  int64
	sc        bool // slow consumer, reported
}

// slow reports the first message dropped in a row.
func (s *Subscription) slow() {
	if cb := s.conn.Opts.AsyncErrorCB; cb != nil && !s.sc {
		mcrt.GoNamed("nats-error-cb", func() { cb(s.conn, s, ErrSlowConsumer) })
	}
	s.sc = true
}

func subjMatch(pat, subj string) bool {
	if pat == subj {
		return true
	}
	if !strings.ContainsAny(pat, "*>") {
		return false
	}
	pt, st := strings.Split(pat, "."), strings.Split(subj, ".")
	for i, p := range pt {
		if p == ">" {
			return len(st) > i
		}
		if i >= len(st) {
			return false
		}
		if p != "*" && p != st[i] {
			return false
		}
	}
	return len(pt) == len(st)
}

// Publish publishes data.
func (nc *Conn) Publish(subj string, data []byte) error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if subj == "" {
		return ErrBadSubject
	}
	mcrt.Yield("publish")
	mcrt.RaceRead(data)
	var err error
	switch {
	case nc.closed:
		err = ErrConnectionClosed
	case nc.drain:
		err = ErrConnectionDraining
	case len(data) > B.MaxPayload:
		err = ErrMaxPayload
	}
	if err == nil && B.PublishErr != nil {
		err = B.PublishErr(nc, subj, data)
	}
	b := make([]byte, len(data))
	mcrt.CopyBytes(b, data)
	if err == nil && nc.lost {
		if nc.size >= nc.Opts.ReconnectBufSize {
			return ErrReconnectBufExceeded
		}
		nc.size += len(fmt.Sprintf("PUB %s %d\r\n\r\n", subj, len(b))) + len(b)
		nc.buf = append(nc.buf, Pub{Conn: nc.Opts.Name, ID: nc.id, Subj: subj, Data: b})
		return nil
	}
	B.Log = append(B.Log, Pub{At: mcrt.NowNanos(), Conn: nc.Opts.Name, ID: nc.id, Subj: subj, Data: b, Err: err})
	mcrt.Logf("publish %s %q err=%v", subj, clip(b), err)
	if err != nil {
		return err
	}
	if B.OnPublish != nil {
		B.OnPublish(&B.Log[len(B.Log)-1])
	}
	B.route(subj, b)
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// Inject delivers a message from outside the modelled components.
func (b *Broker) Inject(subj string, data []byte) {
	mcrt.Logf("inject %s %q", subj, clip(data))
	if b.down {
		return
	}
	b.route(subj, data)
}

func (b *Broker) route(subj string, data []byte) {
	var queues []string
	for _, s := range b.subs {
		if !s.active() || !subjMatch(s.Subject, subj) {
			continue
		}
		if s.Queue == "" {
			s.enqueue(subj, data)
			continue
		}
		q := s.Queue + "\x00" + s.Subject
		seen := false
		for _, o := range queues {
			seen = seen || o == q
		}
		if seen {
			continue
		}
		queues = append(queues, q)
		var group []*Subscription
		for _, o := range b.subs {
			if o.active() && o.Queue == s.Queue && o.Subject == s.Subject {
				group = append(group, o)
			}
		}
		pick := 0
		if b.QueuePick != nil {
			pick = b.QueuePick(len(group))
		} else {
			for i, o := range group {
				if o.enqueued < group[pick].enqueued {
					pick = i
				}
			}
		}
		group[pick].enqueue(subj, data)
	}
}

func (s *Subscription) active() bool {
	return !s.closed && !s.conn.lost && mcrt.NowNanos() >= s.activeAt
}

func (s *Subscription) enqueue(subj string, data []byte) {
	b := make([]byte, len(data))
	mcrt.CopyBytes(b, data)
	s.enqueued++
	m := &Msg{Subject: subj, Data: b, Sub: s}
	if s.ch != nil {
		if !mcrt.EnvSend(s.ch, m) {
			s.dropped++
			s.slow()
		} else {
			s.sc = false
		}
		return
	}
	s.pMsgs++
	s.pBytes += len(b)
	if s.pMsgs > s.pMsgsMax {
		s.pMsgsMax = s.pMsgs
	}
	if s.pBytes > s.pBytesMax {
		s.pBytesMax = s.pBytes
	}
	if s.msgLimit > 0 && s.pMsgs > s.msgLimit || s.byteLimit > 0 && s.pBytes > s.byteLimit {
		s.dropped++
		s.pMsgs--
		s.pBytes -= len(b)
		s.slow()
		return
	}
	s.sc = false
	s.pending = append(s.pending, m)
	s.w.WakeAll()
}

func (s *Subscription) dispatcher() {
	for {
		mcrt.BlockUntil("nats-msg", &s.w, -1, func() bool { return len(s.pending) > 0 || s.closed })
		if s.closed {
			return
		}
		m := s.pending[0]
		s.pending = append(s.pending[:0:0], s.pending[1:]...)
		s.delivered++
		if s.cb != nil && (s.max == 0 || s.delivered <= s.max) {
			s.cb(m)
		}
		s.pMsgs--
		s.pBytes -= len(m.Data)
		if s.max > 0 && s.delivered >= s.max {
			s.remove()
			return
		}
	}
}

func badSubject(s string) bool {
	if strings.ContainsAny(s, " \t\r\n") {
		return true
	}
	for _, t := range strings.Split(s, ".") {
		if t == "" {
			return true
		}
	}
	return false
}

func (nc *Conn) subscribe(subj, queue string, cb MsgHandler, ch chan *Msg, sync bool) (*Subscription, error) {
	if nc == nil {
		return nil, ErrInvalidConnection
	}
	mcrt.Yield("subscribe")
	if badSubject(subj) {
		return nil, ErrBadSubject
	}
	if queue != "" && strings.ContainsAny(queue, " \t\r\n") {
		return nil, ErrBadQueueName
	}
	if nc.closed {
		return nil, ErrConnectionClosed
	}
	if nc.drain {
		return nil, ErrConnectionDraining
	}
	if cb == nil && ch == nil && !sync {
		return nil, ErrBadSubscription
	}
	if B.SubscribeErr != nil {
		if err := B.SubscribeErr(nc, subj, queue); err != nil {
			return nil, err
		}
	}
	B.sid++
	s := &Subscription{Subject: subj, Queue: queue, conn: nc, sid: B.sid, cb: cb, ch: ch,
		msgLimit: DefaultSubPendingMsgsLimit, byteLimit: DefaultSubPendingBytesLimit}
	if B.SubDelay != nil {
		s.activeAt = mcrt.NowNanos() + int64(B.SubDelay(subj))
	}
	B.subs = append(B.subs, s)
	if cb != nil {
		mcrt.GoNamed("nats:"+subj, s.dispatcher)
	}
	return s, nil
}

func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, "", cb, nil, false)
}
func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, queue, cb, nil, false)
}
func (nc *Conn) ChanSubscribe(subj string, ch chan *Msg) (*Subscription, error) {
	return nc.subscribe(subj, "", nil, ch, false)
}
func (nc *Conn) ChanQueueSubscribe(subj, queue string, ch chan *Msg) (*Subscription, error) {
	return nc.subscribe(subj, queue, nil, ch, false)
}
func (nc *Conn) QueueSubscribeSyncWithChan(subj, queue string, ch chan *Msg) (*Subscription, error) {
	return nc.subscribe(subj, queue, nil, ch, false)
}
func (nc *Conn) SubscribeSync(subj string) (*Subscription, error) {
	return nc.subscribe(subj, "", nil, nil, true)
}
func (nc *Conn) QueueSubscribeSync(subj, queue string) (*Subscription, error) {
	return nc.subscribe(subj, queue, nil, nil, true)
}

// PublishMsg publishes m.
func (nc *Conn) PublishMsg(m *Msg) error {
	if m == nil {
		return ErrInvalidMsg
	}
	return nc.Publish(m.Subject, m.Data)
}

// PublishRequest publishes with a reply subject (ignored).
func (nc *Conn) PublishRequest(subj, reply string, data []byte) error { return nc.Publish(subj, data) }

func (nc *Conn) Flush() error { return nc.FlushTimeout(10 * time.Second) }
func (nc *Conn) FlushTimeout(d time.Duration) error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if d <= 0 {
		return errors.New("nats: timeout invalid")
	}
	mcrt.Yield("flush")
	if nc.closed {
		return ErrConnectionClosed
	}
	if B.FlushErr != nil {
		if err := B.FlushErr(nc); err != nil {
			return err
		}
	}
	until := mcrt.NowNanos() + int64(d)
	if nc.lost {
		mcrt.BlockUntil("nats-flush", &nc.w, until, func() bool { return !nc.lost || nc.closed })
		if nc.closed {
			return ErrConnectionClosed
		}
		if nc.lost {
			return ErrTimeout
		}
	}
	var rtt int64
	if B.RTT != nil {
		rtt = int64(B.RTT())
	}
	for _, s := range B.subs {
		if s.conn == nc && s.activeAt > mcrt.NowNanos()+rtt/2 {
			s.activeAt = mcrt.NowNanos() + rtt/2
		}
	}
	if rtt > 0 {
		mcrt.BlockUntil("nats-flush", &nc.w, mcrt.NowNanos()+rtt, func() bool { return nc.closed })
		if nc.closed {
			return ErrConnectionClosed
		}
	}
	return nil
}
func (nc *Conn) FlushWithContext(ctx context.Context) error { return nc.Flush() }

// Close closes the connection and all of its subscriptions.
func (nc *Conn) Close() {
	if nc == nil {
		return
	}
	mcrt.Yield("nats-close")
	if nc.closed {
		return
	}
	nc.closed = true
	nc.w.WakeAll()
	if B.CloseDelay > 0 {
		mcrt.SleepNanos(int64(B.CloseDelay))
	}
	for _, s := range B.subs {
		if s.conn == nc && !s.closed {
			s.closed = true
			s.w.WakeAll()
		}
	}
	B.prune()
	if nc.Opts.ClosedCB != nil {
		cb := nc.Opts.ClosedCB
		mcrt.GoNamed("nats-closed-cb", func() { cb(nc) })
	}
}

// Drain unsubscribes, waits for pending messages and closes.
func (nc *Conn) Drain() error {
	if nc == nil {
		return ErrInvalidConnection
	}
	mcrt.Yield("nats-drain")
	if nc.closed {
		return ErrConnectionClosed
	}
	var mine []*Subscription
	var rest []*Subscription
	for _, s := range B.subs {
		if s.conn == nc && !s.closed {
			mine = append(mine, s)
		} else {
			rest = append(rest, s)
		}
	}
	B.subs = rest
	mcrt.GoNamed("nats-drain", func() {
		for _, s := range mine {
			for s.pMsgs > 0 {
				mcrt.SleepNanos(1e6)
			}
		}
		nc.drain = true
		for _, s := range mine {
			s.closed = true
			s.w.WakeAll()
		}
		nc.Close()
	})
	return nil
}

func (nc *Conn) IsClosed() bool       { return nc.closed }
func (nc *Conn) IsConnected() bool    { return !nc.closed && !nc.lost }
func (nc *Conn) IsReconnecting() bool { return nc.lost && !nc.closed }
func (nc *Conn) IsDraining() bool     { return nc.drain }
func (nc *Conn) LastError() error     { return nil }
func (nc *Conn) MaxPayload() int64    { return int64(B.MaxPayload) }
func (nc *Conn) NumSubscriptions() int {
	n := 0
	for _, s := range B.subs {
		if s.conn == nc && !s.closed {
			n++
		}
	}
	return n
}
func (nc *Conn) Buffered() (int, error) {
	if nc.closed {
		return -1, ErrConnectionClosed
	}
	return nc.size, nil
}
func (nc *Conn) ConnectedUrl() string                { return nc.Opts.Url }
func (nc *Conn) SetErrorHandler(cb ErrHandler)       { nc.Opts.AsyncErrorCB = cb }
func (nc *Conn) SetClosedHandler(cb ConnHandler)     { nc.Opts.ClosedCB = cb }
func (nc *Conn) SetReconnectHandler(cb ConnHandler)  { nc.Opts.ReconnectedCB = cb }
func (nc *Conn) SetDisconnectHandler(cb ConnHandler) { nc.Opts.DisconnectedCB = cb }
func (nc *Conn) SetDisconnectErrHandler(cb ConnErrHandler) {
	nc.Opts.DisconnectedErrCB = cb
}
func (nc *Conn) ConnectedAddr() string       { return nc.Opts.Url }
func (nc *Conn) ConnectedServerId() string   { return "server" }
func (nc *Conn) Servers() []string           { return []string{nc.Opts.Url} }
func (nc *Conn) DiscoveredServers() []string { return nil }
func (nc *Conn) AuthRequired() bool          { return false }
func (nc *Conn) TLSRequired() bool           { return false }

// RTT measures a round trip.
func (nc *Conn) RTT() (time.Duration, error) {
	from := mcrt.NowNanos()
	err := nc.Flush()
	return time.Duration(mcrt.NowNanos() - from), err
}

// Status is the state of a connection.
type Status int

const (
	DISCONNECTED = Status(iota)
	CONNECTED
	CLOSED
	RECONNECTING
	CONNECTING
	DRAINING_SUBS
	DRAINING_PUBS
)

func (nc *Conn) Status() Status {
	switch {
	case nc.closed:
		return CLOSED
	case nc.lost:
		return RECONNECTING
	case nc.drain:
		return DRAINING_PUBS
	}
	return CONNECTED
}

// ID identifies the connection within the broker log.
func (nc *Conn) ID() int { return nc.id }

func (b *Broker) prune() {
	var rest []*Subscription
	for _, s := range b.subs {
		if !s.closed {
			rest = append(rest, s)
		}
	}
	b.subs = rest
}

func (s *Subscription) remove() {
	s.closed = true
	s.w.WakeAll()
	B.prune()
}

// Unsubscribe removes the subscription; pending messages are discarded.
func (s *Subscription) Unsubscribe() error {
	if s == nil {
		return ErrBadSubscription
	}
	mcrt.Yield("unsubscribe")
	if s.conn.closed {
		return ErrConnectionClosed
	}
	if s.closed {
		return ErrBadSubscription
	}
	s.remove()
	return nil
}

// AutoUnsubscribe removes the subscription after max messages.
func (s *Subscription) AutoUnsubscribe(max int) error {
	if s == nil {
		return ErrBadSubscription
	}
	s.max = max
	return nil
}

// Drain removes interest but delivers what is pending.
func (s *Subscription) Drain() error {
	if s == nil {
		return ErrBadSubscription
	}
	mcrt.Yield("sub-drain")
	if s.conn.closed {
		return ErrConnectionClosed
	}
	var rest []*Subscription
	for _, o := range B.subs {
		if o != s {
			rest = append(rest, o)
		}
	}
	B.subs = rest
	mcrt.GoNamed("sub-drain", func() {
		for s.pMsgs > 0 {
			mcrt.SleepNanos(1e6)
		}
		s.closed = true
		s.w.WakeAll()
	})
	return nil
}

// SetPendingLimits sets the limits of the client side queue.
func (s *Subscription) SetPendingLimits(msgLimit, bytesLimit int) error {
	if s == nil {
		return ErrBadSubscription
	}
	mcrt.Yield("setlimits")
	if s.closed {
		return ErrBadSubscription
	}
	if s.ch != nil {
		return ErrTypeSubscription
	}
	if msgLimit == 0 || bytesLimit == 0 {
		return ErrInvalidArg
	}
	s.msgLimit, s.byteLimit = msgLimit, bytesLimit
	return nil
}

// Dropped returns the number of dropped messages.
func (s *Subscription) Dropped() (int, error) {
	if s == nil {
		return -1, ErrBadSubscription
	}
	mcrt.Yield("dropped")
	if s.closed {
		return -1, ErrBadSubscription
	}
	return s.dropped, nil
}

// Pending returns the queued messages and bytes.
func (s *Subscription) Pending() (int, int, error) {
	if s == nil || s.closed {
		return -1, -1, ErrBadSubscription
	}
	return s.pMsgs, s.pBytes, nil
}

// MaxPending returns the high water marks.
func (s *Subscription) MaxPending() (int, int, error) {
	if s == nil || s.closed {
		return -1, -1, ErrBadSubscription
	}
	return s.pMsgsMax, s.pBytesMax, nil
}

// PendingLimits returns the limits.
func (s *Subscription) PendingLimits() (int, int, error) {
	if s == nil || s.closed {
		return -1, -1, ErrBadSubscription
	}
	return s.msgLimit, s.byteLimit, nil
}

// Delivered returns the number of delivered messages.
func (s *Subscription) Delivered() (int64, error) {
	if s == nil || s.closed {
		return -1, ErrBadSubscription
	}
	return int64(s.delivered), nil
}

// IsValid reports whether the subscription is active.
func (s *Subscription) IsValid() bool { return s != nil && !s.closed }

// NextMsg waits for a message on a sync subscription.
func (s *Subscription) NextMsg(timeout time.Duration) (*Msg, error) {
	if s == nil {
		return nil, ErrBadSubscription
	}
	ok := mcrt.BlockUntil("nextmsg", &s.w, mcrt.NowNanos()+int64(timeout), func() bool { return len(s.pending) > 0 || s.closed })
	if !ok {
		return nil, ErrTimeout
	}
	if s.closed {
		return nil, ErrConnectionClosed
	}
	m := s.pending[0]
	s.pending = s.pending[1:]
	s.pMsgs--
	s.pBytes -= len(m.Data)
	s.delivered++
	return m, nil
}

// Subs returns the live subscriptions (for scenario inspection).
func (b *Broker) Subs() []*Subscription { return b.subs }

// SubDropped returns the drop count without a scheduling point.
func (s *Subscription) SubDropped() int { return s.dropped }

// SubLimits returns the limits without a scheduling point.
func (s *Subscription) SubLimits() (int, int) { return s.msgLimit, s.byteLimit }
