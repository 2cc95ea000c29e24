// Package simhttp is the simulator's replacement for net/http's Client,
// Transport and Server: requests travel over simulated connections that the
// run's faults delay, refuse, stall, reset, and tear.  Connection reuse and
// the transport's rules about repeating requests follow net/http.
package simhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
)

// Faults says how often (percent) each fault strikes.
type Faults struct {
	Refuse      int // dialling fails
	IdleClose   int // the server closes an idle connection while a request is being written
	ResetBefore int // the connection breaks before the request is delivered
	ResetAfter  int // the connection breaks after the request was delivered
	Torn        int // the response breaks off in the middle
	Slow        int // a message takes up to MaxDelay
	Stall       int // a message is held up for StallNs
	MaxDelay    int64
	StallNs     int64
	Latency     int64 // of every message
}

type network struct {
	gen       int64
	f         Faults
	listeners map[string]*Server
	blocked   map[string]bool
	wait      simrt.WaitQ
	Requests  int64
	open      int
}

var nw *network

func net_() *network {
	if nw == nil || nw.gen != simrt.Gen() {
		nw = &network{gen: simrt.Gen(), listeners: map[string]*Server{}, blocked: map[string]bool{}, f: Faults{Latency: 1000, MaxDelay: 50e6, StallNs: 10e9}}
	}
	return nw
}

// SetFaults configures the network of this run.
func SetFaults(f Faults) { net_().f = f }

// Partition cuts or restores the path to an address: messages wait until it heals.
func Partition(addr string, cut bool) {
	n := net_()
	n.blocked[key(addr)] = cut
	if cut {
		simrt.Fault("partition")
	} else {
		n.wait.WakeAll()
	}
}

// Listening reports whether a server accepts connections at addr.
func Listening(addr string) bool { return net_().listeners[key(addr)] != nil }

// OpenConns counts established connections.
func OpenConns() int { return net_().open }

func key(addr string) string {
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return addr + ":80"
	}
	h := addr[:i]
	switch h {
	case "", "0.0.0.0", "127.0.0.1", "[::]", "[::1]":
		h = "localhost"
	}
	return h + addr[i:]
}

func hit(kind string, pct int) bool {
	if pct > 0 && simrt.Choose("net", 100) < pct {
		simrt.Fault("net: " + kind)
		return true
	}
	return false
}

// hop lets one message travel; it reports false if the context ended first.
func hop(ctx context.Context, addr string) bool {
	n := net_()
	d := n.f.Latency
	if hit("slow message", n.f.Slow) {
		d += 1 + int64(simrt.Choose("net", int(max(n.f.MaxDelay/1000, 1))))*1000
	}
	if hit("stalled message", n.f.Stall) {
		d += n.f.StallNs
	}
	if d > 0 {
		if !sleep(ctx, d) {
			return false
		}
	}
	for n.blocked[addr] {
		if !sleep(ctx, 10e6) {
			return false
		}
	}
	return ctx == nil || ctx.Err() == nil
}

func sleep(ctx context.Context, d int64) bool {
	if ctx == nil || ctx.Done() == nil {
		simrt.SleepNs(d)
		return true
	}
	t := simtime.NewTimer(time.Duration(d))
	defer t.Stop()
	return simrt.Select(false, simrt.RecvCase(t.C), simrt.RecvCase(ctx.Done())) == 0
}

// conn is one connection.
type conn struct {
	id     int64
	srv    *Server
	addr   string
	closed bool // by either side
	busy   bool
	used   int
	cancel func() // of the request being served
	broke  chan struct{}
}

func (c *conn) close() {
	if c.closed {
		return
	}
	c.closed = true
	net_().open--
	for i, x := range c.srv.conns {
		if x == c {
			c.srv.conns = append(c.srv.conns[:i:i], c.srv.conns[i+1:]...)
			break
		}
	}
	if c.cancel != nil {
		c.cancel()
	}
	simrt.Close(c.broke)
}

// Transport keeps idle connections, as http.Transport does.
type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	TLSHandshakeTimeout    time.Duration
	ExpectContinueTimeout  time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	ForceAttemptHTTP2      bool
	MaxResponseHeaderBytes int64
	DialContext            any

	p *pool
}

type pool struct {
	gen   int64
	idle  map[string][]*conn
	count map[string]int
	wait  simrt.WaitQ
}

// RoundTripper is http.RoundTripper.
type RoundTripper = http.RoundTripper

// DefaultTransport is the default.
var DefaultTransport RoundTripper = &Transport{MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second}

// Clone copies the settings.
func (t *Transport) Clone() *Transport { c := *t; c.p = nil; return &c }

func (t *Transport) pool() *pool {
	if t.p == nil || t.p.gen != simrt.Gen() {
		t.p = &pool{gen: simrt.Gen(), idle: map[string][]*conn{}, count: map[string]int{}}
	}
	return t.p
}

// CloseIdleConnections closes idle connections.
func (t *Transport) CloseIdleConnections() {
	p := t.pool()
	var all []*conn
	for k, l := range p.idle {
		all = append(all, l...)
		delete(p.idle, k)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, c := range all {
		c.close()
		p.count[c.addr]--
	}
}

var errServerClosedIdle = errors.New("http: server closed idle connection")

// netErr is what the net package reports for a failed system call.
func netErr(op, call, addr string, no syscall.Errno) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: tcpAddr(addr), Err: os.NewSyscallError(call, no)}
}

type tcpAddr string

func (a tcpAddr) Network() string { return "tcp" }
func (a tcpAddr) String() string  { return string(a) }

// broken is what a client sees when its connection ends before a response arrived: the peer closed it or reset it.
func broken(addr string) error {
	if simrt.Choose("net", 2) == 0 {
		return io.EOF
	}
	return netErr("read", "read", addr, syscall.ECONNRESET)
}

func (t *Transport) get(ctx context.Context, addr string) (*conn, bool, error) {
	p := t.pool()
	for {
		if ctx.Err() != nil {
			return nil, false, ctx.Err()
		}
		for len(p.idle[addr]) > 0 {
			l := p.idle[addr]
			c := l[len(l)-1]
			p.idle[addr] = l[:len(l)-1]
			if !c.closed {
				return c, true, nil
			}
			p.count[addr]--
		}
		if t.MaxConnsPerHost <= 0 || p.count[addr] < t.MaxConnsPerHost {
			break
		}
		if !sleep(ctx, 1e6) { // wait for a connection
			return nil, false, ctx.Err()
		}
	}
	p.count[addr]++
	ok := false
	defer func() {
		if !ok {
			p.count[addr]--
		}
	}()
	if !hop(ctx, addr) {
		return nil, false, ctx.Err()
	}
	n := net_()
	srv := n.listeners[addr]
	if srv == nil || hit("connection refused", n.f.Refuse) {
		return nil, false, netErr("dial", "connect", addr, syscall.ECONNREFUSED)
	}
	ok = true
	c := &conn{id: simrt.Seq(), srv: srv, addr: addr, broke: make(chan struct{})}
	srv.conns = append(srv.conns, c)
	n.open++
	return c, false, nil
}

func (t *Transport) put(c *conn) {
	p := t.pool()
	c.busy = false
	if c.closed {
		p.count[c.addr]--
		return
	}
	per := t.MaxIdleConnsPerHost
	if per == 0 {
		per = 2
	}
	if t.DisableKeepAlives || per < 0 || len(p.idle[c.addr]) >= per || c.srv.down {
		t.drop(c)
		return
	}
	p.idle[c.addr] = append(p.idle[c.addr], c)
}

func (t *Transport) drop(c *conn) {
	c.busy = false
	c.close()
	t.pool().count[c.addr]--
}

func replayable(r *http.Request) bool {
	if r.Body != nil && r.Body != http.NoBody && r.GetBody == nil {
		return false
	}
	switch r.Method {
	case "", "GET", "HEAD", "OPTIONS", "TRACE":
		return true
	}
	_, a := r.Header["Idempotency-Key"]
	_, b := r.Header["X-Idempotency-Key"]
	return a || b
}

// RoundTrip implements http.RoundTripper.
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	if req.URL == nil || req.URL.Scheme != "http" || req.URL.Host == "" {
		return nil, fmt.Errorf("unsupported protocol scheme or missing host in %q", req.URL)
	}
	addr := key(req.URL.Host)
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	for {
		c, reused, err := t.get(ctx, addr)
		if err != nil {
			return nil, err
		}
		c.busy = true
		c.used++
		resp, err, fromServer := t.exchange(ctx, c, req, body, reused)
		if err == nil {
			return resp, nil
		}
		t.drop(c)
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		if reused && fromServer && replayable(req) {
			simrt.Fault("net: request repeated by the transport")
			continue
		}
		return nil, err
	}
}

type result struct {
	code int
	hdr  http.Header
	body []byte
	err  error
}

func (t *Transport) exchange(ctx context.Context, c *conn, req *http.Request, body []byte, reused bool) (*http.Response, error, bool) {
	n := net_()
	if reused && hit("idle connection closed", n.f.IdleClose) {
		return nil, errServerClosedIdle, true
	}
	if !hop(ctx, c.addr) {
		return nil, ctx.Err(), false
	}
	if c.closed || hit("reset before delivery", n.f.ResetBefore) {
		if simrt.Choose("net", 3) == 0 {
			return nil, netErr("write", "write", c.addr, syscall.EPIPE), true
		}
		return nil, broken(c.addr), true
	}
	ru := req.URL.RequestURI()
	u, err := url.ParseRequestURI(ru)
	if err != nil {
		return nil, fmt.Errorf("400 Bad Request: %v", err), false
	}
	n.Requests++
	done := make(chan result, 1)
	sctx, cancel := simctx.WithCancel(context.Background())
	c.cancel = cancel
	sreq := (&http.Request{Method: req.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: req.Header.Clone(), Host: req.URL.Host,
		RequestURI: ru, RemoteAddr: "127.0.0.1:40000", ContentLength: int64(len(body)), Body: io.NopCloser(bytes.NewReader(body))}).WithContext(sctx)
	if sreq.Method == "" {
		sreq.Method = "GET"
	}
	if sreq.Header == nil {
		sreq.Header = http.Header{}
	}
	if len(body) == 0 {
		sreq.Body = http.NoBody
	}
	srv := c.srv
	srv.active++
	simrt.GoNamed("http server "+srv.Addr, func() {
		w := &recorder{hdr: http.Header{}}
		r := result{}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if simrt.Killed() {
						panic(p)
					}
					simrt.Probe("handler panicked")
					r.err = io.EOF
				}
			}()
			if len(ru) > 1<<20 {
				w.WriteHeader(431)
			} else {
				srv.Handler.ServeHTTP(w, sreq)
			}
		}()
		if simrt.Ended() {
			return
		}
		cancel()
		srv.active--
		if srv.active == 0 {
			srv.idleWait.WakeAll()
		}
		if w.code == 0 {
			w.code = 200
		}
		r.code, r.hdr, r.body = w.code, w.hdr, w.buf.Bytes()
		if r.err == nil && !c.closed {
			hop(nil, c.addr)
		}
		simrt.Send(done, r)
	})
	if hit("reset after delivery", n.f.ResetAfter) {
		// at some moment between delivery and the arrival of the response
		d := int64(simrt.Choose("net", int(max(n.f.MaxDelay/1000, 1)))) * 1000
		if simrt.Choose("net", 3) == 0 {
			d = 0
		}
		simrt.GoNamed("reset", func() { simrt.SleepNs(d); c.close() })
	}
	var tmo <-chan time.Time
	if t.ResponseHeaderTimeout > 0 {
		tmo = simtime.After(t.ResponseHeaderTimeout)
	}
	rc := simrt.RecvCase(done)
	switch simrt.Select(false, rc, simrt.RecvCase(ctx.Done()), simrt.RecvCase(c.broke), simrt.RecvCase(tmo)) {
	case 1:
		return nil, ctx.Err(), false
	case 2:
		return nil, broken(c.addr), true
	case 3:
		return nil, errors.New("net/http: timeout awaiting response headers"), false
	}
	r := rc.V
	if r.err != nil {
		return nil, r.err, true
	}
	b := &respBody{t: t, c: c, rest: r.body, ctx: ctx, end: io.EOF}
	if len(r.body) > 0 && hit("torn response", n.f.Torn) {
		b.rest = r.body[:simrt.Choose("net", len(r.body))]
		b.torn, b.end = true, io.ErrUnexpectedEOF
		if simrt.Choose("net", 2) == 0 {
			b.end = netErr("read", "read", c.addr, syscall.ECONNRESET)
		}
	}
	return &http.Response{Status: fmt.Sprint(r.code, " ", http.StatusText(r.code)), StatusCode: r.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: r.hdr, Body: b, ContentLength: int64(len(r.body)), Request: req}, nil, false
}

type respBody struct {
	t    *Transport
	c    *conn
	ctx  context.Context
	rest []byte
	torn bool
	end  error // what Read reports after the last byte
	done bool
}

func (b *respBody) Read(p []byte) (int, error) {
	simrt.Y(9200)
	if b.done && len(b.rest) == 0 {
		return 0, b.end
	}
	if err := b.ctx.Err(); err != nil {
		b.finish(false)
		return 0, err
	}
	if len(b.rest) == 0 {
		b.finish(!b.torn)
		return 0, b.end
	}
	k := min(len(p), len(b.rest), 1+len(b.rest)/2)
	copy(p, b.rest[:k])
	b.rest = b.rest[k:]
	return k, nil
}

func (b *respBody) finish(reuse bool) {
	if b.done {
		return
	}
	b.done = true
	if reuse {
		b.t.put(b.c)
	} else {
		b.t.drop(b.c)
	}
}

func (b *respBody) Close() error {
	b.finish(len(b.rest) == 0 && !b.torn)
	b.rest = nil
	return nil
}

type recorder struct {
	hdr  http.Header
	code int
	buf  bytes.Buffer
}

func (w *recorder) Header() http.Header { return w.hdr }
func (w *recorder) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *recorder) Write(b []byte) (int, error) {
	simrt.Y(9201)
	if w.code == 0 {
		w.code = 200
	}
	return w.buf.Write(b)
}
func (w *recorder) Flush() {}

// Client is http.Client.
type Client struct {
	Transport     RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

// DefaultClient is the default.
var DefaultClient = &Client{}

// Do sends a request.
func (c *Client) Do(req *http.Request) (*http.Response, error) {
	if req == nil || req.URL == nil {
		return nil, errors.New("http: nil Request.URL")
	}
	rt := c.Transport
	if rt == nil {
		rt = DefaultTransport
	}
	if c.Timeout > 0 {
		ctx, cancel := simctx.WithTimeout(req.Context(), c.Timeout)
		simrt.OnEnd(func() { _ = cancel })
		req = req.WithContext(ctx)
	}
	resp, err := rt.RoundTrip(req)
	if err != nil {
		m := req.Method
		if m == "" {
			m = "GET"
		}
		return nil, &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
	}
	return resp, nil
}

// Get issues a GET.
func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

// Head issues a HEAD.
func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

// Post issues a POST.
func (c *Client) Post(u, contentType string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", contentType)
	return c.Do(req)
}

// PostForm issues a POST with form data.
func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

// CloseIdleConnections closes idle connections.
func (c *Client) CloseIdleConnections() {
	if t, ok := c.Transport.(*Transport); ok {
		t.CloseIdleConnections()
	}
}

// Get uses the default client.
func Get(u string) (*http.Response, error) { return DefaultClient.Get(u) }

// Post uses the default client.
func Post(u, ct string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, body)
}

// PostForm uses the default client.
func PostForm(u string, d url.Values) (*http.Response, error) { return DefaultClient.PostForm(u, d) }

// Head uses the default client.
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }

// NewRequest is http.NewRequest.
func NewRequest(method, u string, body io.Reader) (*http.Request, error) {
	return http.NewRequest(method, u, body)
}

// NewRequestWithContext is http.NewRequestWithContext.
func NewRequestWithContext(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	return http.NewRequestWithContext(ctx, method, u, body)
}

// Server is http.Server.
type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int

	conns    []*conn
	active   int
	down     bool
	idleWait simrt.WaitQ
	stopped  simrt.WaitQ
	onDown   []func()
}

// ListenAndServe serves until the server is shut down.
func (s *Server) ListenAndServe() error {
	simrt.Y(9202)
	if s.down {
		return http.ErrServerClosed
	}
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	k := key(a)
	n := net_()
	if n.listeners[k] != nil {
		return netErr("listen", "bind", s.Addr, syscall.EADDRINUSE)
	}
	if s.Handler == nil {
		s.Handler = http.DefaultServeMux
	}
	n.listeners[k] = s
	for !s.down {
		s.stopped.Wait("http server " + s.Addr)
	}
	return http.ErrServerClosed
}

func (s *Server) closeListener() {
	s.down = true
	n := net_()
	if k := key(s.Addr); n.listeners[k] == s {
		delete(n.listeners, k)
	}
	s.stopped.WakeAll()
}

// Shutdown stops gracefully.
func (s *Server) Shutdown(ctx context.Context) error {
	simrt.Y(9203)
	s.closeListener()
	for _, f := range s.onDown {
		simrt.Go(f)
	}
	for {
		for _, c := range append([]*conn{}, s.conns...) {
			if !c.busy {
				c.close()
			}
		}
		if s.active == 0 {
			return nil
		}
		if !sleep(ctx, 5e6) {
			return ctx.Err()
		}
	}
}

// Close stops at once.
func (s *Server) Close() error {
	simrt.Y(9204)
	s.closeListener()
	for _, c := range append([]*conn{}, s.conns...) {
		c.close()
	}
	return nil
}

// RegisterOnShutdown registers f.
func (s *Server) RegisterOnShutdown(f func()) { s.onDown = append(s.onDown, f) }

// ListenAndServe serves with a new server.
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
