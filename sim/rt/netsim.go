package rt

import (
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

// Simulated network: listeners, connections and RPC streams on them.  Data on a
// connection is neither lost nor reordered nor duplicated (TCP); connections
// are refused, time out, break before or after a request was handled, and
// partitions hold messages back until they heal.

// ConnectTimeout is how long a connection attempt to an unreachable host takes.
const ConnectTimeout = 20_000_000_000

// DeadPeerTimeout is how long it takes to notice a vanished machine.
const DeadPeerTimeout = 60_000_000_000

const partitionBreak = 900_000_000_000

type partition struct {
	h     *Host
	until int64
}

type netState struct {
	listeners []*Listener
	conns     []*Conn
	parts     []partition
}

// Listener is a listening socket.
type Listener struct {
	proc   *Proc
	IP     string
	Port   int
	closed bool
	q      []NetEvent
	wait   []*Task
}

// NetEvent is what a server sees on its connections.
type NetEvent struct {
	S      *Stream
	Cancel bool
}

// Conn is an established connection.
type Conn struct {
	c, s   *Proc
	ch, sh *Host
	lis    *Listener
	broken bool
	closed bool
	ka     bool
	strs   []*Stream
}

// Stream is one RPC.
type Stream struct {
	C         *Conn
	Method    string
	Req       []byte
	MD        any
	Deadline  int64 // absolute, 0: none
	done      bool  // client side finished
	Reply     []byte
	Code      uint32
	Msg       string
	Broken    bool
	notify    unsafe.Pointer
	Local     any // server side data
	delivered bool
	ended     bool // server side finished
	ID        int
}

func (n *netState) partitioned(w *World, a, b *Host) int64 {
	if a == b {
		return 0
	}
	var until int64
	for _, p := range n.parts {
		if p.until > w.now && (p.h == a || p.h == b) && p.until > until {
			until = p.until
		}
	}
	return until
}

func (n *netState) partition(w *World, h *Host, ns int64) {
	w.tracef("partition of %s for %d ms", h.Name, ns/1e6)
	n.parts = append(n.parts, partition{h, w.now + ns})
}

// Partition isolates a host for ns nanoseconds.
func Partition(h *Host, ns int64) { W.net.partition(W, h, ns) }

func (w *World) latency(a, b *Host) int64 {
	lo, hi := w.cfg.LatencyNS[0], w.cfg.LatencyNS[1]
	d := lo + int64(w.env.Uint64()%uint64(hi-lo+1))
	if a == b {
		d = d/10 + 1
	}
	return d
}

// deliver runs fn after the network delay between two hosts.
func (w *World) deliver(a, b *Host, extra int64, c *Conn, fn func()) {
	w.at(w.now+w.latency(a, b)+extra, nil, func() {
		if u := w.net.partitioned(w, a, b); u > 0 {
			if u-w.now > partitionBreak {
				w.net.breakConn(w, c)
				return
			}
			w.at(u, nil, func() { w.deliver(a, b, 200_000_000, c, fn) })
			return
		}
		fn()
	})
}

func splitHostPort(addr string) (string, int, bool) {
	for _, pre := range []string{"passthrough:///", "dns:///", "tcp://"} {
		addr = strings.TrimPrefix(addr, pre)
	}
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return addr, 0, false
	}
	h, ps := addr[:i], addr[i+1:]
	h = strings.TrimSuffix(strings.TrimPrefix(h, "["), "]")
	p, err := strconv.Atoi(ps)
	if err != nil || p < 0 || p > 65535 {
		return h, 0, false
	}
	return h, p, true
}

func isAny(ip string) bool { return ip == "" || ip == "0.0.0.0" || ip == "::" }

func (w *World) resolve(from *Host, name string) *Host {
	if isAny(name) || name == "localhost" || strings.HasPrefix(name, "127.") || name == "::1" {
		return from
	}
	for _, h := range w.hosts {
		if h.Name == name {
			return h
		}
		for i, ip := range h.IPs {
			if i > 0 && ip == name {
				return h
			}
		}
	}
	return nil
}

// addrOf is the address a name of the host stands for.
func (h *Host) addrOf(name string) string {
	switch {
	case isAny(name), name == "localhost", strings.HasPrefix(name, "127."):
		return "127.0.0.1"
	case name == h.Name && len(h.IPs) > 1:
		return h.IPs[1]
	}
	return name
}

// accepts tells whether a connection to the name reaches the listener.
func (l *Listener) accepts(name string) bool {
	a := l.proc.host.addrOf(name)
	switch l.IP {
	case "", "::":
		return true
	case "0.0.0.0":
		return !strings.Contains(a, ":")
	}
	return l.proc.host.addrOf(l.IP) == a
}

// ParseAddr splits host:port.
func ParseAddr(addr string) (string, int, bool) { return splitHostPort(addr) }

// Listen opens a listening socket.
func Listen(addr string) (*Listener, syscall.Errno) {
	w := W
	w.yield("net")
	p := w.cur.proc
	if ft := w.hook("net.listen", nil); ft != nil {
		return nil, errnoOf(ft, syscall.EADDRINUSE)
	}
	ip, port, ok := splitHostPort(addr)
	if !ok {
		return nil, syscall.EINVAL
	}
	if !isAny(ip) && w.resolve(p.host, ip) != p.host {
		return nil, syscall.EADDRNOTAVAIL
	}
	if port == 0 {
		p.host.ports++
		port = p.host.ports
	}
	for _, l := range w.net.listeners {
		if !l.closed && l.proc.host == p.host && l.Port == port {
			return nil, syscall.EADDRINUSE
		}
	}
	l := &Listener{proc: p, IP: ip, Port: port}
	w.net.listeners = append(w.net.listeners, l)
	w.tracef("listen on port %d", port)
	return l, 0
}

// Closed tells whether the listener is closed.
func (l *Listener) Closed() bool { return l.closed }

// Proc is the listening process.
func (l *Listener) Proc() *Proc { return l.proc }

func (l *Listener) wake() {
	for i, t := range l.wait {
		W.ready(t)
		l.wait[i] = nil
	}
	l.wait = l.wait[:0]
}

// Close closes the listener.
func (l *Listener) Close() bool {
	W.yield("net")
	if l.closed {
		return false
	}
	l.closed = true
	l.wake()
	return true
}

// Next waits for the next event; false when closed.
func (l *Listener) Next() (NetEvent, bool) {
	w := W
	w.yield("net")
	for len(l.q) == 0 {
		if l.closed {
			return NetEvent{}, false
		}
		l.wait = append(l.wait, w.cur)
		w.block("accept")
	}
	e := l.q[0]
	l.q[0] = NetEvent{}
	l.q = l.q[1:]
	return e, true
}

// CloseConns breaks every connection of a listener (server stop).
func (l *Listener) CloseConns() {
	for _, c := range l.conns() {
		W.net.breakConn(W, c)
	}
}

func (l *Listener) conns() []*Conn {
	var out []*Conn
	for _, c := range W.net.conns {
		if c.lis == l {
			out = append(out, c)
		}
	}
	return out
}

func (l *Listener) push(e NetEvent) {
	if l.proc.dead {
		return
	}
	l.q = append(l.q, e)
	l.wake()
}

// Connect errors.
const (
	NetOK = iota
	NetRefused
	NetTimeout
	NetNoHost
	NetBadAddr
)

// Connect establishes a connection; limit (absolute simulated time, 0 for none)
// bounds the wait and done, if not nil, ends it early.
func Connect(addr string, cancelled func() bool) (*Conn, int) {
	w := W
	w.yield("net")
	p := w.cur.proc
	if ft := w.hook("net.connect", nil); ft != nil {
		switch ft.Action {
		case "timeout":
			w.waitNS(ConnectTimeout, cancelled)
			return nil, NetTimeout
		default:
			w.waitNS(w.latency(p.host, nil), cancelled)
			return nil, NetRefused
		}
	}
	name, port, ok := splitHostPort(addr)
	if !ok {
		return nil, NetBadAddr
	}
	h := w.resolve(p.host, name)
	if h == nil {
		w.waitNS(1_000_000, cancelled)
		return nil, NetNoHost
	}
	end := w.now + ConnectTimeout
	for {
		u := w.net.partitioned(w, p.host, h)
		if u == 0 && !h.down {
			break
		}
		if w.now >= end || cancelled != nil && cancelled() {
			return nil, NetTimeout
		}
		// SYN retransmissions
		w.waitNS(1_000_000_000, cancelled)
	}
	w.waitNS(w.latency(p.host, h)+w.latency(p.host, h), cancelled)
	for _, l := range w.net.listeners {
		if l.closed || l.proc.dead || l.proc.host != h || l.Port != port {
			continue
		}
		if !l.accepts(name) {
			continue
		}
		c := &Conn{c: p, s: l.proc, ch: p.host, sh: h, lis: l}
		w.net.conns = append(w.net.conns, c)
		w.tracef("connected to %s (%s)", addr, l.proc.name)
		return c, NetOK
	}
	return nil, NetRefused
}

// waitNS sleeps in slices so that a cancellation is noticed.
func (w *World) waitNS(ns int64, cancelled func() bool) {
	end := w.now + ns
	for w.now < end {
		d := end - w.now
		if d > 500_000_000 && cancelled != nil {
			d = 500_000_000
		}
		t := w.cur
		w.at(w.now+d, t.proc, func() { w.ready(t) })
		w.block("network wait")
		if cancelled != nil && cancelled() {
			return
		}
	}
}

// Broken tells whether the connection is unusable.
func (c *Conn) Broken() bool { return c.broken || c.closed }

// Peer names the processes.
func (c *Conn) Peer() (client, server *Proc) { return c.c, c.s }

// Open starts an RPC.  notify is a channel closed when it ends.
func (c *Conn) Open(method string, req []byte, md any, deadline int64, notify chan struct{}) *Stream {
	w := W
	w.yield("net")
	s := &Stream{C: c, Method: method, Req: append([]byte(nil), req...), MD: md, Deadline: deadline, notify: *(*unsafe.Pointer)(unsafe.Pointer(&notify))}
	w.seq++
	s.ID = int(w.seq)
	c.strs = append(c.strs, s)
	w.event('q', hashStr(method))
	w.tracef("request %d %s to %s (%d bytes)", s.ID, method, c.s.name, len(req))
	s.note("request")
	var extra int64
	if ft := w.hook("net.request", nil); ft != nil {
		switch ft.Action {
		case "delay":
			extra = ft.Arg
		default:
			c.broken = true
			w.net.breakConn(w, c)
			return s
		}
	}
	if c.broken || c.s.dead {
		w.net.breakConn(w, c)
		return s
	}
	w.deliver(c.ch, c.sh, extra, c, func() {
		if c.broken || c.s.dead || s.done {
			return
		}
		if w.deliverHook("rpc.deliver", c.s) {
			return
		}
		if c.broken || c.s.dead {
			return
		}
		s.delivered = true
		c.lis.push(NetEvent{S: s})
	})
	return s
}

// deliverHook runs faults at the arrival of a message (no task of p is current).
func (w *World) deliverHook(class string, p *Proc) bool {
	f := w.hook(class, p)
	return f != nil
}

func (s *Stream) finish(w *World) {
	if s.done {
		return
	}
	s.done = true
	c := s.C
	for i, x := range c.strs {
		if x == s {
			n := len(c.strs)
			c.strs[i] = c.strs[n-1]
			c.strs[n-1] = nil
			c.strs = c.strs[:n-1]
			break
		}
	}
	if s.Broken {
		s.note("broken")
	} else if s.notify != nil {
		s.note("reply")
	} else {
		s.note("cancel")
	}
	if s.notify != nil {
		w.closeRaw(s.notify, 0)
	}
}

// Finished tells whether the client side has its result.
func (s *Stream) Finished() bool { return s.done }

// Cancel is called by the client when it gives up.
func (s *Stream) Cancel() {
	w := W
	if s.done {
		return
	}
	c := s.C
	s.notify = nil
	s.finish(w)
	if c.broken {
		return
	}
	w.deliver(c.ch, c.sh, 0, c, func() {
		if s.delivered && !s.ended && !c.s.dead {
			c.lis.push(NetEvent{S: s, Cancel: true})
		}
	})
}

// Respond sends the result of an RPC (server side).
func (s *Stream) Respond(reply []byte, code uint32, msg string) {
	w := W
	w.yield("net")
	c := s.C
	s.ended = true
	reply, msg = append([]byte(nil), reply...), string(append([]byte(nil), msg...)) // what the receiver gets is its own
	w.tracef("reply %d %s to %s code=%d (%d bytes) %s", s.ID, s.Method, c.c.name, code, len(reply), msg)
	var extra int64
	if ft := w.hook("net.reply", nil); ft != nil {
		switch ft.Action {
		case "delay":
			extra = ft.Arg
		default:
			w.net.breakConn(w, c)
			return
		}
	}
	if c.broken || s.done {
		return
	}
	w.deliver(c.sh, c.ch, extra, c, func() {
		if c.broken || s.done || c.c.dead {
			return
		}
		s.Reply, s.Code, s.Msg = reply, code, msg
		w.event('a', uint64(code))
		s.finish(w)
	})
}

// breakConn resets a connection; both sides notice after the network delay.
func (n *netState) breakConn(w *World, c *Conn) {
	if c == nil {
		return
	}
	c.broken = true
	n.drop(c)
	w.notifyBroken(c, 0)
}

func (n *netState) drop(c *Conn) {
	for i, x := range n.conns {
		if x == c {
			k := len(n.conns)
			for j := i; j+1 < k; j++ {
				n.conns[j] = n.conns[j+1]
			}
			n.conns[k-1] = nil
			n.conns = n.conns[:k-1]
			return
		}
	}
}

func (w *World) notifyBroken(c *Conn, delay int64) {
	ss := make([]*Stream, len(c.strs))
	for i := range c.strs {
		ss[i] = c.strs[i]
	}
	w.at(w.now+w.latency(c.ch, c.sh)+delay, nil, func() {
		for _, s := range ss {
			if s.delivered && !s.ended && !c.s.dead {
				c.lis.push(NetEvent{S: s, Cancel: true})
			}
			if !s.done && !c.c.dead {
				s.Broken = true
				s.finish(w)
			}
		}
	})
}

// CloseConn closes the connection from the client's side.
func (c *Conn) CloseConn() {
	w := W
	w.yield("net")
	if c.closed {
		return
	}
	c.closed = true
	if !c.broken {
		w.net.breakConn(w, c)
	}
}

func (n *netState) procDied(w *World, p *Proc) {
	for _, l := range n.listeners {
		if l.proc == p {
			l.closed = true
		}
	}
	var hit []*Conn
	for _, c := range n.conns {
		if c.c == p || c.s == p {
			hit = append(hit, c)
		}
	}
	for _, c := range hit {
		c.broken = true
		n.drop(c)
		var delay int64
		if p.killed == "power loss" {
			delay = DeadPeerTimeout
		}
		w.notifyBroken(c, delay)
	}
}

func (n *netState) resetConns(w *World, p *Proc) {
	var hit []*Conn
	for _, c := range n.conns {
		if c.c == p || c.s == p {
			hit = append(hit, c)
		}
	}
	for _, c := range hit {
		n.breakConn(w, c)
	}
}

// ListenerOn tells whether process p has an open listener on port.
func ListenerOn(h *Host, port int) bool {
	for _, l := range W.net.listeners {
		if !l.closed && !l.proc.dead && l.proc.host == h && l.Port == port {
			return true
		}
	}
	return false
}

// Size applies the run's size scale to a message size.
func Size(n int) int64 { return int64(n) * W.cfg.SizeScale }

// HookEvent counts an event and injects its faults; it returns the action for the caller.
func HookEvent(class string) (string, int64) {
	if f := W.hook(class, nil); f != nil {
		return f.Action, f.Arg
	}
	return "", 0
}

// RPCEvent is an entry of the RPC history.
type RPCEvent struct {
	At     int64
	Seq    int64
	Kind   string // "request", "reply", "handle", "handled", "broken", "cancel"
	ID     int
	Method string
	Client *Proc
	Server *Proc
	Code   uint32
	Req    []byte
}

// OnRPC, if set by the harness, sees every RPC event as it happens.
var OnRPC func(e RPCEvent)

func (s *Stream) note(kind string) {
	if OnRPC != nil {
		OnRPC(RPCEvent{At: W.now, Seq: W.steps, Kind: kind, ID: s.ID, Method: s.Method, Client: s.C.c, Server: s.C.s, Code: s.Code, Req: append([]byte(nil), s.Req...)})
	}
}

// MarkHandler notes the start and end of a handler.
func MarkHandler(s *Stream, start bool) {
	if start {
		s.note("handle")
	} else {
		s.note("handled")
	}
}

// Keepalive breaks a connection whose peer is unreachable for too long.
func Keepalive(c *Conn, every, timeout int64) {
	w := W
	if every < 10_000_000_000 {
		every = 10_000_000_000
	}
	if timeout <= 0 {
		timeout = 20_000_000_000
	}
	if c.ka {
		return
	}
	c.ka = true
	var tick func()
	tick = func() {
		if c.broken || c.closed || c.c.dead {
			return
		}
		if w.net.partitioned(w, c.ch, c.sh) > w.now+timeout || c.s.dead || c.s.stallUntil > w.now+timeout {
			w.at(w.now+timeout, nil, func() {
				if !c.broken {
					w.net.breakConn(w, c)
				}
			})
			return
		}
		w.at(w.now+every, nil, tick)
	}
	w.at(w.now+every, nil, tick)
}
