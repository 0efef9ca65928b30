// Package grpc replaces google.golang.org/grpc: unary calls carried by the
// simulated network, with the real protobuf encoding, status codes, message
// size limits, deadlines and cancellation.
package grpc

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	protov2 "google.golang.org/protobuf/proto"
	real "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/keepalive"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"

	rt "ZZSIM/rt"
	zctx "ZZSIM/std/context"
	znet "ZZSIM/std/net"
)

const (
	SupportPackageIsVersion3 = true
	SupportPackageIsVersion4 = true
	SupportPackageIsVersion5 = true
	SupportPackageIsVersion6 = true
	SupportPackageIsVersion7 = true
	SupportPackageIsVersion8 = true
	SupportPackageIsVersion9 = true
	Version                  = real.Version

	defaultRecv = 4 * 1024 * 1024
)

var (
	ErrClientConnClosing = real.ErrClientConnClosing
	ErrServerStopped     = real.ErrServerStopped
	ErrClientConnTimeout = real.ErrClientConnTimeout
)

// --- service descriptions ---

type (
	UnaryServerInfo        struct {
		Server     any
		FullMethod string
	}
	UnaryHandler           func(ctx context.Context, req any) (any, error)
	UnaryServerInterceptor func(ctx context.Context, req any, info *UnaryServerInfo, handler UnaryHandler) (resp any, err error)
	MethodHandler          func(srv any, ctx context.Context, dec func(any) error, interceptor UnaryServerInterceptor) (any, error)
	MethodDesc             struct {
		MethodName string
		Handler    MethodHandler
	}
	ServiceDesc struct {
		ServiceName string
		HandlerType any
		Methods     []MethodDesc
		Streams     []StreamDesc
		Metadata    any
	}
	ServerStream  = real.ServerStream
	ClientStream  = real.ClientStream
	StreamHandler = func(srv any, stream ServerStream) error
	StreamDesc    struct {
		StreamName    string
		Handler       StreamHandler
		ServerStreams bool
		ClientStreams bool
	}
	ServiceRegistrar interface {
		RegisterService(desc *ServiceDesc, impl any)
	}
	ClientConnInterface interface {
		Invoke(ctx context.Context, method string, args any, reply any, opts ...CallOption) error
		NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error)
	}
	UnaryInvoker           func(ctx context.Context, method string, req, reply any, cc *ClientConn, opts ...CallOption) error
	UnaryClientInterceptor func(ctx context.Context, method string, req, reply any, cc *ClientConn, invoker UnaryInvoker, opts ...CallOption) error
	MethodInfo             = real.MethodInfo
	ServiceInfo            = real.ServiceInfo
)

// --- options ---

type callInfo struct {
	maxRecv, maxSend *int
	wait             bool
	header, trailer  *metadata.MD
	peer             *peer.Peer
	onFinish         []func(error)
}

// CallOption configures a call.
type CallOption interface{ apply(*callInfo) }

type callFn func(*callInfo)

func (f callFn) apply(c *callInfo) { f(c) }

// EmptyCallOption does nothing.
type EmptyCallOption struct{}

func (EmptyCallOption) apply(*callInfo) {}

func MaxCallRecvMsgSize(n int) CallOption      { return callFn(func(c *callInfo) { c.maxRecv = &n }) }
func MaxCallSendMsgSize(n int) CallOption      { return callFn(func(c *callInfo) { c.maxSend = &n }) }
func WaitForReady(w bool) CallOption           { return callFn(func(c *callInfo) { c.wait = w }) }
func FailFast(f bool) CallOption               { return WaitForReady(!f) }
func Header(md *metadata.MD) CallOption        { return callFn(func(c *callInfo) { c.header = md }) }
func Trailer(md *metadata.MD) CallOption       { return callFn(func(c *callInfo) { c.trailer = md }) }
func Peer(p *peer.Peer) CallOption             { return callFn(func(c *callInfo) { c.peer = p }) }
func UseCompressor(string) CallOption          { return EmptyCallOption{} }
func StaticMethod() CallOption                 { return EmptyCallOption{} }
func CallContentSubtype(string) CallOption     { return EmptyCallOption{} }
func MaxRetryRPCBufferSize(n int) CallOption   { return EmptyCallOption{} }
func OnFinish(f func(error)) CallOption {
	return callFn(func(c *callInfo) { c.onFinish = append(c.onFinish, f) })
}
func PerRPCCredentials(credentials.PerRPCCredentials) CallOption { return EmptyCallOption{} }

type dialOptions struct {
	call         []CallOption
	secure       bool
	block        bool
	timeout      time.Duration
	inter        []UnaryClientInterceptor
	ka           *keepalive.ClientParameters
	returnErr    bool
	minConnectTO time.Duration
}

// DialOption configures a connection.
type DialOption interface{ apply(*dialOptions) }

type dialFn func(*dialOptions)

func (f dialFn) apply(o *dialOptions) { f(o) }

// EmptyDialOption does nothing.
type EmptyDialOption struct{}

func (EmptyDialOption) apply(*dialOptions) {}

func WithInsecure() DialOption { return dialFn(func(o *dialOptions) { o.secure = true }) }
func WithTransportCredentials(credentials.TransportCredentials) DialOption {
	return dialFn(func(o *dialOptions) { o.secure = true })
}
func WithDefaultCallOptions(c ...CallOption) DialOption {
	return dialFn(func(o *dialOptions) { o.call = append(o.call, c...) })
}
func WithBlock() DialOption { return dialFn(func(o *dialOptions) { o.block = true }) }
func WithReturnConnectionError() DialOption {
	return dialFn(func(o *dialOptions) { o.block, o.returnErr = true, true })
}
func WithTimeout(d time.Duration) DialOption { return dialFn(func(o *dialOptions) { o.timeout = d }) }
func WithMaxMsgSize(n int) DialOption        { return WithDefaultCallOptions(MaxCallRecvMsgSize(n)) }
func WithUnaryInterceptor(f UnaryClientInterceptor) DialOption {
	return dialFn(func(o *dialOptions) { o.inter = append([]UnaryClientInterceptor{f}, o.inter...) })
}
func WithChainUnaryInterceptor(f ...UnaryClientInterceptor) DialOption {
	return dialFn(func(o *dialOptions) { o.inter = append(o.inter, f...) })
}
func WithKeepaliveParams(k keepalive.ClientParameters) DialOption {
	return dialFn(func(o *dialOptions) { o.ka = &k })
}
func WithUserAgent(string) DialOption                   { return EmptyDialOption{} }
func WithAuthority(string) DialOption                   { return EmptyDialOption{} }
func WithConnectParams(p ConnectParams) DialOption {
	return dialFn(func(o *dialOptions) { o.minConnectTO = p.MinConnectTimeout })
}
func WithBackoffMaxDelay(time.Duration) DialOption      { return EmptyDialOption{} }
func WithDisableRetry() DialOption                      { return EmptyDialOption{} }
func WithDisableServiceConfig() DialOption              { return EmptyDialOption{} }
func WithDefaultServiceConfig(string) DialOption        { return EmptyDialOption{} }
func WithDisableHealthCheck() DialOption                { return EmptyDialOption{} }
func WithNoProxy() DialOption                           { return EmptyDialOption{} }
func WithIdleTimeout(time.Duration) DialOption          { return EmptyDialOption{} }
func WithInitialWindowSize(int32) DialOption            { return EmptyDialOption{} }
func WithInitialConnWindowSize(int32) DialOption        { return EmptyDialOption{} }
func WithReadBufferSize(int) DialOption                 { return EmptyDialOption{} }
func WithWriteBufferSize(int) DialOption                { return EmptyDialOption{} }
func FailOnNonTempDialError(bool) DialOption            { return EmptyDialOption{} }
func WithPerRPCCredentials(credentials.PerRPCCredentials) DialOption { return EmptyDialOption{} }

// ConnectParams is grpc.ConnectParams.
type ConnectParams = real.ConnectParams

// --- client ---

// ClientConn is a client connection.
type ClientConn struct {
	target string
	o      dialOptions
	mu     rt.Mutex // held while connecting
	conn   *rt.Conn
	closed bool
	// back-off after a failed attempt
	failUntil int64
	fails     int
	lastErr   error
}

// NewClient makes a connection without connecting.
func NewClient(target string, opts ...DialOption) (*ClientConn, error) {
	cc := &ClientConn{target: target}
	for _, o := range opts {
		o.apply(&cc.o)
	}
	if !cc.o.secure {
		return nil, errors.New("grpc: no transport security set (use grpc.WithTransportCredentials(insecure.NewCredentials()) explicitly or set credentials)")
	}
	return cc, nil
}

// Dial is grpc.Dial.
func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

// DialContext is grpc.DialContext.
func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	rt.Yield()
	cc, err := NewClient(target, opts...)
	if err != nil {
		return nil, err
	}
	if target == "" {
		return nil, errors.New("failed to build resolver: passthrough: received empty target in Build()")
	}
	if !cc.o.block {
		return cc, nil
	}
	if cc.o.timeout > 0 {
		var cancel zctx.CancelFunc
		ctx, cancel = zctx.WithTimeout(ctx, cc.o.timeout)
		defer cancel()
	}
	for {
		_, err := cc.connect(ctx)
		if err == nil {
			return cc, nil
		}
		if cerr := ctx.Err(); cerr != nil {
			if cc.o.returnErr {
				return nil, err
			}
			return nil, cerr
		}
		if !sleepCtx(ctx, time.Second) {
			return nil, ctx.Err()
		}
	}
}

func sleepCtx(ctx context.Context, d time.Duration) bool {
	t := rt.NewTimer(d)
	defer t.Stop()
	s := rt.NewSel(false)
	rt.SelRecv(s, t.C)
	rt.SelRecv(s, ctx.Done())
	return s.Do() == 0
}

// connect returns a usable connection.
func (cc *ClientConn) connect(ctx context.Context) (*rt.Conn, error) {
	cc.mu.Lock()
	defer cc.mu.Unlock()
	if cc.closed {
		return nil, ErrClientConnClosing
	}
	if cc.conn != nil && !cc.conn.Broken() {
		return cc.conn, nil
	}
	if rt.Now() < cc.failUntil {
		return nil, cc.lastErr
	}
	var cancelled func() bool
	if ctx.Done() != nil {
		cancelled = func() bool { return ctx.Err() != nil }
	}
	c, e := rt.Connect(cc.target, cancelled)
	why := ""
	switch e {
	case rt.NetOK:
		cc.conn = c
		cc.fails = 0
		return c, nil
	case rt.NetRefused:
		why = "connect: connection refused"
	case rt.NetTimeout:
		why = "i/o timeout"
	case rt.NetNoHost:
		why = "lookup: no such host"
	default:
		why = "address " + cc.target + ": missing or invalid port in address"
	}
	if cerr := ctx.Err(); cerr != nil {
		return nil, cerr
	}
	back := math.Min(120, math.Pow(1.6, float64(cc.fails)))
	cc.fails++
	cc.failUntil = rt.Now() + int64(back*1e9)
	cc.lastErr = status.Error(codes.Unavailable, "connection error: desc = \"transport: Error while dialing: dial tcp "+cc.target+": "+why+"\"")
	return nil, cc.lastErr
}

// Target returns the target.
func (cc *ClientConn) Target() string { return cc.target }

// Close closes the connection.
func (cc *ClientConn) Close() error {
	rt.Yield()
	if cc.closed {
		return ErrClientConnClosing
	}
	cc.closed = true
	if cc.conn != nil {
		cc.conn.CloseConn()
	}
	return nil
}

// Connect starts connecting.
func (cc *ClientConn) Connect() {
	rt.Go(func() { cc.connect(context.Background()) })
}

// ResetConnectBackoff lets the next call try at once.
func (cc *ClientConn) ResetConnectBackoff() { cc.failUntil = 0 }

// GetState tells the state.
func (cc *ClientConn) GetState() connectivity.State {
	rt.Yield()
	switch {
	case cc.closed:
		return connectivity.Shutdown
	case cc.conn != nil && !cc.conn.Broken():
		return connectivity.Ready
	case rt.Now() < cc.failUntil:
		return connectivity.TransientFailure
	}
	return connectivity.Idle
}

// WaitForStateChange waits until the state differs from s.
func (cc *ClientConn) WaitForStateChange(ctx context.Context, s connectivity.State) bool {
	for cc.GetState() == s {
		if !sleepCtx(ctx, 50*time.Millisecond) {
			return false
		}
	}
	return true
}

// NewStream is not simulated.
func (cc *ClientConn) NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "streams are not simulated")
}

// Invoke is grpc.Invoke.
func Invoke(ctx context.Context, method string, args, reply any, cc *ClientConn, opts ...CallOption) error {
	return cc.Invoke(ctx, method, args, reply, opts...)
}

// Invoke makes a unary call.
func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...CallOption) error {
	all := append(append([]CallOption{}, cc.o.call...), opts...)
	inv := invoke
	for i := len(cc.o.inter) - 1; i >= 0; i-- {
		f, next := cc.o.inter[i], inv
		inv = func(ctx context.Context, method string, req, reply any, cc *ClientConn, opts ...CallOption) error {
			return f(ctx, method, req, reply, cc, next, opts...)
		}
	}
	return inv(ctx, method, args, reply, cc, all...)
}

func ctxErr(err error) error { return status.FromContextError(err).Err() }

func invoke(ctx context.Context, method string, args, reply any, cc *ClientConn, opts ...CallOption) (rerr error) {
	ci := &callInfo{}
	for _, o := range opts {
		o.apply(ci)
	}
	defer func() {
		for _, f := range ci.onFinish {
			f(rerr)
		}
	}()
	if err := ctx.Err(); err != nil {
		return ctxErr(err)
	}
	var conn *rt.Conn
	for {
		c, err := cc.connect(ctx)
		if err == nil {
			conn = c
			break
		}
		if cerr := ctx.Err(); cerr != nil {
			return ctxErr(cerr)
		}
		if err == ErrClientConnClosing {
			return err
		}
		if !ci.wait {
			return err
		}
		if !sleepCtx(ctx, time.Second) {
			return ctxErr(ctx.Err())
		}
	}
	req, err := marshal(args)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	maxSend := math.MaxInt32
	if ci.maxSend != nil {
		maxSend = *ci.maxSend
	}
	if n := rt.Size(len(req)); n > int64(maxSend) {
		return status.Errorf(codes.ResourceExhausted, "trying to send message larger than max (%d vs. %d)", n, maxSend)
	}
	var dl int64
	if d, ok := ctx.Deadline(); ok {
		dl = int64(d.Sub(rt.Epoch))
	}
	md, _ := metadata.FromOutgoingContext(ctx)
	notify := make(chan struct{})
	st := conn.Open(method, req, md, dl, notify)
	if cc.o.ka != nil {
		rt.Keepalive(conn, int64(cc.o.ka.Time), int64(cc.o.ka.Timeout))
	}
	s := rt.NewSel(false)
	rt.SelRecv(s, notify)
	rt.SelRecv(s, ctx.Done())
	if s.Do() == 1 && !st.Finished() {
		st.Cancel()
		return ctxErr(ctx.Err())
	}
	if st.Broken {
		return status.Error(codes.Unavailable, "error reading from server: EOF")
	}
	if st.Code != 0 {
		return status.Error(codes.Code(st.Code), st.Msg)
	}
	maxRecv := defaultRecv
	if ci.maxRecv != nil {
		maxRecv = *ci.maxRecv
	}
	if n := rt.Size(len(st.Reply)); n > int64(maxRecv) {
		return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", n, maxRecv)
	}
	if err := unmarshal(st.Reply, reply); err != nil {
		return status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message: %v", err)
	}
	return nil
}

func marshal(v any) ([]byte, error) {
	if v == nil {
		return nil, nil
	}
	m, ok := v.(proto.Message)
	if !ok {
		return nil, fmt.Errorf("proto: failed to marshal, message is %T, want proto.Message", v)
	}
	return protov2.Marshal(proto.MessageV2(m)) // as grpc does: a nil message is an empty one
}

func unmarshal(b []byte, v any) error {
	m, ok := v.(proto.Message)
	if !ok {
		return fmt.Errorf("failed to unmarshal, message is %T, want proto.Message", v)
	}
	return protov2.Unmarshal(b, proto.MessageV2(m))
}

// --- server ---

type serverOptions struct {
	maxRecv, maxSend int
	inter            []UnaryServerInterceptor
}

// ServerOption configures a server.
type ServerOption interface{ apply(*serverOptions) }

type serverFn func(*serverOptions)

func (f serverFn) apply(o *serverOptions) { f(o) }

// EmptyServerOption does nothing.
type EmptyServerOption struct{}

func (EmptyServerOption) apply(*serverOptions) {}

func MaxRecvMsgSize(n int) ServerOption { return serverFn(func(o *serverOptions) { o.maxRecv = n }) }
func MaxMsgSize(n int) ServerOption     { return MaxRecvMsgSize(n) }
func MaxSendMsgSize(n int) ServerOption { return serverFn(func(o *serverOptions) { o.maxSend = n }) }
func UnaryInterceptor(f UnaryServerInterceptor) ServerOption {
	return serverFn(func(o *serverOptions) { o.inter = append([]UnaryServerInterceptor{f}, o.inter...) })
}
func ChainUnaryInterceptor(f ...UnaryServerInterceptor) ServerOption {
	return serverFn(func(o *serverOptions) { o.inter = append(o.inter, f...) })
}
func KeepaliveParams(keepalive.ServerParameters) ServerOption               { return EmptyServerOption{} }
func KeepaliveEnforcementPolicy(keepalive.EnforcementPolicy) ServerOption   { return EmptyServerOption{} }
func MaxConcurrentStreams(uint32) ServerOption                              { return EmptyServerOption{} }
func ConnectionTimeout(time.Duration) ServerOption                          { return EmptyServerOption{} }
func Creds(credentials.TransportCredentials) ServerOption                   { return EmptyServerOption{} }
func NumStreamWorkers(uint32) ServerOption                                  { return EmptyServerOption{} }
func WaitForHandlers(bool) ServerOption                                     { return EmptyServerOption{} }
func InitialWindowSize(int32) ServerOption                                  { return EmptyServerOption{} }
func InitialConnWindowSize(int32) ServerOption                              { return EmptyServerOption{} }
func ReadBufferSize(int) ServerOption                                       { return EmptyServerOption{} }
func WriteBufferSize(int) ServerOption                                      { return EmptyServerOption{} }

type service struct {
	desc *ServiceDesc
	impl any
}

// Server is a gRPC server.
type Server struct {
	o       serverOptions
	svcs    []service
	mu      rt.Mutex
	lis     []*znet.SimListener
	stopped bool
	serving bool
	active  rt.WaitGroup
}

// NewServer makes a server.
func NewServer(opts ...ServerOption) *Server {
	s := &Server{o: serverOptions{maxRecv: defaultRecv, maxSend: math.MaxInt32}}
	for _, o := range opts {
		o.apply(&s.o)
	}
	return s
}

// RegisterService registers a service.
func (s *Server) RegisterService(d *ServiceDesc, impl any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.serving {
		rt.Fatal("grpc: Server.RegisterService after Server.Serve for " + d.ServiceName)
	}
	s.svcs = append(s.svcs, service{d, impl})
}

// GetServiceInfo lists the services.
func (s *Server) GetServiceInfo() map[string]ServiceInfo { return nil }

// Serve serves until stopped.
func (s *Server) Serve(l net.Listener) error {
	sl, ok := l.(*znet.SimListener)
	if !ok {
		return errors.New("listener is not simulated")
	}
	s.mu.Lock()
	if s.stopped {
		s.mu.Unlock()
		sl.Close()
		return ErrServerStopped
	}
	s.serving = true
	s.lis = append(s.lis, sl)
	s.mu.Unlock()
	for {
		e, ok := sl.L.Next()
		if !ok {
			if s.stopped {
				return nil
			}
			return &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if e.Cancel {
			if c, ok := e.S.Local.(func()); ok {
				c()
			}
			continue
		}
		s.start(e.S)
	}
}

func (s *Server) start(st *rt.Stream) {
	var ctx context.Context
	var cancel context.CancelFunc
	base := context.Background()
	if md, ok := st.MD.(metadata.MD); ok && md != nil {
		base = metadata.NewIncomingContext(base, md.Copy())
	}
	cp, _ := st.C.Peer()
	base = peer.NewContext(base, &peer.Peer{Addr: &net.TCPAddr{IP: net.ParseIP(cp.Host().IPs[len(cp.Host().IPs)-1]), Port: 30000 + cp.ID()}})
	if st.Deadline > 0 {
		ctx, cancel = zctx.WithDeadline(base, rt.Epoch.Add(time.Duration(st.Deadline)))
	} else {
		ctx, cancel = zctx.WithCancel(base)
	}
	st.Local = func() { cancel() }
	s.active.Add(1)
	rt.Go(func() {
		defer s.active.Done()
		s.handle(ctx, st)
		cancel()
	})
}

func (s *Server) find(full string) (*service, *MethodDesc) {
	full = strings.TrimPrefix(full, "/")
	i := strings.LastIndex(full, "/")
	if i < 0 {
		return nil, nil
	}
	for k := range s.svcs {
		sv := &s.svcs[k]
		if sv.desc.ServiceName != full[:i] {
			continue
		}
		for m := range sv.desc.Methods {
			if sv.desc.Methods[m].MethodName == full[i+1:] {
				return sv, &sv.desc.Methods[m]
			}
		}
	}
	return nil, nil
}

func (s *Server) handle(ctx context.Context, st *rt.Stream) {
	fail := func(c codes.Code, m string) { st.Respond(nil, uint32(c), m) }
	sv, m := s.find(st.Method)
	if m == nil {
		fail(codes.Unimplemented, "unknown method "+st.Method)
		return
	}
	if n := rt.Size(len(st.Req)); n > int64(s.o.maxRecv) {
		fail(codes.ResourceExhausted, fmt.Sprintf("grpc: received message larger than max (%d vs. %d)", n, s.o.maxRecv))
		return
	}
	dec := func(v any) error {
		rt.Yield()
		if err := unmarshal(st.Req, v); err != nil {
			return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", err)
		}
		return nil
	}
	var inter UnaryServerInterceptor
	switch len(s.o.inter) {
	case 0:
	case 1:
		inter = s.o.inter[0]
	default:
		inter = func(ctx context.Context, req any, info *UnaryServerInfo, h UnaryHandler) (any, error) {
			next := h
			for i := len(s.o.inter) - 1; i >= 0; i-- {
				f, n := s.o.inter[i], next
				next = func(ctx context.Context, req any) (any, error) { return f(ctx, req, info, n) }
			}
			return next(ctx, req)
		}
	}
	rt.MarkHandler(st, true)
	reply, err := m.Handler(sv.impl, ctx, dec, inter)
	rt.MarkHandler(st, false)
	rt.Yield() // the reply is encoded some time after the handler returned
	if err != nil {
		sts, ok := status.FromError(err)
		if !ok {
			sts = status.FromContextError(err)
		}
		if sts.Code() == codes.OK {
			sts = status.New(codes.Unknown, err.Error())
		}
		fail(sts.Code(), sts.Message())
		return
	}
	b, merr := marshal(reply)
	if merr != nil {
		fail(codes.Internal, fmt.Sprintf("grpc: error while marshaling: %v", merr))
		return
	}
	if n := rt.Size(len(b)); n > int64(s.o.maxSend) {
		fail(codes.ResourceExhausted, fmt.Sprintf("trying to send message larger than max (%d vs. %d)", n, s.o.maxSend))
		return
	}
	st.Respond(b, 0, "")
}

// Stop stops at once.
func (s *Server) Stop() {
	s.mu.Lock()
	s.stopped = true
	ls := s.lis
	s.mu.Unlock()
	for _, l := range ls {
		l.L.Close()
		l.L.CloseConns()
	}
}

// GracefulStop waits for pending calls.
func (s *Server) GracefulStop() {
	s.mu.Lock()
	s.stopped = true
	ls := s.lis
	s.mu.Unlock()
	for _, l := range ls {
		l.L.Close()
	}
	s.active.Wait()
	for _, l := range ls {
		l.L.CloseConns()
	}
}

// --- helpers of the package ---

func Code(err error) codes.Code     { return status.Code(err) }
func ErrorDesc(err error) string    { return status.Convert(err).Message() }
func Errorf(c codes.Code, f string, a ...any) error { return status.Errorf(c, f, a...) }
func SetHeader(context.Context, metadata.MD) error  { return nil }
func SendHeader(context.Context, metadata.MD) error { return nil }
func SetTrailer(context.Context, metadata.MD) error { return nil }
