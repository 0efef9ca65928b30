package harness

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"image/png"
	"io"
	"math"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"

	rt "ZZSIM/rt"
	zctx "ZZSIM/std/context"
	zgrpc "ZZSIM/std/grpc"
	znet "ZZSIM/std/net"
	ztime "ZZSIM/std/time"

	pb "ZZMOD/stl2svx/proto"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// The cluster: one real master, real agents, and clients that are either the
// real stl2svx-client or RPC callers of the harness, each a process of its own.

const (
	svxPort   = 4000
	svxMaster = "10.0.0.1:4000"
	svxMax    = 1 << 30
	settle    = 1300e9 // simulated time in which partitions, stalls and delays end
	bound     = 600e9  // simulated time in which a job ends once all faults are over
)

type svxAgent struct {
	Start   int64  `json:"start,omitempty"` // ms
	Port    int    `json:"port,omitempty"`  // 0: any
	Host    int    `json:"host"`
	Net     int    `json:"net,omitempty"`     // addresses of the host: 0 one, 1 two, 2 an IPv6 one, 3 IPv4 and IPv6
	Bind    int    `json:"bind,omitempty"`    // where it listens: 0 0.0.0.0, 1 the last address, 2 [::], 3 no address, 4 the first address, 5 the loopback address of the master's host
	Restart int64  `json:"restart,omitempty"` // ms until it is restarted; 0: never
	Fake    uint32 `json:"fake,omitempty"`    // an agent that answers with this error
	FakeN   int    `json:"fake_n,omitempty"`  // ... this often, then it vanishes; when restarted, it is a real one
}

type svxJob struct {
	baseSpec
	Cuts   []cutSpec `json:"cuts"`
	Prefix string    `json:"prefix"`
	Start  int64     `json:"start,omitempty"` // ms
	Real   bool      `json:"real,omitempty"`  // the real client
	ASCII  bool      `json:"ascii,omitempty"`
	Stop   string    `json:"stop,omitempty"` // cancel, deadline, kill, powerloss
	StopMS int64     `json:"stop_ms,omitempty"`
	// real client only
	Bad  string  `json:"bad,omitempty"` // missing, cut, noport, nohost, noaddr, dir
	At   float64 `json:"at,omitempty"`
	Old  bool    `json:"old,omitempty"`
	Full int64   `json:"full,omitempty"`
	Dirs bool    `json:"dirs,omitempty"` // the cuts have the name of the base and folders of their own
}

type svxHostile struct {
	At   int64  `json:"at"` // ms
	To   int    `json:"to"` // -1: master, otherwise the agent
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

type svxParams2 struct {
	Agents  []svxAgent   `json:"agents"`
	Jobs    []svxJob     `json:"jobs"`
	Hostile []svxHostile `json:"hostile,omitempty"`
	Final   bool         `json:"final,omitempty"`
	Last    int          `json:"last,omitempty"`
	Wild    bool         `json:"wild,omitempty"`    // master listens on the wildcard address
	Convert bool         `json:"convert,omitempty"` // convert the archives with svx2stl
}

// cutTris are the triangles of cut i.
func (j svxJob) cutTris(i int) []tri {
	if j.Cuts[i].Same {
		return j.tris()
	}
	return scaled(makeSolid(j.Cuts[i].Shapes).tris, j.k(), j.mv())
}

func pbSTL(ts []tri) *pb.STLFile {
	v := func(p vec) *pb.Vertex { return &pb.Vertex{X: p[0], Y: p[1], Z: p[2]} }
	f := &pb.STLFile{}
	for _, t := range ts {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t[0]), V2: v(t[1]), V3: v(t[2])})
	}
	return f
}

func (j svxJob) request() *pb.NewJobRequest {
	r := &pb.NewJobRequest{Dim: int64(j.dim()), NX: int64(j.Div[0]), NY: int64(j.Div[1]), NZ: int64(j.Div[2]), OutPrefix: j.Prefix}
	r.StlFiles = append(r.StlFiles, pbSTL(j.tris()))
	for i := range j.Cuts {
		r.StlFiles = append(r.StlFiles, pbSTL(j.cutTris(i)))
	}
	return r
}

// want voxelises the job with the library.
func (j svxJob) want(c *Ctx, prop, name string) (vset, bool) {
	out := vset{}
	ok := lib(c, prop, rt.NewHost("oracle-"+name, "127.0.0.1", "10.0.4.1"), "oracle", func() {
		b := j.whole()
		if err := b.Voxelize(meshOf(j.tris())); err != nil {
			fatal("oracle: %v", err)
		}
		for k := range b.WhiteVoxels {
			out[[3]int{k.X, k.Y, k.Z}] = true
		}
		for i := range j.Cuts {
			b := j.whole()
			if err := b.Voxelize(meshOf(j.cutTris(i))); err != nil {
				fatal("oracle: %v", err)
			}
			for k := range b.WhiteVoxels {
				delete(out, [3]int{k.X, k.Y, k.Z})
			}
		}
	})
	return out, ok
}

var (
	gridRE    = regexp.MustCompile(`(?s)^<\?xml version="1\.0"[^>]*\?>\s*<grid\s([^>]*)>(.*)</grid>\s*$`)
	attrRE    = regexp.MustCompile(`(\w+)="([^"]*)"`)
	channelRE = regexp.MustCompile(`<channel\s([^>]*)/>`)
)

func attrs(s string) map[string]string {
	out := map[string]string{}
	for _, m := range attrRE.FindAllStringSubmatch(s, -1) {
		out[m[1]] = html.UnescapeString(m[2])
	}
	return out
}

// checkArchive compares an SVX file with what the job has to produce.
func checkArchive(j svxJob, want vset, b []byte) string {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return fmt.Sprintf("it is no ZIP file: %v", err)
	}
	d := j.dims()
	seen := map[string][]byte{}
	for i, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return fmt.Sprintf("entry %q cannot be opened: %v", f.Name, err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			return fmt.Sprintf("entry %q cannot be read: %v", f.Name, err)
		}
		if i == 0 && f.Name != "manifest.xml" {
			return fmt.Sprintf("its first entry is %q", f.Name)
		}
		if _, ok := seen[f.Name]; ok {
			return fmt.Sprintf("entry %q occurs more than once", f.Name)
		}
		seen[f.Name] = data
	}
	m := gridRE.FindSubmatch(seen["manifest.xml"])
	if m == nil {
		return fmt.Sprintf("its manifest is not valid: %q", seen["manifest.xml"])
	}
	g := attrs(string(m[1]))
	for k, v := range map[string]int{"gridSizeX": d[0] + 2, "gridSizeZ": d[1] + 2, "gridSizeY": d[2] + 2} {
		if g[k] != strconv.Itoa(v) {
			return fmt.Sprintf("its manifest says %s=%q, want %d (model %v)", k, g[k], v, d)
		}
	}
	if v, err := strconv.ParseFloat(g["voxelSize"], 64); err != nil || math.Abs(v-j.k()/1000) > 1e-9*v {
		return fmt.Sprintf("its manifest says voxelSize=%q, want %v", g["voxelSize"], j.k()/1000)
	}
	ch := channelRE.FindAllSubmatch(m[2], -1)
	if len(ch) != 1 {
		return "its manifest does not have one channel"
	}
	pat := attrs(string(ch[0][1]))["slices"]
	if len(seen) != d[2]+3 {
		var names []string
		for n := range seen {
			names = append(names, n)
		}
		sort.Strings(names)
		return fmt.Sprintf("it has %d entries, want %d: %q", len(seen), d[2]+3, names)
	}
	dim := j.dim()
	for l := 0; l < d[2]+2; l++ {
		name := fmt.Sprintf(pat, l)
		data, ok := seen[name]
		if !ok {
			return fmt.Sprintf("layer %q is missing", name)
		}
		img, err := png.Decode(bytes.NewReader(data))
		if err != nil {
			return fmt.Sprintf("layer %q is no image: %v", name, err)
		}
		if r := img.Bounds(); r.Min.X != 0 || r.Min.Y != 0 || r.Dx() != dim+2 || r.Dy() != dim+2 {
			return fmt.Sprintf("layer %q has bounds %v, want a square of %d", name, r, dim+2)
		}
		for px := 0; px < dim+2; px++ {
			for py := 0; py < dim+2; py++ {
				r, gg, bb, _ := img.At(px, py).RGBA()
				v := [3]int{px - 1, dim - py, l - 1}
				w := want[v]
				if white, black := r == 0xffff && gg == 0xffff && bb == 0xffff, r == 0 && gg == 0 && bb == 0; w && !white || !w && !black {
					return fmt.Sprintf("pixel (%d,%d) of layer %q is %d, but voxel %v set is %v", px, py, name, r>>8, v, w)
				}
			}
		}
	}
	return ""
}

// --- the run ---

type svxRun struct {
	c        *Ctx
	p        svxParams2
	prop     string
	mh       *rt.Host
	master   *rt.Proc
	ahosts   []*rt.Host
	agents   []*rt.Proc // current incarnations
	stopped  bool       // no more restarts
	regd     kv         // registered processes
	addrs    kv         // addresses that were registered with the master
	out      kv         // outstanding layer requests by address
	ids      kv         // their addresses by request
	stops    kv         // when the client of a prefix gave up
	pending  kv         // prefixes of running NewJob handlers by request
	fakes    kv         // processes of fake agents
	agentSeq int
	lastEnd  int64
}

// svxCall is the outcome of a client.
type svxCall struct {
	job    svxJob
	name   string
	proc   *rt.Proc
	host   *rt.Host
	done   bool
	err    error
	reply  []byte
	cancel func()
	hb     byte
	want   vset
	haveW  bool
}

func newSvxRun(c *Ctx, p svxParams2) *svxRun {
	return &svxRun{c: c, p: p, prop: c.Plan.Property}
}

// addrOf is the identity of a server for the exclusiveness check: an agent with
// a fixed port keeps its address when it is restarted.
func (s *svxRun) addrOf(p *rt.Proc) string {
	if p == s.master {
		return svxMaster
	}
	for i, a := range p.Args() {
		if _, port, ok := rt.ParseAddr(a); ok && i > 0 && p.Args()[i-1] == "-port" && port > 0 {
			return fmt.Sprintf("%s:%d", p.Host().Name, port)
		}
	}
	return fmt.Sprintf("%s#%d", p.Name(), p.ID())
}

// onRPC watches the network.
func (s *svxRun) onRPC(e rt.RPCEvent) {
	switch {
	case strings.HasSuffix(e.Method, "/RegisterAgent"):
		if e.Kind == "handle" {
			s.addrs.at(s.addrOf(e.Client))
			var r pb.RegisterAgentRequest
			if proto.Unmarshal(e.Req, &r) == nil {
				s.addrs.at(r.Address)
			}
		}
		if e.Kind == "handled" && e.Server == s.master {
			s.regd.at(strconv.Itoa(e.Client.ID()))
		}
	case strings.HasSuffix(e.Method, "/NewJob"):
		if e.Kind == "handle" {
			var r pb.NewJobRequest
			if proto.Unmarshal(e.Req, &r) == nil {
				s.pending.at(strconv.Itoa(e.ID)).s = r.OutPrefix
			}
		}
		if e.Kind == "handled" {
			s.pending.del(strconv.Itoa(e.ID))
		}
	case strings.HasSuffix(e.Method, "/SliceJob") && e.Client == s.master:
		a := s.addrOf(e.Server)
		switch e.Kind {
		case "request":
			s.ids.at(strconv.Itoa(e.ID)).s = a
			x := s.out.at(a)
			x.n++
			if x.n > 1 {
				s.c.Viol("C05", "exclusive", "at %.3fs the master has %d layer requests outstanding at agent %s (%s)", float64(e.At)/1e9, x.n, e.Server.Name(), a)
			}
			if !s.addrs.has(a) {
				s.c.Viol("C05", "unregistered", "the master sent a layer request to %s (%s), which has not registered", e.Server.Name(), a)
			}
			s.c.Probe("layer-requests")
			if s.stops.first != nil {
				var r pb.SliceJobRequest
				if proto.Unmarshal(e.Req, &r) == nil {
					if x := s.stops.find(r.GetNewJobRequest().GetOutPrefix()); x != nil && e.At > x.n {
						s.c.Viol("C06", "handed-out", "layer %d of job %q was handed out %.3fs after its client gave up", r.Z, r.GetNewJobRequest().GetOutPrefix(), float64(e.At-x.n)/1e9)
					}
				}
			}
		case "reply", "broken", "cancel":
			if x := s.ids.find(strconv.Itoa(e.ID)); x != nil {
				s.out.at(x.s).n--
				s.ids.del(x.k)
			}
		}
	}
}

func (s *svxRun) isRegd(p *rt.Proc) bool { return s.regd.has(strconv.Itoa(p.ID())) }

func (s *svxRun) startMaster() {
	s.mh = rt.NewHost("m", "127.0.0.1", "10.0.0.1")
	addr := svxMaster
	if s.p.Wild {
		addr = "0.0.0.0:4000"
	}
	var err error
	s.master, err = rt.Start(s.mh, "master", "stl2svx-server", []string{"-port", addr}, rt.StartOpts{})
	if err != nil {
		fatal("%v", err)
	}
	for i := 0; i < 100 && !rt.ListenerOn(s.mh, svxPort); i++ {
		rt.Sleep(1e6)
	}
}

func (s *svxRun) agentHost(i int) *rt.Host {
	for len(s.ahosts) <= i {
		n := len(s.ahosts)
		kind := 0
		for j := len(s.p.Agents) - 1; j >= 0; j-- {
			if s.p.Agents[j].Host == n {
				kind = s.p.Agents[j].Net
			}
		}
		ips := []string{"127.0.0.1"}
		if kind != 2 {
			ips = append(ips, fmt.Sprintf("10.0.1.%d", n+1))
		}
		switch kind {
		case 1:
			ips = append(ips, fmt.Sprintf("10.0.2.%d", n+1))
		case 2, 3:
			ips = append(ips, fmt.Sprintf("fd00::%x", n+1))
		}
		s.ahosts = append(s.ahosts, rt.NewHost(fmt.Sprintf("a%d", n), ips...))
	}
	return s.ahosts[i]
}

// reach is where an agent with a fixed port can be reached.
func (s *svxRun) reach(i int) string {
	a := s.p.Agents[i]
	if a.Bind == 5 {
		return net.JoinHostPort("127.0.0.1", strconv.Itoa(a.Port))
	}
	ips := s.agentHost(a.Host).IPs
	ip := ips[1]
	if a.Bind == 1 {
		ip = ips[len(ips)-1]
	}
	return net.JoinHostPort(ip, strconv.Itoa(a.Port))
}

// fakeAgent registers and answers layer requests with errors.
type fakeAgent struct {
	s    *svxRun
	a    svxAgent
	left int
}

func (f *fakeAgent) SliceJob(ctx zctx.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	f.s.c.Probe("fake-agent-error")
	f.left--
	if f.left < 0 {
		rt.Exit(1)
	}
	return nil, status.Error(codes.Code(f.a.Fake), "injected error")
}

func (s *svxRun) startAgent(i int, a svxAgent) *rt.Proc {
	h := s.agentHost(a.Host)
	if a.Bind == 5 {
		h = s.mh
	}
	o := rt.StartOpts{}
	args := []string{"-master", svxMaster}
	ip := "0.0.0.0"
	switch v6 := strings.Contains(h.IPs[1], ":"); {
	case a.Bind == 5:
		ip = "127.0.0.1"
	case a.Bind == 1:
		ip = h.IPs[len(h.IPs)-1]
	case a.Bind == 4:
		ip = h.IPs[1]
	case a.Bind == 2 || v6:
		ip = "::"
	case a.Bind == 3:
		ip = ""
	}
	if strings.Contains(ip, ":") {
		ip = "[" + ip + "]"
	}
	port := fmt.Sprintf("%s:%d", ip, a.Port)
	args = append(args, "-port", port)
	if a.Fake > 0 {
		o.Fn = func() {
			l, err := znet.Listen("tcp", port)
			if err != nil {
				rt.Exit(1)
			}
			srv := zgrpc.NewServer(zgrpc.MaxRecvMsgSize(svxMax))
			pb.RegisterAgentServer(srv, &fakeAgent{s: s, a: a, left: a.FakeN})
			cc, err := zgrpc.Dial(svxMaster, zgrpc.WithInsecure())
			if err != nil {
				rt.Exit(1)
			}
			addr := l.Addr().String()
			if k := strings.LastIndex(addr, ":"); a.Bind != 1 && a.Bind < 4 {
				addr = net.JoinHostPort(h.IPs[1], addr[k+1:])
			}
			if _, err := pb.NewMasterClient(cc).RegisterAgent(zctx.Background(), &pb.RegisterAgentRequest{Address: addr}); err != nil {
				rt.Exit(1)
			}
			srv.Serve(l)
		}
	}
	p, err := rt.Start(h, fmt.Sprintf("agent%d", i), "stl2svx-server", args, o)
	if err != nil {
		fatal("%v", err)
	}
	if a.Fake > 0 {
		s.fakes.at(strconv.Itoa(p.ID()))
	}
	return p
}

// supervise starts an agent and restarts it when it dies.
func (s *svxRun) supervise(i int, a svxAgent) {
	rt.Go(func() {
		rt.Sleep(1 + ztime.Duration(a.Start*1e6))
		for n := 0; !s.stopped && n < 20; n++ {
			p := s.startAgent(i, a)
			s.agents[i] = p
			rt.WaitProc(p)
			s.crashed(p)
			if !s.isRegd(p) && a.Restart == 0 {
				rt.Sleep(1e9) // it could not register
				continue
			}
			if a.Restart == 0 {
				return
			}
			s.c.Probe("agent-restarted")
			a.Fake = 0
			rt.Sleep(ztime.Duration(a.Restart * 1e6))
		}
	})
}

// crashed reports a server that crashed by itself.
func (s *svxRun) crashed(p *rt.Proc) {
	if msg, st := p.CrashInfo(); msg != "" {
		if len(st) > 1500 {
			st = st[:1500]
		}
		s.c.Viol("C07", "server-crash", "%s crashed: %s\n%s", p.Name(), msg, st)
	}
}

// call starts a client.
func (s *svxRun) call(name string, j svxJob) *svxCall {
	k := &svxCall{job: j, name: name}
	k.host = rt.NewHost("h-"+name, "127.0.0.1", fmt.Sprintf("10.0.2.%d", 1+s.agentSeq))
	s.agentSeq++
	k.host.Mkdir("/work")
	if j.Real {
		var files []string
		put := func(n string, ts []tri) {
			files = append(files, n)
			b := stlBytes(ts)
			if j.ASCII {
				b = stlASCII(ts)
			}
			last := len(files) == 1+len(j.Cuts)
			switch {
			case last && j.Bad == "missing":
				return
			case last && j.Bad == "dir":
				k.host.Mkdir("/work/" + n)
				return
			case last && j.Bad == "cut":
				b = b[:int(j.At*float64(len(b)-1))]
			}
			k.host.PutFile("/work/"+n, b)
		}
		put("base.stl", j.tris())
		for i := range j.Cuts {
			n := fmt.Sprintf("cut%d.stl", i)
			if j.Dirs {
				n = fmt.Sprintf("d%d/base.stl", i)
				k.host.Mkdir(fmt.Sprintf("/work/d%d", i))
			}
			put(n, j.cutTris(i))
		}
		if j.Old {
			k.host.PutFile("/work/"+k.outFile(), oldOutput(uint64(j.dim()+len(j.Cuts))))
		}
		k.host.SyncAll()
		if j.Full > 0 {
			k.host.SetCapacity(j.Full)
		}
		m := svxMaster
		switch j.Bad {
		case "noport":
			m = "10.0.0.1:4001"
		case "nohost":
			m = "nowhere:4000"
		case "noaddr":
			m = ""
		}
		args := []string{"-master", m, "-dim", fmt.Sprint(j.dim()), "-nx", fmt.Sprint(j.Div[0]), "-ny", fmt.Sprint(j.Div[1]), "-nz", fmt.Sprint(j.Div[2]), "-prefix", j.Prefix, "-stl", strings.Join(files, ",")}
		p, err := rt.Start(k.host, name, "stl2svx-client", args, rt.StartOpts{Cwd: "/work"})
		if err != nil {
			fatal("%v", err)
		}
		k.proc = p
	} else {
		req := j.request()
		p, err := rt.Start(k.host, name, name, nil, rt.StartOpts{Fn: func() {
			cc, err := zgrpc.Dial(svxMaster, zgrpc.WithInsecure(), zgrpc.WithDefaultCallOptions(zgrpc.MaxCallRecvMsgSize(svxMax), zgrpc.MaxCallSendMsgSize(svxMax)))
			if err != nil {
				k.err, k.done = err, true
				return
			}
			ctx, cancel := zctx.WithCancel(zctx.Background())
			if j.Stop == "deadline" {
				ctx, cancel = zctx.WithTimeout(ctx, ztime.Duration(j.StopMS*1e6))
			}
			k.cancel = cancel
			rt.Publish(&k.hb)
			resp, err := pb.NewMasterClient(cc).NewJob(ctx, req)
			k.err = err
			if err == nil {
				k.reply = append([]byte(nil), resp.GetSvxFile()...)
			}
			k.done = true
			cancel()
			cc.Close()
		}})
		if err != nil {
			fatal("%v", err)
		}
		k.proc = p
	}
	if j.Stop != "" {
		rt.Go(func() {
			rt.Sleep(1 + ztime.Duration(j.StopMS*1e6))
			switch j.Stop {
			case "cancel":
				rt.Observe(&k.hb)
				if k.cancel != nil && !k.done {
					k.cancel()
				} else if k.cancel == nil {
					rt.Kill(k.proc, "removed")
				}
			case "kill":
				if !k.proc.Dead() {
					rt.Kill(k.proc, "removed")
				}
			case "powerloss":
				if !k.proc.Dead() {
					rt.PowerLoss(k.host)
				}
			}
			grace := int64(20e9)
			if j.Stop == "powerloss" {
				grace += rt.DeadPeerTimeout
			}
			s.stops.at(j.Prefix).n = rt.Now() + grace
		})
	}
	return k
}

func (k *svxCall) outFile() string {
	j := k.job
	return fmt.Sprintf("%v-%v-%v-%v-%v.svx", j.Prefix, j.dim(), j.Div[0], j.Div[1], j.Div[2])
}

// check judges an ended client.
func (s *svxRun) check(k *svxCall, strict bool, key string) {
	c := s.c
	ok := false
	var b []byte
	how := ""
	if k.job.Real {
		ok = exitOK(k.proc)
		if ok {
			var have bool
			if b, have = k.host.GetFile("/work/" + k.outFile()); !have {
				c.Viol(s.prop, key+"no-file", "%s exited successfully without writing %s", k.name, k.outFile())
				return
			}
			if k.job.Bad != "" {
				c.Viol(s.prop, key+"bad-input", "%s exited successfully although it cannot do its job (%s)", k.name, k.job.Bad)
				return
			}
		} else {
			how = howEnded(k.proc)
		}
	} else {
		ok = k.done && k.err == nil
		b = append(b, k.reply...)
		how = fmt.Sprint(k.err)
		if !k.done {
			how = howEnded(k.proc)
		}
	}
	if !ok {
		c.Probe("job-failed")
		if strict && k.job.Bad == "" && k.job.Full == 0 && k.job.Stop == "" {
			c.Viol(s.prop, key+"failed", "job %s failed although nothing stands in its way: %s", k.name, how)
		}
		return
	}
	c.Probe("job-succeeded")
	if c.Plan.Cfg.SizeScale > 1 {
		c.Probe("job-with-long-messages")
	}
	if d := k.job.dims(); d[0]*d[1] > 1000 {
		c.Probe("job-with-large-layers")
	}
	if !k.haveW {
		var o bool
		if k.want, o = k.job.want(c, s.prop, k.name); !o {
			return
		}
		k.haveW = true
	}
	if d := checkArchive(k.job, k.want, b); d != "" {
		c.Viol(s.prop, key+"archive", "the archive of job %s (model %v voxels, divided %v, %d cuts), which succeeded, is wrong: %s", k.name, k.job.dims(), k.job.Div, len(k.job.Cuts), d)
	}
}

// live returns the agents that are alive and registered.
func (s *svxRun) live() []*rt.Proc {
	var out []*rt.Proc
	for _, p := range s.agents {
		if p != nil && !p.Dead() && s.isRegd(p) && !s.fakes.has(strconv.Itoa(p.ID())) {
			out = append(out, p)
		}
	}
	return out
}

// ensureAgent makes sure that an agent is there.
func (s *svxRun) ensureAgent() {
	for i := 0; len(s.live()) == 0 && i < 60; i++ {
		i := len(s.agents)
		p := s.startAgent(i, svxAgent{Host: len(s.ahosts)})
		s.agents = append(s.agents, p)
		for t := 0; t < 40 && !s.isRegd(p) && !p.Dead(); t++ {
			rt.Sleep(1e9)
		}
	}
}

func svxClusterRun(c *Ctx, raw json.RawMessage) {
	p := decode[svxParams2](raw)
	s := newSvxRun(c, p)
	rt.OnRPC = s.onRPC
	s.startMaster()
	rt.Go(func() {
		rt.WaitProc(s.master)
		s.crashed(s.master)
	})
	s.agents = make([]*rt.Proc, len(p.Agents))
	for i, a := range p.Agents {
		s.supervise(i, a)
	}
	for _, m := range p.Hostile {
		s.sendHostile(m)
	}
	calls := make([]*svxCall, len(p.Jobs))
	started := 0
	for i, j := range p.Jobs {
		rt.Go(func() {
			rt.Sleep(1 + ztime.Duration(j.Start*1e6))
			calls[i] = s.call(fmt.Sprintf("client%d", i), j)
			started++
		})
	}
	for started < len(p.Jobs) {
		rt.Sleep(1e9)
	}
	quiet := false // faults have stopped and an agent is there
	for i, k := range calls {
		if rt.WaitProcFor(k.proc, 200e9) {
			s.lastEnd = max(s.lastEnd, rt.Now())
			continue
		}
		if !quiet {
			rt.DisarmFaults()
			if !s.master.Dead() {
				s.ensureAgent()
			}
			quiet = true
		}
		if !rt.WaitProcFor(k.proc, settle+bound) {
			prop, key := "C03", "stuck"
			if p.Jobs[i].Stop != "" {
				prop, key = "C06", "stuck-after-stop"
			}
			switch s.prop {
			case "C01", "C04", "C07", "C19", "C24":
				prop = s.prop
			}
			c.Viol(prop, key, "%s did not end within %.0f simulated minutes after the last fault with a reachable agent", k.name, bound/60e9)
			return
		}
	}
	c.Out.Span = s.lastEnd
	strict := !c.Faulty() && !s.anyFake()
	for _, k := range calls {
		s.check(k, strict, "")
	}
	if p.Convert {
		for _, k := range calls {
			s.convert(k)
		}
	}
	s.checkStops(calls)
	if s.master.Dead() || len(c.Out.Viols) > 0 {
		return
	}
	if p.Final {
		s.final()
	}
}

// convert has svx2stl read what a client wrote.
func (s *svxRun) convert(k *svxCall) {
	c := s.c
	if !k.haveW || !exitOK(k.proc) || len(c.Out.Viols) > 0 {
		return
	}
	name := "./" + k.outFile()
	for try := 1; ; try++ {
		losses := k.host.PowerLosses()
		q := runTool(c, "C24", k.host, "svx2stl", "svx2stl", name)
		if q == nil {
			return
		}
		if exitOK(q) {
			break
		}
		c.Probe("conversion-failed")
		if k.host.PowerLosses() > losses { // The archive may be gone.
			return
		}
		if try > 1 || !c.Faulty() {
			c.Viol("C24", "rejected", "svx2stl rejects the archive of job %s (prefix %q), which the client reported complete: %s", k.name, k.job.Prefix, howEnded(q))
			return
		}
		rt.DisarmFaults()
		k.host.SetCapacity(-1)
	}
	b, ok := k.host.GetFile("/work/" + strings.TrimSuffix(k.outFile(), ".svx") + ".stl")
	if !ok {
		c.Viol("C24", "output", "svx2stl succeeded, but wrote no STL file for %s", name)
		return
	}
	ts, err := parseSTL(b)
	if err != nil {
		c.Viol("C24", "output", "svx2stl succeeded, but the STL file of %s is not complete: %v", name, err)
		return
	}
	if len(k.want) == 0 || len(ts) == 0 {
		if len(k.want) > 0 || len(ts) > 0 {
			c.Viol("C24", "solid", "svx2stl made %d triangles of %d voxels", len(ts), len(k.want))
		}
		c.Probe("converted-empty")
		return
	}
	// The scale and the position are svx2stl's business.
	wlo, whi := [3]int{1 << 30, 1 << 30, 1 << 30}, [3]int{-1 << 30, -1 << 30, -1 << 30}
	for v := range k.want {
		for a := range v {
			wlo[a], whi[a] = min(wlo[a], v[a]), max(whi[a], v[a]+1)
		}
	}
	lo, hi := boundsOf(ts)
	sz := (hi[0] - lo[0]) / float64(whi[0]-wlo[0])
	for a := range lo {
		if w := (hi[a] - lo[a]) / sz; math.Abs(w-float64(whi[a]-wlo[a])) > 1e-3 {
			c.Viol("C24", "solid", "the STL file made of %s is %v units wide, the solid is %v voxels wide", name, hi.sub(lo), [3]int{whi[0] - wlo[0], whi[1] - wlo[1], whi[2] - wlo[2]})
			return
		}
	}
	got := insideVoxels(ts, lo, sz, [3]int{-2, -2, -2}, [3]int{whi[0] - wlo[0] + 2, whi[1] - wlo[1] + 2, whi[2] - wlo[2] + 2})
	want, mirrored := vset{}, vset{}
	for v := range k.want {
		want[[3]int{v[0] - wlo[0], v[1] - wlo[1], v[2] - wlo[2]}] = true
		mirrored[[3]int{v[0] - wlo[0], whi[1] - 1 - v[1], v[2] - wlo[2]}] = true
	}
	if diffSets(want, got) != "" {
		if d := diffSets(mirrored, got); d != "" { // as the images are
			c.Viol("C24", "solid", "the solid svx2stl made of %s is not the one of the job: %s", name, d)
			return
		}
	}
	c.Probe("converted")
}

func (s *svxRun) anyFake() bool {
	for _, a := range s.p.Agents {
		if a.Fake != 0 {
			return true
		}
	}
	return false
}

// checkStops checks that the jobs of clients that gave up ended at the master.
func (s *svxRun) checkStops(calls []*svxCall) {
	some := false
	for _, k := range calls {
		some = some || k.job.Stop != ""
	}
	if !some || s.master.Dead() {
		return
	}
	var end int64
	for x := s.stops.first; x != nil; x = x.next {
		end = max(end, x.n)
	}
	if d := end + 120e9 - rt.Now(); d > 0 {
		rt.Sleep(ztime.Duration(d))
	}
	if s.master.Dead() {
		return
	}
	for x := s.pending.first; x != nil; x = x.next {
		if y := s.stops.find(x.s); y != nil && rt.Now() > y.n+100e9 {
			s.c.Viol("C06", "not-ended", "the master is still working on job %q %.0fs after its client gave up", x.s, float64(rt.Now()-y.n)/1e9)
		}
	}
	s.c.Probe("stopped-jobs-checked")
}

// final runs one more job with a single agent of the ones used before.
func (s *svxRun) final() {
	c := s.c
	rt.DisarmFaults()
	if c.Faulty() || s.anyFake() {
		rt.Sleep(settle)
	} else {
		rt.Sleep(30e9)
	}
	s.ensureAgent()
	s.stopped = true
	l := s.live()
	if len(l) == 0 {
		c.Probe("no-agent-left")
		return
	}
	keep := l[s.p.Last%len(l)]
	for _, p := range s.agents {
		if p != nil && p != keep && !p.Dead() {
			rt.Kill(p, "removed")
		}
	}
	j := s.p.Jobs[0]
	j.Real, j.Stop, j.Bad, j.Full, j.Prefix = false, "", "", 0, "final"
	k := s.call("final", j)
	if !rt.WaitProcFor(k.proc, bound) {
		c.Viol(s.prop, "final-stuck", "a job started after all faults did not end within %.0f simulated minutes although agent %s is reachable", bound/60e9, keep.Name())
		return
	}
	if s.master.Dead() || keep.Dead() {
		c.Viol(s.prop, "final-dead", "a server died without a fault")
		return
	}
	s.check(k, true, "final-")
	c.Probe("final-job")
}

// --- hostile messages ---

var hostileKinds = []string{"empty", "nofiles", "nobase", "nilvertex", "niltriangle", "nan", "inf", "huge", "tiny", "dim0", "dimneg", "dimhuge", "div0", "divneg", "divhuge", "flat", "point", "line", "partflat", "cutfar", "cutnan", "cutempty", "open", "prefix", "dim1", "z"}
var hostileAgent = []string{"nojob", "zneg", "zbig", "zhuge", "empty", "nofiles", "nobase", "nilvertex", "niltriangle", "nan", "inf", "dim0", "dimneg", "div0", "divneg", "flat", "point", "cutfar", "cutnan", "cutempty", "open", "huge", "tiny", "partflat", "line"}
var hostileReg = []string{"reg-empty", "reg-garbage", "reg-self", "reg-nowhere", "reg-refused", "reg-twice"}

// hostileJob makes a bad request.
func hostileJob(kind string, seed uint64) *pb.NewJobRequest {
	r := rt.NewRand(seed)
	b := genBase(r, 4, [3]int{2, 2, 2})
	j := svxJob{baseSpec: b, Prefix: fmt.Sprintf("hostile%d", seed%1000)}
	j.Cuts = genCuts(r, b.E, r.Intn(2))
	q := j.request()
	ts := q.StlFiles[0].Triangles
	t := ts[r.Intn(len(ts))]
	v := []*pb.Vertex{t.V1, t.V2, t.V3}[r.Intn(3)]
	co := func() *float64 { return []*float64{&v.X, &v.Y, &v.Z}[r.Intn(3)] }
	bad := []int64{0, -1, -7, math.MinInt64}
	all := func(f func(v *pb.Vertex)) {
		for _, t := range ts {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				f(v)
			}
		}
	}
	switch kind {
	case "empty":
		return &pb.NewJobRequest{}
	case "nofiles":
		q.StlFiles = nil
	case "nobase":
		q.StlFiles[0] = &pb.STLFile{}
	case "nilvertex":
		switch r.Intn(3) {
		case 0:
			t.V1 = nil
		case 1:
			t.V2 = nil
		default:
			t.V3 = nil
		}
		if r.Chance(0.3) {
			*t = pb.Triangle{}
		}
	case "niltriangle":
		q.StlFiles[0].Triangles = append(ts, &pb.Triangle{})
	case "nan":
		*co() = math.NaN()
	case "inf":
		*co() = math.Inf(1 - 2*r.Intn(2))
	case "huge":
		*co() = []float64{1e300, -1e308, 1.7e308, 1e30}[r.Intn(4)]
	case "tiny":
		s := []float64{1e-300, 1e-320, 5e-324, 1e-30}[r.Intn(4)]
		all(func(v *pb.Vertex) { v.X, v.Y, v.Z = v.X*s, v.Y*s, v.Z*s })
	case "dim0":
		q.Dim = 0
	case "dimneg":
		q.Dim = bad[1+r.Intn(3)]
	case "dimhuge":
		q.Dim = []int64{1 << 40, math.MaxInt64, 1 << 17, 1<<31 + 5}[r.Intn(4)]
	case "dim1":
		q.Dim = 1
	case "div0", "divneg", "divhuge":
		d := int64(0)
		if kind == "divneg" {
			d = bad[1+r.Intn(3)]
		}
		if kind == "divhuge" {
			d = []int64{1000, 1 << 40, math.MaxInt64}[r.Intn(3)]
		}
		switch r.Intn(3) {
		case 0:
			q.NX = d
		case 1:
			q.NY = d
		default:
			q.NZ = d
		}
	case "flat":
		a := r.Intn(3)
		all(func(v *pb.Vertex) { *[]*float64{&v.X, &v.Y, &v.Z}[a] = 1 })
	case "line":
		all(func(v *pb.Vertex) { v.X, v.Y = 0, 0 })
	case "point":
		all(func(v *pb.Vertex) { v.X, v.Y, v.Z = 1, 2, 3 })
	case "partflat": // degenerate triangles among the others
		q.StlFiles[0].Triangles = append(ts, &pb.Triangle{V1: v, V2: v, V3: v}, &pb.Triangle{V1: v, V2: t.V1, V3: v})
	case "cutfar", "cutnan", "cutempty":
		f := pbSTL(j.tris())
		for _, t := range f.Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				if kind == "cutnan" {
					v.Y = math.NaN()
				}
			}
		}
		if kind == "cutfar" {
			d := []float64{-50, 80, -1e5, 1e12, -1e12, 1e19, -1e19, 1e300, -1e300}[r.Intn(9)]
			a, some, first := r.Intn(3), []float64{1, 1, 0.5, 0.1, 0, 0}[r.Intn(6)], r.Intn(3)
			for i, t := range f.Triangles {
				for j, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
					if r.Chance(some) || i == 0 && j == first {
						*[]*float64{&v.X, &v.Y, &v.Z}[a] += d
					}
				}
			}
		}
		if kind == "cutempty" {
			f = &pb.STLFile{}
		}
		q.StlFiles = append(q.StlFiles, f)
	case "open":
		q.StlFiles[0].Triangles = ts[:1+r.Intn(len(ts))]
	case "prefix":
		q.OutPrefix = []string{"", "../../../../x", "%d%s%!", "a\"b<c>&", "/etc/x", strings.Repeat("long", 200), "ünï/\t\n"}[r.Intn(7)]
	}
	return q
}

// sendHostile sends a bad message from a client of its own.
func (s *svxRun) sendHostile(m svxHostile) {
	h := rt.NewHost(fmt.Sprintf("x%d", s.agentSeq), "127.0.0.1", fmt.Sprintf("10.0.3.%d", 1+s.agentSeq))
	s.agentSeq++
	name := fmt.Sprintf("hostile%d", s.agentSeq)
	rt.Go(func() {
		rt.Sleep(1 + ztime.Duration(m.At*1e6))
		to := svxMaster
		if m.To >= 0 {
			if m.To >= len(s.agents) || s.agents[m.To] == nil || s.p.Agents[m.To].Port == 0 {
				return
			}
			if !rt.ListenerOn(s.agentHost(s.p.Agents[m.To].Host), s.p.Agents[m.To].Port) {
				return
			}
			to = s.reach(m.To)
		}
		var err error
		p, e := rt.Start(h, name, name, nil, rt.StartOpts{Fn: func() {
			cc, e := zgrpc.Dial(to, zgrpc.WithInsecure())
			if e != nil {
				return
			}
			// nobody waits forever for a message of this kind
			ctx, cancel := zctx.WithTimeout(zctx.Background(), 600*ztime.Second)
			defer cancel()
			r := rt.NewRand(m.Seed)
			switch {
			case m.To >= 0:
				q := &pb.SliceJobRequest{}
				if m.Kind != "nojob" {
					q.NewJobRequest = hostileJob(m.Kind, m.Seed)
				}
				switch m.Kind {
				case "zneg":
					q.Z = []int64{-1, -100, math.MinInt64}[r.Intn(3)]
				case "zbig":
					q.Z = int64(1 + r.Intn(40))
				case "zhuge":
					q.Z = []int64{1 << 40, math.MaxInt64}[r.Intn(2)]
				}
				_, err = pb.NewAgentClient(cc).SliceJob(ctx, q)
			case strings.HasPrefix(m.Kind, "reg-"):
				a := ""
				switch m.Kind {
				case "reg-garbage":
					a = []string{"xyz", "::::", "\x00", "10.0.0.1", "host:port", ":0"}[r.Intn(6)]
				case "reg-self":
					a = svxMaster
				case "reg-nowhere":
					a = "10.9.9.9:99"
				case "reg-refused":
					a = "10.0.0.1:99"
				case "reg-twice":
					if len(s.p.Agents) > 0 && s.p.Agents[0].Port > 0 {
						a = s.reach(0)
					}
				}
				_, err = pb.NewMasterClient(cc).RegisterAgent(ctx, &pb.RegisterAgentRequest{Address: a})
			default:
				_, err = pb.NewMasterClient(cc).NewJob(ctx, hostileJob(m.Kind, m.Seed))
			}
		}})
		if e != nil {
			fatal("%v", e)
		}
		rt.WaitProc(p)
		s.c.Probe("hostile-" + m.Kind)
		if err == nil {
			s.c.Probe("hostile-accepted")
			switch m.Kind {
			case "empty", "nofiles", "nobase", "nilvertex", "niltriangle", "nan", "inf", "dim0", "dimneg", "div0", "divneg", "cutnan", "nojob", "zneg", "zhuge":
				s.c.Viol("C07", "accepted", "the server answered a %q message with a result", m.Kind)
			}
			return
		}
		if code := status.Code(err); code == codes.Unavailable && !s.c.Faulty() {
			s.c.Viol("C07", "unavailable", "the server hung up on a %q message: %v", m.Kind, err)
		}
	})
}

// --- generators ---

var prefixes = []string{"out", "out", "out", "a b", "x/y", "../up", "%d", "50%", "%%%", "x%%y%", "a%20b%20c", "q\"q", "<&>'", "ünï", "-", "."}

func genJob(r *rt.Rand, i, maxDim int) svxJob {
	j := svxJob{baseSpec: genBase(r, maxDim, [3]int{3, 3, 3})}
	if maxDim == plateDim {
		j.baseSpec = genPlate(r)
	}
	if r.Chance(0.01) {
		j.manyRegions(r)
	}
	j.Cuts = genCuts(r, j.E, []int{0, 1, 1, 1, 2, 2, 3}[r.Intn(7)])
	j.Prefix = fmt.Sprintf("%s%d", prefixes[r.Intn(len(prefixes))], i)
	if r.Chance(0.15) {
		j.decimalize(r)
		offGridCuts(r, j.Cuts)
	}
	return j
}

// someTime is a time (ms) in the range that matters to a run.
func someTime(r *rt.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return int64(r.Intn(3))
	case 2:
		return int64(r.Intn(20))
	case 3:
		return int64(r.Intn(200))
	case 4:
		return int64(r.Intn(2000))
	}
	return int64(r.Intn(15000))
}

func genAgents(r *rt.Rand, n int, restart, fixed, fake float64) []svxAgent {
	var out []svxAgent
	for i := 0; i < n; i++ {
		a := svxAgent{Host: i}
		if i > 0 && r.Chance(0.2) {
			a.Host = r.Intn(i)
		}
		if r.Chance(0.3) {
			a.Start = someTime(r)
		}
		if r.Chance(fixed) {
			a.Port = 5000 + i
		}
		if r.Chance(0.25) {
			a.Net = r.Intn(4)
		}
		if r.Chance(0.3) {
			a.Bind = r.Intn(6)
		}
		if r.Chance(restart) {
			a.Restart = []int64{1, 50, 300, 1500, 5000, 100000}[r.Intn(6)]
		}
		if r.Chance(fake) {
			a.Fake = []uint32{1, 2, 4, 8, 12, 13, 14, 14}[r.Intn(8)]
			a.FakeN = 1 + r.Intn(4)
			a.Restart = 0
			if r.Chance(0.5) { // a real agent takes its address over
				a.Port = 5000 + i
				a.Restart = []int64{1, 300, 5000}[r.Intn(3)]
			}
		}
		out = append(out, a)
	}
	return out
}

// plateDim stands for a base of few large layers.
const plateDim = -1

func genPlate(r *rt.Rand) baseSpec {
	b := baseSpec{VP: r.Intn(4), E: [3]float64{float64(33 + r.Intn(12)), float64(33 + r.Intn(12)), float64(1 + r.Intn(3))}}
	for i := range b.Div {
		b.Div[i] = 1 + r.Intn(2)
	}
	b.Div[2] = min(b.Div[2], int(b.E[2]))
	b.Shapes = []Shape{{"box", []float64{0, 0, 0, b.E[0], b.E[1], b.E[2]}}}
	return b
}

// sizeScale makes the messages of a run longer than gRPC's default limit. The
// limits of the code apply to the scaled sizes.
func sizeScale(r *rt.Rand, raw json.RawMessage, c *PlanCfg) {
	p := decode[svxParams2](raw)
	if !r.Chance(0.12) || len(p.Hostile) > 0 {
		return
	}
	n := 0
	for _, j := range p.Jobs {
		d := j.dim() + 2
		n = max(n, proto.Size(j.request())+100, (j.dims()[2]+4)*(d*d/4+300)+1000)
	}
	c.SizeScale = []int64{60000, 20000, 5 << 20 / int64(n)}[r.Intn(3)] // > 4 MB for layers, replies and requests, archives
	c.SizeScale = min(c.SizeScale, 256<<20/int64(n))
}

func svxDim(r *rt.Rand, tier string) int {
	if r.Chance(0.02) {
		return plateDim
	}
	if tier == "thorough" && r.Chance(0.2) {
		return 14
	}
	return []int{3, 5, 6, 7}[r.Intn(4)]
}

var agentFaults = func() []FaultKind {
	stall := []int64{1e8, 2e9, 30e9, 600e9}
	part := []int64{1e9, 10e9, 120e9, 1000e9}
	delay := []int64{1e6, 1e8, 1e10}
	out := []FaultKind{
		{Class: "rpc.deliver", Proc: "agent*", Actions: []string{"crash", "crash", "powerloss"}, Weight: 4},
		{Class: "rpc.deliver", Proc: "agent*", Actions: []string{"stall"}, Args: stall, Weight: 2},
		{Class: "rpc.deliver", Proc: "agent*", Actions: []string{"partition"}, Args: part, Weight: 2},
		{Class: "net.reply", Proc: "agent*", Actions: []string{"reset"}, Weight: 4},
		{Class: "net.reply", Proc: "agent*", Actions: []string{"crash", "powerloss"}, Weight: 2},
		{Class: "net.reply", Proc: "agent*", Actions: []string{"partition"}, Args: part, Weight: 2},
		{Class: "net.reply", Proc: "agent*", Actions: []string{"delay"}, Args: delay, Weight: 2},
		{Class: "net.request", Proc: "master", Actions: []string{"reset"}, Weight: 4},
		{Class: "net.request", Proc: "master", Actions: []string{"delay"}, Args: delay, Weight: 2},
		{Class: "net.connect", Proc: "master", Actions: []string{"refuse", "timeout"}, Weight: 4},
		{Class: "net.connect", Proc: "agent*", Actions: []string{"refuse", "timeout"}, Weight: 1},
		{Class: "sched", Proc: "agent*", Actions: []string{"crash", "powerloss"}, Weight: 2},
		{Class: "sched", Proc: "agent*", Actions: []string{"stall"}, Args: stall, Weight: 1},
	}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("agent%d", i)
		out = append(out,
			FaultKind{Class: "time", Proc: n, Actions: []string{"crash", "powerloss", "resetconns"}, Weight: 1},
			FaultKind{Class: "time", Proc: n, Actions: []string{"stall"}, Args: stall, Weight: 1},
			FaultKind{Class: "time", Proc: n, Actions: []string{"partition"}, Args: part, Weight: 1})
	}
	return out
}()

// masterFaults disturb the master without ending it, and the way to its clients.
var masterFaults = []FaultKind{
	{Class: "time", Proc: "master", Actions: []string{"stall"}, Args: []int64{1e8, 2e9, 30e9, 600e9}, Weight: 1},
	{Class: "time", Proc: "master", Actions: []string{"partition"}, Args: []int64{1e9, 10e9, 120e9, 1000e9}, Weight: 1},
	{Class: "time", Proc: "master", Actions: []string{"resetconns"}, Weight: 1},
	{Class: "net.request", Proc: "client*", Actions: []string{"reset"}, Weight: 1},
	{Class: "net.request", Proc: "client*", Actions: []string{"delay"}, Args: []int64{1e8, 1e10}, Weight: 1},
	{Class: "net.reply", Proc: "master", Actions: []string{"delay"}, Args: []int64{1e8, 1e10}, Weight: 1},
	{Class: "net.reply", Proc: "master", Actions: []string{"reset"}, Weight: 1},
}

var masterDeath = []FaultKind{
	{Class: "net.reply", Proc: "master", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "net.request", Proc: "master", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "rpc.deliver", Proc: "master", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "time", Proc: "master", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "sched", Proc: "master", Actions: []string{"crash", "powerloss"}, Weight: 2},
}

func kinds(ks ...[]FaultKind) func(json.RawMessage) []FaultKind {
	var all []FaultKind
	for _, k := range ks {
		all = append(all, k...)
	}
	return func(json.RawMessage) []FaultKind { return all }
}

func shrinkSvx(raw json.RawMessage) []any {
	p := decode[svxParams2](raw)
	var out []any
	add := func(f func(q *svxParams2)) {
		q := decode[svxParams2](raw)
		f(&q)
		out = append(out, q)
	}
	for i := range p.Hostile {
		add(func(q *svxParams2) { q.Hostile = append(q.Hostile[:i], q.Hostile[i+1:]...) })
	}
	for i := range p.Jobs {
		if len(p.Jobs) > 1 {
			add(func(q *svxParams2) { q.Jobs = append(q.Jobs[:i], q.Jobs[i+1:]...) })
		}
	}
	if n := len(p.Agents); n > 1 {
		add(func(q *svxParams2) {
			q.Agents = q.Agents[:n-1]
			for i := range q.Hostile {
				if q.Hostile[i].To >= n-1 {
					q.Hostile[i].To = 0
				}
			}
		})
	}
	if p.Final {
		add(func(q *svxParams2) { q.Final = false })
	}
	for i, j := range p.Jobs {
		for c := range j.Cuts {
			add(func(q *svxParams2) { q.Jobs[i].Cuts = append(q.Jobs[i].Cuts[:c], q.Jobs[i].Cuts[c+1:]...) })
		}
		for _, b := range j.shrink() {
			add(func(q *svxParams2) { q.Jobs[i].baseSpec = b })
		}
		if j.Start > 0 {
			add(func(q *svxParams2) { q.Jobs[i].Start = 0 })
		}
		if !strings.HasPrefix(j.Prefix, "out") {
			add(func(q *svxParams2) { q.Jobs[i].Prefix = fmt.Sprintf("out%d", i) })
		}
	}
	for i, a := range p.Agents {
		if a.Start > 0 {
			add(func(q *svxParams2) { q.Agents[i].Start = 0 })
		}
		if a.Restart > 0 {
			add(func(q *svxParams2) { q.Agents[i].Restart = 0 })
		}
		if a.Fake > 0 {
			add(func(q *svxParams2) { q.Agents[i].Fake = 0 })
		}
	}
	return out
}

func init() {
	reg := func(name, prop, race string, gen func(r *rt.Rand, tier string) svxParams2, k func(json.RawMessage) []FaultKind) {
		register(&Scenario{
			Name: name, Run: svxClusterRun, Hang: prop, Race: race, Shrink: shrinkSvx, Kinds: k,
			Gen: func(r *rt.Rand, tier string) any { return gen(r, tier) },
			Cfg: func(r *rt.Rand, raw json.RawMessage, c *PlanCfg) {
				c.MaxTimeS, c.MaxSteps = 100_000, 30_000_000
				moreCPUs(r, raw, c)
				sizeScale(r, raw, c)
			},
		})
	}
	plain := func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(5), 0, 0.3, 0), Wild: r.Chance(0.1)}
		p.Jobs = []svxJob{genJob(r, 0, svxDim(r, tier))}
		if r.Chance(0.3) {
			p.Jobs[0].Start = someTime(r)
		}
		return p
	}
	reg("svx-plain", "C01", "", plain, kinds())
	faulty := func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(4), 0.7, 0.4, 0.12), Last: r.Intn(10)}
		for i, n := 0, 1+r.Intn(2); i < n; i++ {
			p.Jobs = append(p.Jobs, genJob(r, i, svxDim(r, tier)))
			if i > 0 {
				p.Jobs[i].Start = someTime(r)
			}
		}
		return p
	}
	reg("svx-faults", "C02", "", faulty, kinds(agentFaults, masterFaults, masterDeath))
	reg("svx-live", "C03", "", func(r *rt.Rand, tier string) svxParams2 {
		p := faulty(r, tier)
		p.Final = true
		return p
	}, kinds(agentFaults, masterFaults))
	multi := func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(4), 0.5, 0.3, 0)}
		n := 2 + r.Intn(2)
		d := svxDim(r, tier)
		for i := 0; i < n; i++ {
			p.Jobs = append(p.Jobs, genJob(r, i, d))
			if i > 0 && r.Chance(0.5) {
				p.Jobs[i].Start = int64(r.Intn(60))
			}
			if i > 0 && r.Chance(0.3) { // the same names in both archives
				c := p.Jobs[i].Cuts
				p.Jobs[i] = p.Jobs[0]
				if r.Chance(0.5) {
					if p.Jobs[i].Dec > 0 {
						offGridCuts(r, c)
					}
					p.Jobs[i].Cuts = c
				}
			} else if i > 0 && r.Chance(0.4) {
				p.Jobs[i].Prefix = p.Jobs[0].Prefix
			}
			if i > 0 && r.Chance(0.2) { // another model of the same size
				p.Jobs[i].baseSpec = p.Jobs[0].baseSpec.twin(r)
				c := append([]cutSpec(nil), p.Jobs[i].Cuts...)
				if p.Jobs[i].Dec > 0 {
					offGridCuts(r, c)
				}
				p.Jobs[i].Cuts = c
			}
		}
		return p
	}
	reg("svx-multi", "C04", "C04", multi, kinds(agentFaults))
	reg("svx-excl", "C05", "", func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(3), 0.9, 0.8, 0.05)}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			p.Jobs = append(p.Jobs, genJob(r, i, svxDim(r, tier)))
			if i > 0 {
				p.Jobs[i].Start = someTime(r)
			}
		}
		return p
	}, kinds(agentFaults, masterFaults))
	reg("svx-cancel", "C06", "", func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, r.Intn(4), 0.7, 0.4, 0), Final: true, Last: r.Intn(10)}
		for i := range p.Agents { // their faults must not disturb the master
			p.Agents[i].Bind %= 5
		}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			j := genJob(r, i, svxDim(r, tier))
			if i > 0 {
				j.Start = someTime(r)
			}
			if i == 0 || r.Chance(0.6) {
				j.Stop = []string{"cancel", "cancel", "deadline", "kill", "powerloss"}[r.Intn(5)]
				j.StopMS = someTime(r)
				j.Real = r.Chance(0.15) && j.Stop != "deadline"
				j.ASCII = j.Real && j.Dec > 0
			}
			p.Jobs = append(p.Jobs, j)
		}
		return p
	}, kinds(agentFaults))
	reg("svx-hostile", "C07", "", func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(3), 0, 0.8, 0), Final: true, Last: r.Intn(10), Wild: r.Chance(0.1)}
		for i, n := 0, 1+r.Intn(2); i < n; i++ {
			p.Jobs = append(p.Jobs, genJob(r, i, svxDim(r, tier)))
			p.Jobs[i].Start = someTime(r)
		}
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			h := svxHostile{At: 1 + someTime(r), To: r.Intn(len(p.Agents)+1) - 1, Seed: r.Uint64()}
			switch {
			case h.To >= 0:
				h.Kind = hostileAgent[r.Intn(len(hostileAgent))]
			case r.Chance(0.2):
				h.Kind = hostileReg[r.Intn(len(hostileReg))]
			default:
				h.Kind = hostileKinds[r.Intn(len(hostileKinds))]
			}
			p.Hostile = append(p.Hostile, h)
		}
		return p
	}, kinds())
	reg("svx-convert", "C24", "", func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(3), 0.5, 0.3, 0), Convert: true}
		j := genJob(r, 0, svxDim(r, tier))
		j.Prefix = []string{"out", "out", "a b", " a  b ", "100%", "%v", "%d", "%%4d", "%3d%%", "a%20b%20c", "ünï", "-x", "q\"'", "<&>", "a.svx", "0", "12-3", "tab\tx"}[r.Intn(18)]
		j.Real, j.ASCII = true, r.Chance(0.2) || j.Dec > 0
		p.Jobs = append(p.Jobs, j)
		return p
	}, kinds(agentFaults, toolFaults("svx2stl", false), toolFaults("svx2stl", false)))
	reg("svx-client", "C19", "", func(r *rt.Rand, tier string) svxParams2 {
		p := svxParams2{Agents: genAgents(r, 1+r.Intn(3), 0.7, 0.3, 0.05)}
		for i, n := 0, 1+r.Intn(5)/4; i < n; i++ {
			j := genJob(r, i, svxDim(r, tier))
			j.Prefix = []string{"out", "a b", "100%", "%v", "%s%s", "ünï", "-x"}[r.Intn(7)] + fmt.Sprint(i)
			j.Real, j.ASCII, j.Old, j.Dirs = true, r.Chance(0.2), r.Chance(0.3), r.Chance(0.2)
			j.ASCII = j.ASCII || j.Dec > 0 // the coordinates are kept
			if r.Chance(0.25) {
				j.Bad = []string{"missing", "cut", "noport", "nohost", "noaddr", "dir"}[r.Intn(6)]
				j.At = r.Float()
				if j.Bad == "cut" {
					j.ASCII, j.Dec = false, 0
				}
			} else if r.Chance(0.1) {
				j.Full = int64(r.Intn(4000))
			}
			p.Jobs = append(p.Jobs, j)
		}
		return p
	}, kinds(agentFaults, masterFaults, masterDeath, toolFaults("client0", false)))
}
