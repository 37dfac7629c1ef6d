//go:build go1.25
// +build go1.25

package internal

// Runs clusters of several nodes in one process, on a network that is cut, slowed down and held up as a trace of
// spec/ElectionGen.tla says, and records who voted for whom, who leads, and the rings. The history is judged by
// spec/ElectionHistory.tla.

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	stdlog "log"
	"math/rand"
	"net/rpc"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	zzrpc "github.com/unit-io/unitdb/server/internal/zzrpc"
)

type vcStep struct {
	Op    string   `json:"op"`
	Nodes int      `json:"nodes"`
	Vote  int      `json:"vote"`
	Fail  int      `json:"fail"`
	Delay int      `json:"delay"`
	Calm  int      `json:"calm"`
	V     int      `json:"v"`
	N     string   `json:"n"`
	A     []string `json:"a"`
	B     []string `json:"b"`
	Ms    int      `json:"ms"`
}

type vcAsk struct {
	C string `json:"c"`
	I int    `json:"i"`
	T int    `json:"t"`
	V string `json:"v"`
	A int64  `json:"a"`
}
type vcVote struct {
	V  string `json:"v"`
	I  int    `json:"i"`
	C  string `json:"c"`
	T  int    `json:"t"`
	OK bool   `json:"ok"`
	RT int    `json:"rt"`
	A  int64  `json:"a"`
	Z  int64  `json:"z"`
}
type vcPing struct {
	L   string   `json:"l"`
	I   int      `json:"i"`
	T   int      `json:"t"`
	V   string   `json:"v"`
	Sig []string `json:"sig"`
	Act []string `json:"act"`
	A   int64    `json:"a"`
}
type vcView struct {
	V  string `json:"v"`
	I  int    `json:"i"`
	T  int    `json:"t"`
	L  string `json:"l"`
	At int64  `json:"at"`
}
type vcEnd struct {
	V    string   `json:"v"`
	T    int      `json:"t"`
	L    string   `json:"l"`
	Ring []string `json:"ring"`
	Own  []string `json:"own"`
}
type vcFinal struct {
	Live  []string `json:"live"`
	Quiet int64    `json:"quiet"`
	Views []vcEnd  `json:"views"`
}
type vcRing struct {
	Nodes []string `json:"nodes"`
	Own   []string `json:"own"`
	Sig   string   `json:"sig"`
}
type vcHistory struct {
	Nodes []string `json:"nodes"`
	Asks  []vcAsk  `json:"asks"`
	Votes []vcVote `json:"votes"`
	Pings []vcPing `json:"pings"`
	Views []vcView `json:"views"`
	Final vcFinal  `json:"final"`
	Rings []vcRing `json:"rings"`
}

// with the race detector nodes are looked at only when they have ended
var vcRace = os.Getenv("GORACE") != ""

// ---------------------------------------------------------------------------
// the network

type vcChunk struct {
	b     []byte
	ready time.Time
}

// vcPipe is one direction of a connection
type vcPipe struct {
	net      *vcNet
	from, to string
	q        []vcChunk
	last     time.Time
	closed   bool
	wake     chan struct{}
}

type vcConn struct{ in, out *vcPipe }

type vcLink struct {
	cut, hold bool
	ms        int
}

type vcNet struct {
	mu    sync.Mutex
	rng   *rand.Rand
	delay int
	links map[[2]string]vcLink
	pipes map[*vcPipe]bool
	nodes map[string]*vcNode
}

func (p *vcPipe) notify() {
	close(p.wake)
	p.wake = make(chan struct{})
}

func (n *vcNet) when(p *vcPipe) time.Time {
	l := n.links[[2]string{p.from, p.to}]
	if l.hold {
		return time.Time{}
	}
	d := time.Duration(n.rng.Int63n(int64(n.delay)*1000+1)+37) * time.Microsecond
	t := time.Now().Add(d + time.Duration(l.ms)*time.Millisecond)
	if t.Before(p.last) {
		t = p.last
	}
	p.last = t
	return t
}

func (c vcConn) Write(b []byte) (int, error) {
	p := c.out
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	t := p.net.when(p)
	if len(p.q) > 0 && p.q[len(p.q)-1].ready.IsZero() {
		t = time.Time{}
	}
	p.q = append(p.q, vcChunk{append([]byte(nil), b...), t})
	p.notify()
	return len(b), nil
}

func (c vcConn) Read(b []byte) (int, error) {
	p := c.in
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	for {
		if len(p.q) > 0 && !p.q[0].ready.IsZero() && !p.q[0].ready.After(time.Now()) {
			k := copy(b, p.q[0].b)
			if p.q[0].b = p.q[0].b[k:]; len(p.q[0].b) == 0 {
				p.q = p.q[1:]
			}
			return k, nil
		}
		if p.closed {
			return 0, io.EOF
		}
		w := p.wake
		var after <-chan time.Time
		if len(p.q) > 0 && !p.q[0].ready.IsZero() {
			t := time.NewTimer(time.Until(p.q[0].ready))
			after = t.C
		}
		p.net.mu.Unlock()
		select {
		case <-w:
		case <-after:
		}
		p.net.mu.Lock()
	}
}

func (c vcConn) Close() error {
	c.in.net.mu.Lock()
	defer c.in.net.mu.Unlock()
	c.in.net.shut(c.in)
	c.in.net.shut(c.out)
	return nil
}

func (n *vcNet) shut(p *vcPipe) {
	if !p.closed {
		p.closed = true
		delete(n.pipes, p)
		p.notify()
	}
}

// set changes the links between the nodes of a and those of b, in both directions
func (n *vcNet) set(a, b []string, both bool, f func(l *vcLink)) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, x := range a {
		for _, y := range b {
			for k, p := range [][2]string{{x, y}, {y, x}} {
				if x == y || k == 1 && !both {
					continue
				}
				l := n.links[p]
				f(&l)
				n.links[p] = l
			}
		}
	}
	for p := range n.pipes {
		l := n.links[[2]string{p.from, p.to}]
		if l.cut {
			n.shut(p)
			continue
		}
		if !l.hold {
			for k := range p.q {
				if p.q[k].ready.IsZero() {
					p.q[k].ready = n.when(p)
				}
			}
			p.notify()
		}
	}
}

// dial makes a connection: address is source#incarnation>destination
func (n *vcNet) dial(address string) (io.ReadWriteCloser, error) {
	k := strings.Index(address, ">")
	src, dst := address[:k], address[k+1:]
	k = strings.Index(src, "#")
	from := src[:k]
	n.mu.Lock()
	defer n.mu.Unlock()
	a, b := n.nodes[from], n.nodes[dst]
	if a == nil || b == nil || fmt.Sprint(a.inc) != src[k+1:] || !a.up || !b.up || n.links[[2]string{from, dst}].cut {
		return nil, errors.New("connection refused")
	}
	x := &vcPipe{net: n, from: from, to: dst, wake: make(chan struct{})}
	y := &vcPipe{net: n, from: dst, to: from, wake: make(chan struct{})}
	n.pipes[x], n.pipes[y] = true, true
	go b.srv.ServeConn(vcConn{in: x, out: y})
	return vcConn{in: y, out: x}, nil
}

// ---------------------------------------------------------------------------
// the nodes

type vcNode struct {
	r    *vcRun
	name string
	inc  int
	up   bool
	c    *Cluster
	srv  *rpc.Server
}

type vcRun struct {
	mu   sync.Mutex
	rng  *rand.Rand
	cfg  vcStep
	net  *vcNet
	h    vcHistory
	t0   time.Time
	sigs map[string][]string
	incs map[string]int
	last map[string]vcView
	hung map[string]bool
}

func (r *vcRun) now() int64 { return int64(time.Since(r.t0) / time.Microsecond) }

// VcService is what the other nodes call; it records and passes on.
type VcService struct{ n *vcNode }

func (s *VcService) Vote(req *ClusterVoteRequest, resp *ClusterVoteResponse) error {
	r := s.n.r
	r.mu.Lock()
	a := r.now()
	r.h.Asks = append(r.h.Asks, vcAsk{C: req.Node, I: r.incs[req.Node], T: req.Term, V: s.n.name, A: a})
	r.mu.Unlock()
	err := s.n.c.Vote(req, resp)
	if err == nil {
		r.mu.Lock()
		r.h.Votes = append(r.h.Votes, vcVote{V: s.n.name, I: s.n.inc, C: req.Node, T: req.Term, OK: resp.Result, RT: resp.Term, A: a, Z: r.now()})
		r.mu.Unlock()
	}
	return err
}

// Master takes what other nodes forward.
func (s *VcService) Master(req *ClusterReq, rejected *bool) error { return nil }

// forward lets the nodes call each other as they do for clients
func (r *vcRun) forward() {
	for _, x := range r.h.Nodes {
		n := r.net.nodes[x]
		if n == nil || !n.up {
			continue
		}
		for _, y := range r.h.Nodes {
			if o := n.c.nodes[y]; o != nil {
				go func() {
					var rejected bool
					o.call("Cluster.Master", &ClusterReq{Node: n.name, ConnGone: true, Conn: &ClusterSess{}}, &rejected)
				}()
			}
		}
	}
}

func (r *vcRun) nodesOf(sig string) []string {
	if s, ok := r.sigs[sig]; ok {
		return s
	}
	return []string{"?"}
}

func (s *VcService) Ping(ping *ClusterPing, unused *bool) error {
	r := s.n.r
	r.mu.Lock()
	act := append([]string{}, ping.Nodes...)
	sort.Strings(act)
	p := vcPing{L: ping.Leader, I: r.incs[ping.Leader], T: ping.Term, V: s.n.name, Sig: r.nodesOf(ping.Signature), Act: act, A: r.now()}
	// the same again says nothing new
	same := false
	for k := len(r.h.Pings) - 1; k >= 0 && !same; k-- {
		q := r.h.Pings[k]
		q.A, q.V = p.A, p.V
		same = fmt.Sprint(q) == fmt.Sprint(p)
	}
	if !same {
		r.h.Pings = append(r.h.Pings, p)
	}
	r.mu.Unlock()
	return s.n.c.Ping(ping, unused)
}

func (r *vcRun) start(name string) {
	inc := r.incs[name] + 1
	var nodes []clusterNodeConfig
	for _, x := range r.h.Nodes {
		nodes = append(nodes, clusterNodeConfig{Name: x, Addr: fmt.Sprintf("%s#%d>%s", name, inc, x)})
	}
	js, err := json.Marshal(map[string]interface{}{"nodes": nodes, "self": name,
		"failover": map[string]interface{}{"enabled": true, "heartbeat": 100, "vote_after": r.cfg.Vote, "node_fail_after": r.cfg.Fail}})
	if err != nil {
		panic(err)
	}
	// heartbeats are random by the clock
	time.Sleep(time.Duration(1+r.rng.Intn(1000000)) * time.Nanosecond)
	Globals.Cluster = nil
	self := ""
	ClusterInit(js, &self)
	n := &vcNode{r: r, name: name, inc: inc, up: true, c: Globals.Cluster, srv: rpc.NewServer()}
	if err := n.srv.RegisterName("Cluster", &VcService{n}); err != nil {
		panic(err)
	}
	r.mu.Lock()
	r.incs[name] = inc
	r.mu.Unlock()
	r.net.mu.Lock()
	r.net.nodes[name] = n
	r.net.mu.Unlock()
	n.c.Start()
	synctest.Wait()
	Globals.Cluster = nil
}

func (r *vcRun) kill(name string) {
	n := r.net.nodes[name]
	r.net.mu.Lock()
	n.up = false
	for p := range r.net.pipes {
		if p.from == name || p.to == name {
			r.net.shut(p)
		}
	}
	r.net.mu.Unlock()
	Globals.Cluster = n.c
	n.c.shutdown()
	Globals.Cluster = nil
}

func (r *vcRun) names() []string { return r.h.Nodes }

func (r *vcRun) ringOf(nodes []string) vcRing {
	c := &Cluster{nodes: map[string]*ClusterNode{}, thisNodeName: nodes[0]}
	c.rehash(append([]string{}, nodes...))
	x := vcRing{Nodes: append([]string{}, nodes...), Sig: c.ring.Signature()}
	for k := 0; k < 24; k++ {
		x.Own = append(x.Own, c.ring.Get(fmt.Sprint(uint32(k)*2654435761)))
	}
	return x
}

// look records what the nodes think of themselves
func (r *vcRun) look() {
	if vcRace {
		return
	}
	synctest.Wait()
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.names() {
		n := r.net.nodes[x]
		if n == nil || !n.up {
			continue
		}
		v := vcView{V: x, I: n.inc, T: n.c.fo.term, L: n.c.fo.leader}
		if r.last[x] != v {
			r.last[x] = v
			v.At = r.now()
			r.h.Views = append(r.h.Views, v)
		}
	}
}

func (r *vcRun) pass(ms int) {
	for k := 0; k < ms; k += 7 {
		time.Sleep(7 * time.Millisecond)
		r.look()
	}
}

func (r *vcRun) run(tr []vcStep) {
	r.cfg = tr[0]
	for k := 1; k <= r.cfg.Nodes; k++ {
		r.h.Nodes = append(r.h.Nodes, fmt.Sprintf("n%d", k))
	}
	for k := 1; k < 1<<uint(r.cfg.Nodes); k++ {
		var s []string
		for j := range r.h.Nodes {
			if k>>uint(j)&1 == 1 {
				s = append(s, r.h.Nodes[j])
			}
		}
		x := r.ringOf(s)
		r.sigs[x.Sig] = s
		if r.cfg.V%5 == 0 {
			r.h.Rings = append(r.h.Rings, x)
			t := append([]string{}, s...)
			r.rng.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
			r.h.Rings = append(r.h.Rings, r.ringOf(t))
		}
	}
	for _, x := range r.h.Nodes {
		r.start(x)
	}
	for _, st := range tr[1:] {
		switch st.Op {
		case "kill":
			r.kill(st.N)
		case "start":
			r.start(st.N)
		case "cut":
			r.net.set(st.A, st.B, true, func(l *vcLink) { l.cut = true })
		case "hold":
			r.net.set(st.A, st.B, true, func(l *vcLink) { l.hold = true })
		case "oneway":
			r.net.set(st.A, st.B, false, func(l *vcLink) { l.hold = true })
		case "slow":
			r.net.set(st.A, st.B, true, func(l *vcLink) { l.ms = st.V })
		case "heal":
			r.net.set(st.A, st.B, true, func(l *vcLink) { *l = vcLink{} })
		case "calm":
			// what is in A never comes back: it takes part in nothing, but connections to it can be made
			r.net.set(r.names(), r.names(), true, func(l *vcLink) { *l = vcLink{} })
			r.net.set(st.A, r.names(), true, func(l *vcLink) { l.hold = true })
			for _, x := range st.A {
				r.hung[x] = true
			}
			r.pass(st.Ms)
			r.h.Final.Quiet = r.now()
		default:
			fmt.Println("HARNESS unknown op", st.Op)
			os.Exit(3)
		}
		if st.Op != "calm" {
			r.forward()
		}
		r.pass(st.Ms)
	}
	r.look()
	r.h.Final.Live = []string{}
	live := map[string]bool{}
	for _, x := range r.h.Nodes {
		live[x] = r.net.nodes[x].up && !r.hung[x]
	}
	if vcRace {
		for _, x := range r.h.Nodes {
			if r.net.nodes[x].up {
				r.kill(x)
			}
		}
		time.Sleep(10 * time.Second)
		synctest.Wait()
	}
	for _, x := range r.h.Nodes {
		n := r.net.nodes[x]
		if !live[x] {
			continue
		}
		r.h.Final.Live = append(r.h.Final.Live, x)
		e := vcEnd{V: x, T: n.c.fo.term, L: n.c.fo.leader, Ring: r.nodesOf(n.c.ring.Signature())}
		for k := 0; k < 24; k++ {
			e.Own = append(e.Own, n.c.ring.Get(fmt.Sprint(uint32(k)*2654435761)))
		}
		r.h.Final.Views = append(r.h.Final.Views, e)
	}
	for _, x := range r.h.Nodes {
		if r.net.nodes[x].up && !vcRace {
			r.kill(x)
		}
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
}

func TestCluster(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	zerolog.SetGlobalLevel(zerolog.FatalLevel)
	if os.Getenv("VERIF_TRACE") == "" {
		stdlog.SetOutput(io.Discard)
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	w := json.NewEncoder(f)
	only := os.Getenv("VERIF_ONLY")
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(30 * 365 * 24 * time.Hour)
		for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			if only != "" && only != fmt.Sprint(idx) {
				continue
			}
			var tr []vcStep
			if err := json.Unmarshal([]byte(line), &tr); err != nil {
				fmt.Println("HARNESS", err)
				os.Exit(3)
			}
			fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
			h := fnv.New64()
			h.Write([]byte(line))
			rng := rand.New(rand.NewSource(int64(h.Sum64())))
			r := &vcRun{t0: time.Now(), rng: rand.New(rand.NewSource(rng.Int63())), sigs: map[string][]string{}, incs: map[string]int{}, last: map[string]vcView{}, hung: map[string]bool{},
				net: &vcNet{rng: rng, delay: tr[0].Delay, links: map[[2]string]vcLink{}, pipes: map[*vcPipe]bool{}, nodes: map[string]*vcNode{}}}
			zzrpc.Network = r.net.dial
			r.run(tr)
			ops := map[string]int{}
			for _, s := range tr {
				ops[s.Op]++
			}
			w.Encode(map[string]interface{}{"index": idx, "ok": true, "steps": len(tr), "ops": ops, "history": r.h})
		}
		f.Close()
		os.Exit(0)
	})
}
