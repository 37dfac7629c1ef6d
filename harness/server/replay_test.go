package internal

// Replays behaviours of spec/Server.tla into the real server: clients talk to it over pipes with a codec of their own, in virtual time.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/rs/zerolog"
	"github.com/unit-io/unitdb/server/internal/config"
	"github.com/unit-io/unitdb/server/internal/message/security"
	pbx "github.com/unit-io/unitdb/server/proto"
)

type vItem struct {
	N     int      `json:"n"`
	T     []string `json:"t"`
	P     []string `json:"p"`
	S     int      `json:"g"`
	How   string   `json:"how"`
	Mode  int      `json:"mode"`
	Delay int      `json:"delay"`
}

type vKey struct {
	Kind  string   `json:"kind"`
	Perm  []string `json:"perm"`
	Topic []string `json:"topic"`
	K     string   `json:"k"`
}

type vReq struct {
	P     []string `json:"p"`
	T     []string `json:"t"`
	Mode  int      `json:"mode"`
	Delay int      `json:"delay"`
	Last  int      `json:"last"`
	Ttl   int      `json:"ttl"`
	Key   vKey     `json:"key"`
	Size  string   `json:"size"`
	Opt   bool     `json:"opt"`
}

type vClientItems struct {
	C     int     `json:"c"`
	Items []vItem `json:"items"`
}

type vStep struct {
	Op     string         `json:"op"`
	At     int            `json:"at"`
	C      int            `json:"c"`
	D      int            `json:"d"`
	Secure bool           `json:"secure"`
	Clean  bool           `json:"clean"`
	Cfg    vBatch         `json:"cfg"`
	Items  []vItem        `json:"items"`
	How    string         `json:"how"`
	Reqs   []vReq         `json:"reqs"`
	Errs   int            `json:"errs"`
	Pm     int            `json:"pm"`
	Msgs   []vReq         `json:"msgs"`
	N      int            `json:"n"`
	S      int            `json:"s"`
	Acc    int            `json:"acc"`
	New    []vClientItems `json:"new"`
	Var    int            `json:"var"`
	OK     bool           `json:"ok"`
	Pubs   []vStep        `json:"pubs"`
	On     []vClientItems `json:"on"`
	// first record
	V         int      `json:"v"`
	Profile   string   `json:"profile"`
	Primary   []int    `json:"primary"`
	Contracts []string `json:"contracts"`
}

type vBatch struct {
	Dur   int `json:"dur"`
	Count int `json:"count"`
	Bytes int `json:"bytes"`
}

type vResult struct {
	Index  int            `json:"index"`
	OK     bool           `json:"ok"`
	Step   int            `json:"step"`
	Msg    string         `json:"msg,omitempty"`
	Steps  int            `json:"steps"`
	Checks int            `json:"checks"`
	Ops    map[string]int `json:"ops"`
}

type vMismatch struct{ msg string }
type vSkip struct{}

var vTrace = os.Getenv("VERIF_TRACE") != ""

func vFail(format string, args ...interface{}) { panic(vMismatch{fmt.Sprintf(format, args...)}) }

// ---------------------------------------------------------------------------
// packets

type vPacket struct {
	typ  pbx.MessageType
	flow pbx.FlowControl
	body []byte
	at   time.Time
}

func vFrame(typ pbx.MessageType, flow pbx.FlowControl, body []byte) []byte {
	h, err := proto.Marshal(&pbx.FixedHeader{MessageType: typ, FlowControl: flow, MessageLength: int32(len(body))})
	if err != nil {
		panic(err)
	}
	var b []byte
	b = binary.AppendUvarint(b, uint64(len(h)))
	b = append(b, h...)
	return append(b, body...)
}

func vRead(r io.Reader) (*vPacket, error) {
	n, shift := uint64(0), uint(0)
	one := make([]byte, 1)
	for {
		if _, err := io.ReadFull(r, one); err != nil {
			return nil, err
		}
		n |= uint64(one[0]&127) << shift
		shift += 7
		if one[0]&128 == 0 {
			break
		}
	}
	raw := make([]byte, n)
	if _, err := io.ReadFull(r, raw); err != nil {
		return nil, err
	}
	var h pbx.FixedHeader
	if err := proto.Unmarshal(raw, &h); err != nil {
		return nil, err
	}
	p := &vPacket{typ: h.MessageType, flow: h.FlowControl, body: make([]byte, h.MessageLength)}
	if _, err := io.ReadFull(r, p.body); err != nil {
		return nil, err
	}
	return p, nil
}

// group is a PUBLISH that a client owes an answer for
type vGroup struct {
	id    int
	how   string // "" if not known
	s     int
	known bool // its messages are known
	mode  int
	msgs  []vMsg
	at    time.Time
}

type vMsg struct {
	n int
	t string
}

func (g *vGroup) content() string { return fmt.Sprintf("%d/%s", g.mode, vContent(g.msgs)) }

func vContent(ms []vMsg) string {
	var s []string
	for _, m := range ms {
		s = append(s, fmt.Sprintf("%d@%s", m.n, m.t))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

type vLine struct {
	name string
	conn net.Conn
	mu   sync.Mutex
	buf  []*vPacket
	eof  bool
	bad  error
	on   bool
	cfg  vBatch

	// of a step
	connack   *pbx.ConnectAcknowledge
	acks      map[string]int
	notified  []int
	completes []int
	fetched   map[int]*vGroup
	fetching  map[int]bool
	delivered []*vGroup
	sys       []vSys
	pings     int
}

type vSys struct {
	topic   string
	payload []byte
}

type vClient struct {
	c    int
	id   string
	line *vLine
	out  map[int]*vGroup // outstanding
}

type vRunner struct {
	t       []vStep
	root    string
	dir     string
	ndir    int
	s       *_Service
	rng     *rand.Rand
	res     *vResult
	cl      map[int]*vClient
	helper  map[string]string // contract -> id of a client that only asks for keys
	keys    map[string]string
	lines   []*vLine
	base    time.Time
	ping    time.Time
	req     int
	names   map[string]string
	con     []string
	sizes   map[int]string
	dup     int // the first of the messages whose payloads are the same
	silent  int
	busy    int // a client whose request waits for its batches
	touched map[int]bool
}

func (r *vRunner) dial(name string) *vLine {
	a, b := net.Pipe()
	l := &vLine{name: name, conn: a, on: true, acks: map[string]int{}, fetched: map[int]*vGroup{}, fetching: map[int]bool{}}
	go r.s.onAcceptConn(b)
	go func() {
		for {
			p, err := vRead(a)
			l.mu.Lock()
			if err != nil {
				l.eof = true
				if err != io.EOF && err != io.ErrClosedPipe && err != io.ErrUnexpectedEOF {
					l.bad = err
				}
				l.mu.Unlock()
				return
			}
			p.at = time.Now()
			l.buf = append(l.buf, p)
			l.mu.Unlock()
		}
	}()
	r.lines = append(r.lines, l)
	return l
}

func (r *vRunner) raw(l *vLine, b []byte) error {
	l.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
	if r.rng.Intn(4) == 0 {
		// in pieces
		for len(b) > 0 {
			k := 1 + r.rng.Intn(7)
			if k > len(b) || len(b) > 2000 {
				k = len(b)
			}
			if _, err := l.conn.Write(b[:k]); err != nil {
				return err
			}
			b = b[k:]
		}
		return nil
	}
	_, err := l.conn.Write(b)
	return err
}

func (r *vRunner) send(l *vLine, typ pbx.MessageType, flow pbx.FlowControl, m proto.Message) {
	var body []byte
	if m != nil {
		body, _ = proto.Marshal(m)
	}
	if err := r.raw(l, vFrame(typ, flow, body)); err != nil {
		vFail("%s: the server does not take %s/%s: %v", l.name, typ, flow, err)
	}
}

func (r *vRunner) ctrl(l *vLine, flow pbx.FlowControl, id int) {
	r.send(l, pbx.MessageType_PUBLISH, flow, &pbx.ControlMessage{MessageID: int32(id)})
}

// settle lets the server do all that it can do without time passing.
func (r *vRunner) settle() {
	for {
		synctest.Wait()
		more := false
		for _, l := range r.lines {
			l.mu.Lock()
			buf := l.buf
			l.buf = nil
			l.mu.Unlock()
			for _, p := range buf {
				more = true
				if vTrace {
					fmt.Printf("  %v %s: %s/%s %.200x\n", p.at.Sub(r.base), l.name, p.typ, p.flow, p.body)
				}
				r.packet(l, p)
			}
		}
		if !more {
			return
		}
	}
}

func (r *vRunner) packet(l *vLine, p *vPacket) {
	if l.connack == nil && l.name != "stranger" && !(p.typ == pbx.MessageType_CONNECT && p.flow == pbx.FlowControl_ACKNOWLEDGE) {
		vFail("%s: gets %s/%s before the acknowledgement of CONNECT", l.name, p.typ, p.flow)
	}
	switch {
	case p.flow == pbx.FlowControl_ACKNOWLEDGE || p.flow == pbx.FlowControl_NOTIFY || p.flow == pbx.FlowControl_COMPLETE:
		var c pbx.ControlMessage
		if err := proto.Unmarshal(p.body, &c); err != nil {
			vFail("%s: a control message cannot be read: %v", l.name, err)
		}
		switch {
		case p.flow == pbx.FlowControl_ACKNOWLEDGE && p.typ == pbx.MessageType_CONNECT:
			var a pbx.ConnectAcknowledge
			if err := proto.Unmarshal(c.Message, &a); err != nil {
				vFail("%s: CONNECT is answered with %x", l.name, c.Message)
			}
			if l.connack != nil {
				vFail("%s: CONNECT is acknowledged twice", l.name)
			}
			l.connack = &a
		case p.flow == pbx.FlowControl_ACKNOWLEDGE && p.typ == pbx.MessageType_PINGREQ:
			l.pings++
		case p.flow == pbx.FlowControl_ACKNOWLEDGE:
			l.acks[fmt.Sprintf("%s/%d", p.typ, c.MessageID)]++
		case p.typ != pbx.MessageType_PUBLISH:
			vFail("%s: got %s/%s", l.name, p.typ, p.flow)
		case p.flow == pbx.FlowControl_NOTIFY:
			l.notified = append(l.notified, int(c.MessageID))
		default:
			l.completes = append(l.completes, int(c.MessageID))
		}
	case p.typ == pbx.MessageType_PUBLISH && p.flow == pbx.FlowControl_NONE:
		var m pbx.Publish
		if err := proto.Unmarshal(p.body, &m); err != nil {
			vFail("%s: PUBLISH cannot be read: %v", l.name, err)
		}
		if len(m.Messages) == 0 {
			vFail("%s: PUBLISH without messages", l.name)
		}
		if strings.HasPrefix(m.Messages[0].Topic, "unitdb/") {
			l.sys = append(l.sys, vSys{m.Messages[0].Topic, m.Messages[0].Payload})
			if l.on && l.connack != nil && l.connack.ReturnCode == 0 {
				r.ctrl(l, pbx.FlowControl_ACKNOWLEDGE, int(m.MessageID))
			}
			return
		}
		g := &vGroup{id: int(m.MessageID), known: true, mode: int(m.DeliveryMode), at: p.at}
		if g.id == 0 {
			vFail("%s: PUBLISH without message ID", l.name)
		}
		for _, x := range m.Messages {
			g.msgs = append(g.msgs, vMsg{r.payload(l, x.Payload), x.Topic})
		}
		if l.fetching[g.id] {
			delete(l.fetching, g.id)
			l.fetched[g.id] = g
			return
		}
		l.delivered = append(l.delivered, g)
	default:
		vFail("%s: got %s/%s", l.name, p.typ, p.flow)
	}
}

// duplicates finds the messages of the same payload; they are told apart by their number only
func (r *vRunner) duplicates() {
	all := map[int]bool{}
	note := func(st *vStep) {
		for i, m := range st.Msgs {
			if m.Size == "d" {
				all[st.N+i] = true
				if r.dup == 0 {
					r.dup = st.N + i
				}
			}
		}
	}
	same := func(items []vItem) {
		for i := range items {
			if all[items[i].N] {
				items[i].N = r.dup
			}
		}
	}
	for k := range r.t {
		st := &r.t[k]
		note(st)
		for i := range st.Pubs {
			note(&st.Pubs[i])
		}
		same(st.Items)
		for _, n := range st.New {
			same(n.Items)
		}
		for _, n := range st.On {
			same(n.Items)
		}
	}
}

func (r *vRunner) body(n int, size string) []byte {
	if size == "d" {
		n = r.dup
	}
	s := fmt.Sprintf("m%d;", n)
	k := map[string]int{"e": 0, "s": 20, "m": 300, "l": 70000}[size]
	b := append([]byte(s), bytes.Repeat([]byte{byte('A' + n%26)}, k)...)
	return b
}

func (r *vRunner) payload(l *vLine, b []byte) int {
	var n int
	if _, err := fmt.Sscanf(string(b), "m%d;", &n); err != nil || !bytes.Equal(b, r.body(n, r.sizes[n])) || r.sizes[n] == "" {
		vFail("%s: a message arrives that nobody has published: %.60q (%d bytes)", l.name, b, len(b))
	}
	return n
}

// forward lets the time of the behaviour come; clients send pings meanwhile.
func (r *vRunner) forward(to time.Time) {
	for {
		next := r.ping.Add(50 * time.Second)
		if next.After(to) {
			next = to
		}
		if d := time.Until(next); d > 0 {
			time.Sleep(d)
		}
		r.settle()
		if time.Since(r.ping) >= 50*time.Second {
			r.pings()
		}
		if !time.Now().Before(to) {
			return
		}
	}
}

func (r *vRunner) pings() {
	r.ping = time.Now()
	for _, c := range r.cl {
		if c.line != nil && c.c != r.silent && c.c != r.busy {
			c.line.pings = 0
			r.send(c.line, pbx.MessageType_PINGREQ, pbx.FlowControl_NONE, []proto.Message{nil, &pbx.PingRequest{}, &pbx.ControlMessage{MessageID: 7}}[r.rng.Intn(3)])
		}
	}
	r.settle()
	for _, c := range r.cl {
		if c.line != nil && c.c != r.silent && c.c != r.busy {
			if c.line.pings != 1 {
				vFail("client %d: %d answers to a ping", c.c, c.line.pings)
			}
			c.line.pings = 0
		}
	}
}

// ---------------------------------------------------------------------------

func (r *vRunner) level(s string) string {
	if n, ok := r.names[s]; ok {
		return n
	}
	return s
}

func (r *vRunner) topic(levels []string) string {
	var s []string
	for _, l := range levels {
		s = append(s, r.level(l))
	}
	if n := len(s); n > 0 && s[n-1] == "..." {
		return strings.Join(s[:n-1], ".") + "..."
	}
	return strings.Join(s, ".")
}

func (r *vRunner) open() {
	var err error
	r.s, err = NewService(&config.Config{DBPath: r.dir, EncryptionConfig: []byte(`{"key":"4BWm1vZletvrCDGWsF6mex8oBSd59m6I"}`),
		StoreConfig: []byte(`{"adapters":{"unitdb":{"mem_size":5000000}}}`)})
	if err != nil {
		vFail("the server does not start: %v", err)
	}
}

// hang up without regard of what comes
func (r *vRunner) hangup(l *vLine) {
	l.on = false
	l.conn.Close()
	r.settle()
	for i, x := range r.lines {
		if x == l {
			r.lines = append(r.lines[:i:i], r.lines[i+1:]...)
			break
		}
	}
}

// connected opens a connection and expects that it is accepted
func (r *vRunner) connected(name, id string, m *pbx.Connect) *vLine {
	l := r.dial(name)
	m.ClientID = id
	m.Version = 1
	r.send(l, pbx.MessageType_CONNECT, pbx.FlowControl_NONE, m)
	r.settle()
	if l.connack == nil {
		vFail("%s: CONNECT is not acknowledged", name)
	}
	if l.connack.ReturnCode != 0 {
		vFail("%s: the connection is refused (%d)", name, l.connack.ReturnCode)
	}
	return l
}

// rejected connects with an ID that is not valid and returns the ID that the server offers
func (r *vRunner) rejected(name, id string) string {
	l := r.dial(name)
	r.send(l, pbx.MessageType_CONNECT, pbx.FlowControl_NONE, &pbx.Connect{Version: 1, ClientID: id, InsecureFlag: true})
	r.settle()
	time.Sleep(50 * time.Millisecond)
	r.settle()
	r.res.Checks++
	if l.connack == nil {
		vFail("%s: CONNECT with the ID %q is not acknowledged", name, id)
	}
	if l.connack.ReturnCode == 0 {
		vFail("%s: the forged or malformed client ID %q is accepted", name, id)
	}
	if len(l.sys) != 1 || !strings.HasPrefix(l.sys[0].topic, "unitdb/clientid") {
		vFail("%s: no client ID is offered to a client without a valid one (got %d messages)", name, len(l.sys))
	}
	n := string(l.sys[0].payload)
	r.hangup(l)
	return n
}

// special sends a request of the API and returns the answer
func (r *vRunner) special(l *vLine, what string, payload []byte) []byte {
	l.sys = nil
	r.req++
	r.send(l, pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, &pbx.Publish{MessageID: int32(r.req), Messages: []*pbx.PublishMessage{{Topic: "unitdb/" + what, Payload: payload}}})
	r.settle()
	if len(l.sys) != 1 {
		vFail("%s: %d answers to the request %s", l.name, len(l.sys), what)
	}
	p := l.sys[0].payload
	l.sys = nil
	return p
}

func (r *vRunner) secondary(l *vLine) string {
	var a struct {
		Status int    `json:"status"`
		Key    string `json:"key"`
	}
	p := r.special(l, "clientid", nil)
	if err := json.Unmarshal(p, &a); err != nil || a.Status != 200 || a.Key == "" {
		vFail("%s: a primary client gets no client ID: %s", l.name, p)
	}
	return a.Key
}

func (r *vRunner) keygen(l *vLine, perm []string, topic string) string {
	var a []struct {
		Status int    `json:"status"`
		Key    string `json:"key"`
	}
	req, _ := json.Marshal([]map[string]string{{"topic": topic, "type": strings.Join(perm, "")}})
	p := r.special(l, "keygen", req)
	if err := json.Unmarshal(p, &a); err != nil || len(a) != 1 || a[0].Status != 200 {
		vFail("%s: no key for %q: %s", l.name, topic, p)
	}
	return a[0].Key
}

// key returns the key k for a request on topic by a client of contract con
func (r *vRunner) key(con string, k vKey, topic string) string {
	if k.Kind != "key" {
		return map[string]string{"none": "", "bad": []string{"nokey/", "aaaaaaaaaaaaaaaaaaaaaaaaaa/", "1/"}[r.rng.Intn(3)]}[k.Kind]
	}
	get := func(con, topic string, perm []string) string {
		sort.Strings(perm)
		id := con + "/" + topic + "/" + strings.Join(perm, "")
		if r.keys[id] == "" {
			l := r.connected("helper", r.helper[con], &pbx.Connect{InsecureFlag: true, CleanSessFlag: true})
			r.keys[id] = r.keygen(l, perm, topic)
			r.hangup(l)
		}
		return r.keys[id]
	}
	t := r.topic(k.Topic)
	key := get(k.K, t, k.Perm)
	if t != topic || k.K != con {
		// by chance they may be the same, keys have 32 bits of a hash
		a, err1 := security.DecodeKey(key)
		b, err2 := security.DecodeKey(get(con, topic, k.Perm))
		if err1 == nil && err2 == nil && bytes.Equal(a[4:8], b[4:8]) {
			panic(vSkip{})
		}
	}
	return key + "/"
}

func (r *vRunner) setup() {
	c := r.t[0]
	r.con = c.Contracts
	switch c.V % 4 {
	case 0:
		r.names = map[string]string{}
		if c.Profile == "keys" {
			// the hash of a key only permutes the letters of the topic by the contract (KNOWN_FINDINGS):
			// with many letters it differs
			r.names = map[string]string{"a": "building-17", "b": "temperature", "c": "floor-level"}
		}
	case 1:
		r.names = map[string]string{"a": "sensor-19", "b": "temp-1-80", "c": "x y"}
	case 2:
		r.names = map[string]string{"a": "ünit-数据", "b": "数据", "c": "é"}
	case 3:
		r.names = map[string]string{"a": strings.Repeat("l", 60), "b": "b1", "c": strings.Repeat("m", 30)}
	}
	r.open()
	r.helper = map[string]string{}
	prim := map[string]string{}
	for _, p := range c.Primary {
		id := r.rejected(fmt.Sprintf("new client %d", p), []string{"", "x", strings.Repeat("z", 60)}[r.rng.Intn(3)])
		r.cl[p] = &vClient{c: p, id: id, out: map[int]*vGroup{}}
		prim[r.con[p-1]] = id
		l := r.connected(fmt.Sprintf("client %d", p), id, &pbx.Connect{InsecureFlag: true})
		r.helper[r.con[p-1]] = r.secondary(l)
		for i, k := range r.con {
			if k == r.con[p-1] && r.cl[i+1] == nil && i+1 != p {
				r.cl[i+1] = &vClient{c: i + 1, id: r.secondary(l), out: map[int]*vGroup{}}
			}
		}
		r.hangup(l)
	}
	seen := map[string]bool{}
	for _, x := range r.cl {
		if seen[x.id] {
			vFail("a client ID is given to two clients")
		}
		seen[x.id] = true
	}
	r.base = time.Now().Truncate(time.Second).Add(2*time.Second + 37*time.Millisecond)
	r.ping = r.base
}

func (r *vRunner) want(items []vItem) []vMsg {
	var ms []vMsg
	for _, i := range items {
		ms = append(ms, vMsg{i.N, r.topic(i.T)})
	}
	return ms
}

// fetch asks for a message and returns it
func (r *vRunner) fetch(c *vClient, id int) *vGroup {
	l := c.line
	l.fetching[id] = true
	r.ctrl(l, pbx.FlowControl_RECEIVE, id)
	r.settle()
	g := l.fetched[id]
	delete(l.fetched, id)
	delete(l.fetching, id)
	r.res.Checks++
	if g == nil {
		vFail("client %d: the message with ID %d cannot be received although it was announced or sent and is not completed", c.c, id)
	}
	return g
}

// assign finds the items of groups that have arrived; left are the items that did not.
func (r *vRunner) assign(c *vClient, groups []*vGroup, items []vItem, when string) {
	var single, batch []vItem
	for _, i := range items {
		if i.How == "batch" {
			batch = append(batch, i)
		} else {
			single = append(single, i)
		}
	}
	used := map[*vGroup]bool{}
	for _, i := range single {
		ok := false
		for _, g := range groups {
			if !used[g] && len(g.msgs) == 1 && g.msgs[0].n == i.N && g.msgs[0].t == r.topic(i.T) && g.mode == i.Mode {
				used[g], ok = true, true
				g.how, g.s = i.How, i.S
				break
			}
		}
		if !ok {
			vFail("client %d: %s: message %d on %q, delivery mode %d, is missing; got %s", c.c, when, i.N, r.topic(i.T), i.Mode, vGroups(groups))
		}
	}
	var got []vMsg
	for _, g := range groups {
		if used[g] {
			continue
		}
		g.how = "batch"
		if len(batch) > 0 {
			g.s = batch[0].S
		}
		if g.mode != 0 && len(batch) > 0 {
			vFail("client %d: %s: a batch has delivery mode %d", c.c, when, g.mode)
		}
		got = append(got, g.msgs...)
	}
	if a, b := vContent(got), vContent(r.want(batch)); a != b {
		vFail("client %d: %s: got the messages [%s] besides, expected [%s]", c.c, when, a, b)
	}
	r.res.Checks += len(groups) + len(items)
}

func vGroups(gs []*vGroup) string {
	var s []string
	for _, g := range gs {
		s = append(s, fmt.Sprintf("%d:%s", g.id, g.content()))
	}
	return strings.Join(s, " ")
}

// resumed checks what is announced to a client that has connected
func (r *vRunner) resumed(c *vClient, items []vItem) {
	l := c.line
	ids := l.notified
	l.notified = nil
	seen := map[int]bool{}
	old := c.out
	c.out = map[int]*vGroup{}
	var groups []*vGroup
	for _, id := range ids {
		if seen[id] {
			vFail("client %d: ID %d is announced twice", c.c, id)
		}
		seen[id] = true
		g := r.fetch(c, id)
		groups = append(groups, g)
		c.out[id] = g
	}
	// groups that were seen before
	left := append([]vItem{}, items...)
	take := func(how string, s int, m vMsg, mode int) {
		for k, i := range left {
			if i.How == how && i.S == s && i.N == m.n && r.topic(i.T) == m.t && (i.How == "batch" || i.Mode == mode) {
				left = append(left[:k:k], left[k+1:]...)
				return
			}
		}
	}
	var fresh []*vGroup
	var olds []*vGroup
	for _, g := range old {
		if g.known {
			olds = append(olds, g)
		}
	}
	sort.Slice(olds, func(i, j int) bool { return olds[i].id < olds[j].id })
	same := func(g *vGroup, exact bool) *vGroup {
		for k, o := range olds {
			if o.content() == g.content() && (!exact || o.id == g.id) {
				olds = append(olds[:k:k], olds[k+1:]...)
				return o
			}
		}
		return nil
	}
	var rest []*vGroup
	for _, g := range groups {
		if o := same(g, true); o != nil {
			g.how, g.s = o.how, o.s
			for _, m := range g.msgs {
				take(g.how, g.s, m, g.mode)
			}
		} else {
			rest = append(rest, g)
		}
	}
	for _, g := range rest {
		if o := same(g, false); o != nil {
			g.how, g.s = o.how, o.s
			for _, m := range g.msgs {
				take(g.how, g.s, m, g.mode)
			}
		} else {
			fresh = append(fresh, g)
		}
	}
	if len(olds) > 0 && len(items) > 0 || len(olds) > 0 && len(left) > 0 {
		vFail("client %d: connects again, and [%s] of its session is not announced; announced are %s", c.c, vGroups(olds), vGroups(groups))
	}
	r.assign(c, fresh, left, "connects again")
}

// news checks what the clients have got in a step
func (r *vRunner) news(st *vStep, start time.Time, news []vClientItems, gone int) {
	exp := map[int][]vItem{}
	for _, n := range news {
		exp[n.C] = n.Items
	}
	for _, k := range r.order() {
		c := r.cl[k]
		if c.line == nil || k == gone {
			continue
		}
		l := c.line
		var notify, rest []vItem
		for _, i := range exp[k] {
			if i.How == "notify" {
				notify = append(notify, i)
			} else {
				rest = append(rest, i)
			}
		}
		if len(l.notified) != len(notify) {
			vFail("client %d: %d messages are announced, expected %d (%s)", k, len(l.notified), len(notify), vContent(r.want(notify)))
		}
		groups := l.delivered
		l.delivered = nil
		ids := l.notified
		l.notified = nil
		for _, g := range groups {
			if c.out[g.id] != nil {
				vFail("client %d: ID %d is used again for %s, it is not completed for %s", k, g.id, g.content(), c.out[g.id].content())
			}
			c.out[g.id] = g
		}
		for _, id := range ids {
			if c.out[id] != nil || id == 0 {
				vFail("client %d: ID %d is announced, it is in use", k, id)
			}
			c.out[id] = &vGroup{id: id, how: "notify", s: st.S}
		}
		r.assign(c, groups, rest, st.Op)
		if l.cfg.Count >= 100 && l.cfg.Bytes > 1000 {
			for _, g := range groups {
				if g.how == "batch" {
					min := 1 << 30
					for _, m := range g.msgs {
						for _, i := range rest {
							if i.N == m.n && i.Delay < min && i.How == "batch" {
								min = i.Delay
							}
						}
					}
					if d := g.at.Sub(start); d < time.Duration(min)*time.Millisecond {
						vFail("client %d: messages %s are delivered after %v, the delay is %d ms", k, vContent(g.msgs), d, min)
					}
				}
			}
		}
		// fetch what was announced now, or later
		if len(ids) > 0 && r.rng.Intn(3) > 0 {
			r.resolve(c, st.S, notify)
		}
	}
}

// crowd connects n clients that subscribe to a topic
func (r *vRunner) crowd(con, topic string, n int) []*vLine {
	var ls []*vLine
	for i := 0; i < n; i++ {
		l := r.dial("one of many")
		r.send(l, pbx.MessageType_CONNECT, 0, &pbx.Connect{Version: 1, ClientID: r.helper[con], InsecureFlag: true, CleanSessFlag: true})
		r.send(l, pbx.MessageType_SUBSCRIBE, 0, &pbx.Subscribe{MessageID: 1, Subscriptions: []*pbx.Subscription{{Topic: topic}}})
		ls = append(ls, l)
	}
	r.settle()
	for _, l := range ls {
		if l.acks["SUBSCRIBE/1"] != 1 {
			vFail("one of %d subscribers: SUBSCRIBE is not acknowledged", n)
		}
	}
	return ls
}

func (r *vRunner) order() []int {
	var ks []int
	for k := range r.cl {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// resolve fetches all messages that were announced in a step
func (r *vRunner) resolve(c *vClient, s int, items []vItem) {
	var groups []*vGroup
	var ids []int
	for id, g := range c.out {
		if g.how == "notify" && g.s == s && !g.known {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		g := r.fetch(c, id)
		g.how, g.s = "notify", s
		c.out[id] = g
		groups = append(groups, g)
	}
	if items != nil {
		r.assign(c, groups, items, "receives what was announced")
	}
}

func (r *vRunner) complete(c *vClient, g *vGroup) {
	l := c.line
	x := r.rng.Intn(4)
	if g.how != "notify" && x < 3 {
		r.ctrl(l, pbx.FlowControl_ACKNOWLEDGE, g.id)
		r.settle()
	} else {
		n := 1
		if x == 0 {
			n = 2 // sent again since COMPLETE may have been lost
		}
		for ; n > 0; n-- {
			l.completes = nil
			r.ctrl(l, pbx.FlowControl_RECEIPT, g.id)
			r.settle()
			if len(l.completes) != 1 || l.completes[0] != g.id {
				vFail("client %d: RECEIPT of %d is answered with COMPLETE of %v", c.c, g.id, l.completes)
			}
			l.completes = nil
		}
	}
	delete(c.out, g.id)
	r.res.Checks++
}

func (r *vRunner) done(c *vClient, items []vItem) {
	batches := map[int]bool{}
	for _, i := range items {
		if i.How == "batch" {
			if batches[i.S] {
				continue
			}
			batches[i.S] = true
			var gs []*vGroup
			for _, id := range vIDs(c.out) {
				if g := c.out[id]; g.how == "batch" && g.s == i.S {
					gs = append(gs, g)
				}
			}
			for _, g := range gs {
				r.complete(c, g)
			}
			continue
		}
		find := func() *vGroup {
			for _, id := range vIDs(c.out) {
				g := c.out[id]
				if g.how == i.How && g.s == i.S && g.known && len(g.msgs) == 1 && g.msgs[0].n == i.N && g.msgs[0].t == r.topic(i.T) && g.mode == i.Mode {
					return g
				}
			}
			return nil
		}
		g := find()
		if g == nil {
			r.resolve(c, i.S, nil)
			g = find()
		}
		if g == nil {
			vFail("client %d: message %d, mode %d, of its session is not among those announced", c.c, i.N, i.Mode)
		}
		r.complete(c, g)
	}
}

func vIDs(m map[int]*vGroup) []int {
	var s []int
	for id := range m {
		s = append(s, id)
	}
	sort.Ints(s)
	return s
}

// verify receives everything that is not completed again
func (r *vRunner) verify(c *vClient, items []vItem) {
	var got []string
	for _, id := range vIDs(c.out) {
		g := r.fetch(c, id)
		o := c.out[id]
		if o.known && o.content() != g.content() {
			vFail("client %d: the message with ID %d was %s and is %s now", c.c, id, o.content(), g.content())
		}
		for _, m := range g.msgs {
			got = append(got, fmt.Sprintf("%d:%d@%s", g.mode, m.n, m.t))
		}
		g.how, g.s = o.how, o.s
		c.out[id] = g
	}
	var want []string
	for _, i := range items {
		want = append(want, fmt.Sprintf("%d:%d@%s", i.Mode, i.N, r.topic(i.T)))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		vFail("client %d: its session has %v, expected %v", c.c, got, want)
	}
	r.res.Checks += 1 + len(got)
}

// acked checks that a request was acknowledged, and the errors of it
func (r *vRunner) acked(c *vClient, typ string, id int, ack bool, errs int) {
	l := c.line
	n := 0
	if ack {
		n = 1
	}
	k := fmt.Sprintf("%s/%d", typ, id)
	if l.acks[k] != n || len(l.acks) != n {
		vFail("client %d: acknowledgements %v of the request %s, expected %d", c.c, l.acks, k, n)
	}
	l.acks = map[string]int{}
	if len(l.sys) != errs {
		vFail("client %d: %d errors are reported, expected %d", c.c, len(l.sys), errs)
	}
	for _, s := range l.sys {
		var e struct {
			Status int `json:"status"`
			ID     int `json:"id"`
		}
		if err := json.Unmarshal(s.payload, &e); err != nil || !strings.HasPrefix(s.topic, "unitdb/error") || e.Status < 400 || e.ID != id {
			vFail("client %d: the answer to a refused request %d is %s %s", c.c, id, s.topic, s.payload)
		}
	}
	l.sys = nil
	r.res.Checks += 1 + errs
}

// quiet checks that nothing came that nobody expects
func (r *vRunner) quiet() {
	for _, k := range r.order() {
		c := r.cl[k]
		if c.line == nil {
			continue
		}
		l := c.line
		l.mu.Lock()
		eof, bad := l.eof, l.bad
		l.mu.Unlock()
		if bad != nil {
			vFail("client %d: the server sends what cannot be read: %v", k, bad)
		}
		if eof {
			vFail("client %d: the server has closed the connection", k)
		}
		if len(l.notified)+len(l.delivered)+len(l.acks)+len(l.completes)+len(l.sys)+l.pings > 0 {
			vFail("client %d: got what it did not ask for: announced %v, delivered %s, acknowledged %v, completed %v, %d answers, %d pings", k, l.notified, vGroups(l.delivered), l.acks,
				l.completes, len(l.sys), l.pings)
		}
		r.res.Checks++
	}
}

func (r *vRunner) closed(l *vLine, why string) {
	r.settle()
	l.mu.Lock()
	eof := l.eof
	l.mu.Unlock()
	if !eof {
		time.Sleep(1500 * time.Millisecond)
		r.settle()
		l.mu.Lock()
		eof = l.eof
		l.mu.Unlock()
	}
	r.res.Checks++
	if !eof {
		vFail("%s: the server does not close the connection (%s)", l.name, why)
	}
}

func (r *vRunner) drop(c *vClient, how string) {
	l := c.line
	c.line = nil
	l.on = false
	switch how {
	case "disconnect":
		r.send(l, pbx.MessageType_DISCONNECT, pbx.FlowControl_NONE, nil)
		r.closed(l, how)
	case "garbage":
		var b []byte
		switch r.rng.Intn(4) {
		case 0:
			b = vFrame(pbx.MessageType(8+r.rng.Intn(200)), 0, []byte("abc"))
		case 1:
			b = vFrame(0, pbx.FlowControl(r.rng.Intn(6)), nil)
		case 2:
			h, _ := proto.Marshal(&pbx.FixedHeader{MessageType: pbx.MessageType(1 + r.rng.Intn(7)), MessageLength: -1 - int32(r.rng.Intn(1000))})
			b = append(binary.AppendUvarint(nil, uint64(len(h))), h...)
		case 3:
			b = bytes.Repeat([]byte{2, 8}, 1+r.rng.Intn(20)) // headers of two bytes with type 2 or 8, and of eight bytes
			b = append(b, vFrame(0, 0, nil)...)
			b = append([]byte{2, 8, 8}, b...)
		}
		r.raw(l, b)
		r.closed(l, how)
	case "cut":
		b := vFrame(pbx.MessageType_PUBLISH, 0, bytes.Repeat([]byte("p"), 50))
		r.raw(l, b[:1+r.rng.Intn(len(b)-1)])
	case "second":
		m, _ := proto.Marshal(&pbx.Connect{Version: 1, ClientID: c.id, InsecureFlag: true})
		r.raw(l, vFrame(pbx.MessageType_CONNECT, 0, m))
		r.closed(l, "a second CONNECT")
	case "stale":
		id := 1 + r.rng.Intn(60000)
		for c.out[id] != nil {
			id++
		}
		m, _ := proto.Marshal(&pbx.ControlMessage{MessageID: int32(id)})
		r.raw(l, vFrame(pbx.MessageType_PUBLISH, pbx.FlowControl_RECEIVE, m))
		r.closed(l, "RECEIVE of a message that there is not")
	}
	r.hangup(l)
}

// garbage: a stranger, or a client of another contract, sends what makes no sense
func (r *vRunner) garbage(v int) {
	if v >= 4 {
		id := r.rejected("stranger", "?")
		l := r.connected("stranger", id, &pbx.Connect{InsecureFlag: v%2 == 0, BatchDuration: int32(r.rng.Intn(3)) - 1, BatchCountThreshold: int32(r.rng.Intn(3)) - 1})
		bad := []string{"", "/", "?", "a/?ttl=1s", ".", "..", "....", "*", "a*", "//", "a//b", strings.Repeat("a.", 260) + "a", "a?ttl=x", "a?last=", "?/a", "\x00", "\xff\xfe", "key/...", "unitdb/", "unitdb/foo", "unitdb/keygen", "unitdb/clientid/x"}
		t := bad[r.rng.Intn(len(bad))]
		switch v {
		case 4, 5, 6:
			m, _ := proto.Marshal(&pbx.Subscribe{MessageID: 70000, Subscriptions: []*pbx.Subscription{{Topic: t, DeliveryMode: 300, Delay: -5}}})
			r.raw(l, vFrame(pbx.MessageType_SUBSCRIBE, 0, m))
			r.raw(l, vFrame(pbx.MessageType_UNSUBSCRIBE, 0, m))
		case 7, 8, 9:
			m, _ := proto.Marshal(&pbx.Publish{MessageID: -1, DeliveryMode: int32(v), Messages: []*pbx.PublishMessage{{Topic: t, Ttl: "abc"}, {}}})
			r.raw(l, vFrame(pbx.MessageType_PUBLISH, 0, m))
		case 10:
			m, _ := proto.Marshal(&pbx.Publish{MessageID: 7})
			r.raw(l, vFrame(pbx.MessageType_PUBLISH, 0, m))
		case 11, 12:
			m, _ := proto.Marshal(&pbx.Relay{MessageID: 7, RelayRequests: []*pbx.RelayRequest{{Topic: t, Last: []string{"x", "-1s", "", "1h"}[r.rng.Intn(4)]}, {}}})
			r.raw(l, vFrame(pbx.MessageType_RELAY, 0, m))
		case 13:
			for _, p := range []string{"", "{}", "[{}]", `[{"topic":"` + strings.Repeat("a.", 40) + `","type":"rw"}]`, `[{"topic":"","type":"x"}]`, "null", `"x"`} {
				m, _ := proto.Marshal(&pbx.Publish{MessageID: 7, Messages: []*pbx.PublishMessage{{Topic: "unitdb/keygen", Payload: []byte(p)}}})
				r.raw(l, vFrame(pbx.MessageType_PUBLISH, 0, m))
			}
		case 14:
			for f := 1; f < 7; f++ {
				m, _ := proto.Marshal(&pbx.ControlMessage{MessageID: int32(f) * 40000})
				r.raw(l, vFrame(pbx.MessageType(1+r.rng.Intn(7)), pbx.FlowControl(f), m))
			}
		case 15:
			b := make([]byte, r.rng.Intn(40))
			r.rng.Read(b)
			r.raw(l, vFrame(pbx.MessageType(1+r.rng.Intn(6)), 0, b))
		}
		time.Sleep(20 * time.Millisecond)
		r.settle()
		r.hangup(l)
		return
	}
	l := r.dial("stranger")
	var m0 runtime.MemStats
	if v == 1 || v == 2 {
		runtime.ReadMemStats(&m0)
	}
	switch v {
	case 0:
		m, _ := proto.Marshal(&pbx.Publish{MessageID: 1, Messages: []*pbx.PublishMessage{{Topic: "a", Payload: []byte("x")}}})
		r.raw(l, vFrame([]pbx.MessageType{2, 3, 4, 5, 6, 7}[r.rng.Intn(6)], pbx.FlowControl(r.rng.Intn(6)), m))
	case 1:
		// less than nothing, or more than will come
		n := []int32{-1 - int32(r.rng.Intn(1000)), 1<<31 - 1 - int32(r.rng.Intn(1<<30))}[r.rng.Intn(2)]
		h, _ := proto.Marshal(&pbx.FixedHeader{MessageType: 1, MessageLength: n})
		r.raw(l, append(binary.AppendUvarint(nil, uint64(len(h))), h...))
	case 2:
		if r.rng.Intn(3) == 0 { // a header that does not come
			r.raw(l, binary.AppendUvarint(nil, 1<<28-1-uint64(r.rng.Intn(1<<26))))
			break
		}
		b := make([]byte, 1+r.rng.Intn(200))
		r.rng.Read(b)
		b[0] &= 0x3f // a header that does not take long
		r.raw(l, b)
	case 3:
		r.raw(l, vFrame(pbx.MessageType(8+r.rng.Intn(200)), 0, []byte("abc")))
	}
	time.Sleep(20 * time.Millisecond)
	if v == 1 || v == 2 {
		var m1 runtime.MemStats
		runtime.ReadMemStats(&m1)
		if n := m1.TotalAlloc - m0.TotalAlloc; n > 150<<20 {
			vFail("a few bytes of a stranger made the server allocate %d MB", n>>20)
		}
	}
	l.mu.Lock()
	l.buf = nil
	l.mu.Unlock()
	r.hangup(l)
}

func (r *vRunner) badID(c *vClient, v int) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"
	b := []byte(c.id)
	other := func(x byte) byte {
		for {
			if y := abc[r.rng.Intn(len(abc))]; y != x {
				return y
			}
		}
	}
	switch v {
	case 0:
		return ""
	case 1:
		return "x"
	case 2, 3:
		i := r.rng.Intn(50)
		b[i] = other(b[i])
	case 4:
		return c.id[:r.rng.Intn(52)]
	case 5:
		// the part that does not look like a signature is another one
		for i := 13; i < 50; i++ {
			b[i] = other(b[i])
		}
	case 6:
		for i := 0; i < 16; i++ {
			b[i] = other(b[i])
		}
	case 7:
		for i := 0; i < 8; i++ {
			b[i] = other(b[i])
		}
		for i := 20; i < 50; i++ {
			b[i] = other(b[i])
		}
	}
	return string(b)
}

func (r *vRunner) messages(st *vStep) []*pbx.PublishMessage {
	var ms []*pbx.PublishMessage
	for i, m := range st.Msgs {
		t := r.topic(m.T)
		x := &pbx.PublishMessage{Topic: r.key(r.con[st.C-1], m.Key, t) + t}
		if m.Ttl > 0 {
			if m.Opt {
				x.Topic += fmt.Sprintf("?ttl=%ds", m.Ttl)
			} else {
				x.Ttl = fmt.Sprintf("%ds", m.Ttl)
			}
		}
		r.sizes[st.N+i] = m.Size
		x.Payload = r.body(st.N+i, m.Size)
		ms = append(ms, x)
	}
	return ms
}

func (r *vRunner) subs(st *vStep) []*pbx.Subscription {
	var ss []*pbx.Subscription
	for _, q := range st.Reqs {
		t := r.topic(q.P)
		s := &pbx.Subscription{Topic: r.key(r.con[st.C-1], q.Key, t) + t, DeliveryMode: int32(q.Mode), Delay: int32(q.Delay)}
		if r.rng.Intn(5) == 0 {
			s.Topic += "?last=10s"
		}
		ss = append(ss, s)
	}
	return ss
}

func (r *vRunner) step(k int) {
	st := &r.t[k]
	if vTrace {
		fmt.Println("step", k, st.Op, st.At, "now", time.Since(r.base))
	}
	start := r.base.Add(time.Duration(st.At) * time.Second)
	end := start.Add(900 * time.Millisecond)
	if k+1 < len(r.t) {
		end = r.base.Add(time.Duration(r.t[k+1].At)*time.Second - 100*time.Millisecond)
	}
	if d := time.Since(start); d > 0 {
		vFail("the step before is not done in time (%v late)", d)
	}
	r.forward(start)
	r.quiet()
	var c *vClient
	if st.C > 0 {
		c = r.cl[st.C]
	}
	r.req = (r.req + 1 + r.rng.Intn(3)) & 0x7fff
	if r.req == 0 {
		r.req = 1
	}
	id := r.req
	switch st.Op {
	case "connect":
		c.line = r.connected(fmt.Sprintf("client %d", st.C), c.id, &pbx.Connect{InsecureFlag: !st.Secure, CleanSessFlag: st.Clean, BatchDuration: int32(st.Cfg.Dur),
			BatchCountThreshold: int32(st.Cfg.Count), BatchByteThreshold: int32(st.Cfg.Bytes), KeepAlive: 60})
		c.line.cfg = st.Cfg
		r.resumed(c, st.Items)
	case "drop":
		r.drop(c, st.How)
	case "idle":
		r.silent = st.C
		l := c.line
		r.forward(end)
		l.mu.Lock()
		eof := l.eof
		l.mu.Unlock()
		if !eof {
			vFail("client %d: was silent for 130 s and is not disconnected", st.C)
		}
		r.silent = 0
		c.line = nil
		r.hangup(l)
	case "sub":
		r.send(c.line, pbx.MessageType_SUBSCRIBE, 0, &pbx.Subscribe{MessageID: int32(id), Subscriptions: r.subs(st)})
		r.settle()
		r.acked(c, "SUBSCRIBE", id, true, st.Errs)
	case "unsub":
		r.send(c.line, pbx.MessageType_UNSUBSCRIBE, 0, &pbx.Unsubscribe{MessageID: int32(id), Subscriptions: r.subs(st)})
		r.settle()
		r.acked(c, "UNSUBSCRIBE", id, true, st.Errs)
	case "pub", "pubdrop", "crowd":
		ms := r.messages(st)
		var crowd []*vLine
		if st.Op == "crowd" {
			crowd = r.crowd(r.con[st.C-1], r.topic(st.Msgs[0].T), st.Var)
		}
		if st.Op == "pubdrop" {
			// keys may have been asked for
			r.settle()
		}
		r.send(c.line, pbx.MessageType_PUBLISH, 0, &pbx.Publish{MessageID: int32(id), DeliveryMode: int32(st.Pm), Messages: ms})
		r.settle()
		all := st.Acc == len(st.Msgs)
		errs := 0
		if !all {
			errs = 1
		}
		r.acked(c, "PUBLISH", id, all, errs)
		gone := 0
		if st.Op == "pubdrop" {
			gone = st.D
			d := r.cl[st.D]
			for _, g := range d.line.delivered {
				_ = g
			}
			r.drop(d, st.How)
		}
		n := st.N
		if len(crowd) > 0 && st.Msgs[0].Size == "d" {
			n = r.dup
		}
		for _, l := range crowd {
			if len(l.delivered) != st.Acc || st.Acc == 1 && vContent(l.delivered[0].msgs) != vContent([]vMsg{{n, r.topic(st.Msgs[0].T)}}) {
				vFail("one of %d subscribers gets %s, published is message %d on %s", st.Var, vGroups(l.delivered), n, r.topic(st.Msgs[0].T))
			}
			l.on = false
			l.conn.Close()
			r.res.Checks++
		}
		if crowd != nil {
			var lines []*vLine
			for _, l := range r.lines {
				if l.on {
					lines = append(lines, l)
				}
			}
			r.lines = lines
		}
		t0 := start
		r.forward(end)
		r.news(st, t0, st.New, gone)
	case "burst":
		var wg sync.WaitGroup
		bad := make([]error, len(st.Pubs))
		var raws [][]byte
		var ids []int
		for i := range st.Pubs {
			p := &st.Pubs[i]
			ms := r.messages(p)
			body, _ := proto.Marshal(&pbx.Publish{MessageID: int32(r.req), DeliveryMode: int32(p.Pm), Messages: ms})
			raws = append(raws, vFrame(pbx.MessageType_PUBLISH, 0, body))
			ids = append(ids, r.req)
			r.req = (r.req + 1) & 0x7fff
			if r.req == 0 {
				r.req = 1
			}
		}
		r.settle()
		for i := range st.Pubs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := r.cl[st.Pubs[i].C].line
				l.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
				if _, err := l.conn.Write(raws[i]); err != nil {
					bad[i] = err
				}
			}()
		}
		wg.Wait()
		for i, b := range bad {
			if b != nil {
				vFail("client %d: the server does not take PUBLISH: %v", st.Pubs[i].C, b)
			}
		}
		r.settle()
		for i := range st.Pubs {
			p := &st.Pubs[i]
			errs := 0
			if p.Acc < len(p.Msgs) {
				errs = 1
			}
			r.acked(r.cl[p.C], "PUBLISH", ids[i], p.Acc == len(p.Msgs), errs)
		}
		r.forward(end)
		r.news(st, start, st.New, 0)
	case "done", "doneall":
		r.done(c, st.Items)
	case "verify":
		r.verify(c, st.Items)
	case "relay":
		var rs []*pbx.RelayRequest
		for _, q := range st.Reqs {
			t := r.topic(q.T)
			x := &pbx.RelayRequest{Topic: r.key(r.con[st.C-1], q.Key, t) + t}
			x.Last = fmt.Sprintf("%ds", q.Last)
			rs = append(rs, x)
		}
		r.send(c.line, pbx.MessageType_RELAY, 0, &pbx.Relay{MessageID: int32(id), RelayRequests: rs})
		r.settle()
		r.busy = st.C
		r.forward(end) // the answer to the request may wait for the batches
		r.busy = 0
		r.acked(c, "RELAY", id, true, st.Errs)
		r.news(st, start, st.New, 0)
	case "restart", "kill":
		next := r.dir
		if st.Op == "kill" {
			r.ndir++
			next = filepath.Join(r.root, fmt.Sprint("d", r.ndir))
			if out, err := exec.Command("cp", "-a", r.dir, next).CombinedOutput(); err != nil {
				fmt.Println("HARNESS", err, string(out))
				os.Exit(3)
			}
		}
		for _, k := range r.order() {
			if c := r.cl[k]; c.line != nil {
				how := "close"
				if st.Op == "restart" && r.rng.Intn(2) == 0 {
					how = "disconnect"
				}
				r.drop(c, how)
			}
		}
		r.s.Close()
		synctest.Wait()
		if next != r.dir {
			os.RemoveAll(r.dir)
			r.dir = next
		}
		r.open()
	case "badid":
		r.rejected("forger", r.badID(c, st.Var))
	case "reqid":
		if st.OK {
			nid := r.secondary(c.line)
			if nid == c.id {
				vFail("client %d: the new client ID is its own", st.C)
			}
			l := r.connected("new client", nid, &pbx.Connect{InsecureFlag: true})
			a := r.keygen(l, []string{"r"}, "probe")
			b := r.keygen(c.line, []string{"r"}, "probe")
			if a != b {
				vFail("a client with a secondary ID belongs to another contract than the primary client")
			}
			r.hangup(l)
		} else {
			p := r.special(c.line, "clientid", nil)
			var a struct {
				Status int    `json:"status"`
				Key    string `json:"key"`
			}
			if err := json.Unmarshal(p, &a); err != nil || a.Status < 400 || a.Key != "" {
				vFail("client %d: is no primary client and gets a client ID: %s", st.C, p)
			}
		}
		r.res.Checks++
	case "garbage":
		r.garbage(st.Var)
	case "wait":
	case "end":
		for _, x := range st.On {
			r.verify(r.cl[x.C], x.Items)
		}
	default:
		fmt.Println("HARNESS unknown op", st.Op)
		os.Exit(3)
	}
	r.settle()
	r.quiet()
}

func (r *vRunner) run() (err error) {
	k := 0
	defer func() {
		if x := recover(); x != nil {
			switch m := x.(type) {
			case vMismatch:
				err = fmt.Errorf("step %d (%s): %s", k, r.t[k].Op, m.msg)
			case vSkip:
				err = nil
			default:
				panic(x)
			}
		}
	}()
	r.duplicates()
	r.setup()
	for k = 1; k < len(r.t); k++ {
		r.res.Step = k
		r.step(k)
		r.res.Steps++
		r.res.Ops[r.t[k].Op]++
	}
	return nil
}

func TestReplay(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	zerolog.SetGlobalLevel(zerolog.FatalLevel)
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "server")
	if err != nil {
		t.Fatal(err)
	}
	w := json.NewEncoder(f)
	only := os.Getenv("VERIF_ONLY")
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(30 * 365 * 24 * time.Hour)
		for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			if only != "" && only != fmt.Sprint(idx) {
				continue
			}
			var tr []vStep
			if err := json.Unmarshal([]byte(line), &tr); err != nil {
				fmt.Println("HARNESS", err)
				os.Exit(3)
			}
			h := fnv.New64()
			h.Write([]byte(line))
			res := &vResult{Index: idx, OK: true, Ops: map[string]int{}}
			fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
			root := filepath.Join(scratch, fmt.Sprint(idx))
			dir := filepath.Join(root, "d0")
			os.MkdirAll(dir, 0777)
			r := &vRunner{t: tr, root: root, dir: dir, res: res, rng: rand.New(rand.NewSource(int64(h.Sum64()))), cl: map[int]*vClient{}, keys: map[string]string{},
				sizes: map[int]string{}}
			if err := r.run(); err != nil {
				res.OK = false
				res.Msg = err.Error()
			}
			w.Encode(res)
			func() {
				defer func() { recover() }()
				for _, c := range r.cl {
					if c.line != nil {
						c.line.on = false
						c.line.conn.Close()
					}
				}
				time.Sleep(5 * time.Second)
				r.s.Close()
				synctest.Wait()
			}()
			os.RemoveAll(root)
		}
		f.Close()
		os.RemoveAll(scratch)
		os.Exit(0)
	})
}
