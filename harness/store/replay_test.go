// Package store replays behaviours of the UnitStore specification into the real DB.
package store

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/wal"
)

type cfg struct {
	Mutable bool `json:"mutable"`
	Enc     bool `json:"enc"`
	Bg      bool `json:"bg"`
	Free    int  `json:"free"`
	Dl      int  `json:"dl"`
	Ml      int  `json:"ml"`
	Sync    int  `json:"sync"`
}

type probe struct {
	T []string `json:"t"`
	C int      `json:"c"`
}

type obs struct {
	Q     [][]int `json:"q"`
	Lo    [][]int `json:"lo"`
	Hi    [][]int `json:"hi"`
	Count int     `json:"count"`
}

type step struct {
	Op     string   `json:"op"`
	N      int      `json:"n"`
	M      int      `json:"m"`
	Topic  []string `json:"topic"`
	Con    int      `json:"con"`
	TTL    int      `json:"ttl"`
	Size   string   `json:"size"`
	Enc    bool     `json:"enc"`
	Var    int      `json:"var"`
	D      int      `json:"d"`
	Limit  int      `json:"limit"`
	Last   int      `json:"last"`
	Want   []int    `json:"want"`
	Batch  int      `json:"batch"`
	WithID bool     `json:"withid"`
	Commit bool     `json:"commit"`
	Ops    []step   `json:"ops"`
	Del    []step   `json:"del"`
	At     int      `json:"at"`
	Open   bool     `json:"open"`
	Alive  []int    `json:"alive"`
	Ids    []int    `json:"ids"`
	O      obs      `json:"o"`
	// first record
	Cfg     cfg     `json:"cfg"`
	Profile string  `json:"profile"`
	V       int     `json:"v"`
	Crash   bool    `json:"crash"`
	Probes  []probe `json:"probes"`
}

type result struct {
	Index     int            `json:"index"`
	OK        bool           `json:"ok"`
	Step      int            `json:"step"`
	Msg       string         `json:"msg,omitempty"`
	Steps     int            `json:"steps"`
	Checks    int            `json:"checks"`
	Snapshots int            `json:"snapshots"`
	Ops       map[string]int `json:"ops"`
	Points    map[string]int `json:"points,omitempty"`
}

var contracts = []uint32{0, 0x00000001, 0x01000001, 0xFFFFFFFF, 3376684800 ^ 1, 3376684800 ^ 0x80000000}

const key1 = "4BWm1vZletvrCDGWsF6mex8oBSd59m6I"
const key2 = "00000000000000000000000000000001"

// levelNames are texts of the levels a, b and c of the specification.
var levelNames = []map[string]string{
	{},
	{"b": "aa", "c": "aaa"},
	{"a": strings.Repeat("x", 300) + "a", "b": strings.Repeat("x", 300) + "b", "c": strings.Repeat("x", 299)},
	{"a": "\u65e5\u672c", "b": "\u65e5", "c": "stra\u00dfe"},
	{"a": "0", "b": "-1/2 _", "c": "\x01"},
	{"a": "b", "b": "a"},
}

var names map[string]string

func topicString(levels []string) string {
	levels = append([]string{}, levels...)
	for i, l := range levels {
		if n, ok := names[l]; ok {
			levels[i] = n
		}
	}
	if n := len(levels); n > 0 && levels[n-1] == "..." {
		return strings.Join(levels[:n-1], ".") + "..."
	}
	return strings.Join(levels, ".")
}

type mismatch struct{ msg string }

func failf(format string, args ...interface{}) { panic(mismatch{fmt.Sprintf(format, args...)}) }

type snapshot struct {
	dir  string
	at   string
	seq  uint64 // greatest sequence that was handed out
}

type runner struct {
	t      []step
	c      cfg
	v      int64
	root   string
	dir    string
	ndir   int
	db     *unitdb.DB
	ids    map[int][]byte
	text   map[int]string
	num    map[string]int
	enc    map[int]bool
	last   *unitdb.Entry // is used again by a later put
	base   time.Time
	res    *result
	rng    *rand.Rand
	snaps  []snapshot
	snapOn bool
	snapP  float64
	snapMx int
	inHook bool
	secret bool
	uids   map[string]int
	maxSeq uint64
	seqs   map[int]uint64 // least sequence of a message
}

func (r *runner) payload(n int, size string) string {
	rng := rand.New(rand.NewSource(r.v*100003 + int64(n)))
	uniq := func(min int) []byte {
		var b []byte
		for x := n; x > 0 || len(b) < min; x >>= 8 {
			b = append([]byte{byte(x)}, b...)
		}
		return b
	}
	var p []byte
	switch size {
	case "t", "1":
		p = uniq(1)
	case "2", "3", "4":
		p = uniq(int(size[0] - '0'))
	default:
		l := 0
		switch size {
		case "s":
			l = 24 + rng.Intn(40)
		case "m":
			l = 200 + rng.Intn(1400)
		case "l":
			l = 4000 + rng.Intn(24000)
			if rng.Intn(4) == 0 {
				l += 60000
			}
		case "h":
			l = 1<<20 + rng.Intn(3<<20)
		}
		p = make([]byte, l)
		if rng.Intn(3) == 0 && size != "s" {
			for i := range p {
				p[i] = "abcdefgh"[(i/7)%8]
			}
		} else {
			for i := range p {
				p[i] = byte(33 + rng.Intn(90))
			}
		}
		copy(p, fmt.Sprintf("<%d>", n))
		copy(p[l-8:], fmt.Sprintf("%08d", n))
	}
	s := string(p)
	if m, ok := r.num[s]; ok && m != n {
		panic("harness: payload is not unique")
	}
	r.num[s] = n
	r.text[n] = s
	return s
}

func (r *runner) options(enc, mutable bool) []unitdb.Options {
	c := r.c
	o := []unitdb.Options{}
	if c.Sync == 0 {
		o = append(o, unitdb.WithMaxSyncDuration(10000*time.Hour, 1))
	}
	if mutable {
		o = append(o, unitdb.WithMutable())
	}
	if enc {
		o = append(o, unitdb.WithEncryption())
	}
	if c.Bg {
		o = append(o, unitdb.WithBackgroundKeyExpiry())
	}
	if c.Free > 0 {
		o = append(o, unitdb.WithFreeBlockSize(int64(c.Free)))
	}
	if c.Dl > 0 {
		o = append(o, unitdb.WithDefaultQueryLimit(c.Dl))
	}
	if c.Ml > 0 {
		o = append(o, unitdb.WithMaxQueryLimit(c.Ml))
	}
	return o
}

func (r *runner) open(dir string) *unitdb.DB {
	db, err := unitdb.Open(dir, r.options(r.c.Enc, r.c.Mutable)...)
	if err != nil {
		failf("open: %v", err)
	}
	return db
}

// at sleeps until the virtual time of the specification, 37ms past a tenth of a second, and 7ms more before a DB is opened.
func (r *runner) at(tenths int, before time.Duration) {
	t := r.base.Add(time.Duration(tenths)*100*time.Millisecond + 37*time.Millisecond - before)
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
}

func copyDir(src, dst string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if err := os.WriteFile(q, b, 0666); err != nil {
			return err
		}
		return os.Chtimes(q, fi.ModTime(), fi.ModTime())
	})
	if err != nil {
		panic("harness: copy: " + err.Error())
	}
}

func (r *runner) newDir() string {
	r.ndir++
	return filepath.Join(r.root, fmt.Sprintf("d%d", r.ndir))
}

func (r *runner) hook(op, name string, data []byte, off int64) {
	if !r.snapOn || r.inHook || !strings.HasPrefix(name, r.dir+"/") {
		return
	}
	kind := op + strings.TrimLeft(filepath.Ext(name), "")
	r.res.Points[kind]++
	if len(r.snaps) >= r.snapMx || r.rng.Float64() >= r.snapP {
		return
	}
	r.inHook = true
	d := r.newDir()
	copyDir(r.dir, d)
	r.snaps = append(r.snaps, snapshot{dir: d, at: kind, seq: r.maxSeq})
	// a write of more than a page may be cut at a page when the process is killed.
	if op == "write" && len(data) > 4096 && r.rng.Intn(2) == 0 {
		d := r.newDir()
		copyDir(r.dir, d)
		cut := (int64(1+r.rng.Intn((len(data)-1)/4096)) * 4096) - off%4096
		if cut > 0 {
			rel, _ := filepath.Rel(r.dir, name)
			f, err := os.OpenFile(filepath.Join(d, rel), os.O_RDWR, 0666)
			if err == nil {
				f.WriteAt(data[:cut], off)
				f.Close()
			}
		}
		r.snaps = append(r.snaps, snapshot{dir: d, at: kind + "-torn", seq: r.maxSeq})
	}
	r.inHook = false
}

func (r *runner) query(p probe, limit int) *unitdb.Query {
	q := unitdb.NewQuery([]byte(topicString(p.T))).WithLimit(limit)
	if p.C != 0 || r.rng.Intn(2) == 0 {
		q.WithContract(contracts[p.C])
	}
	return q
}

func (r *runner) decode(items [][]byte, what string) []int {
	out := make([]int, 0, len(items))
	for _, it := range items {
		n, ok := r.num[string(it)]
		if !ok {
			s := it
			if len(s) > 40 {
				s = s[:40]
			}
			failf("%s: returned a payload that was never put: %q (%d bytes)", what, s, len(it))
		}
		out = append(out, n)
	}
	return out
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(a []int) string {
	if len(a) > 40 {
		return fmt.Sprintf("%v.. (%d)", a[:40], len(a))
	}
	return fmt.Sprint(a)
}

func (r *runner) observe(db *unitdb.DB, i int, what string) []int {
	p := r.t[0].Probes[i]
	items, err := db.Get(r.query(p, 100000))
	if err != nil {
		failf("%s: get %s contract %d: %v", what, topicString(p.T), p.C, err)
	}
	r.res.Checks++
	return r.decode(items, fmt.Sprintf("%s: get %s contract %d", what, topicString(p.T), p.C))
}

// check compares every probe query with the specification.
func (r *runner) check(db *unitdb.DB, o obs, what string) {
	for i, p := range r.t[0].Probes {
		got := r.observe(db, i, what)
		want := o.Q[i]
		if r.c.Ml > 0 && len(want) > r.c.Ml {
			want = want[:r.c.Ml]
		}
		if !equal(got, want) {
			failf("%s: get %s contract %d returned %s, specification %s", what, topicString(p.T), p.C, short(got), short(want))
		}
	}
}

func (r *runner) checkCount(o obs, what string) {
	if r.t[0].Profile == "count" {
		if c := r.db.Count(); c != uint64(o.Count) {
			failf("%s: count is %d, specification %d", what, c, o.Count)
		}
	}
}

func sequence(id []byte) (seq uint64) {
	for i := 7; i >= 0; i-- {
		seq = seq<<8 | uint64(id[8+i])
	}
	return seq
}

// newID records an ID that the DB has handed out.
func (r *runner) newID(n int) []byte {
	id := r.db.NewID()
	r.ids[n] = append([]byte{}, id...)
	if m, ok := r.uids[string(id)]; ok {
		failf("ID of message %d is handed out again for message %d", m, n)
	}
	r.uids[string(id)] = n
	seq := sequence(id)
	if seq <= r.maxSeq {
		failf("ID of message %d does not follow earlier IDs: sequence %d after %d", n, seq, r.maxSeq)
	}
	r.maxSeq = seq
	r.seqs[n] = seq
	return append([]byte{}, id...)
}

func (r *runner) entry(s step) *unitdb.Entry {
	topic := topicString(s.Topic)
	if s.TTL > 0 && s.Var >= 2 {
		if s.Var == 2 {
			topic += fmt.Sprintf("?ttl=%ds", s.TTL)
		} else {
			topic += fmt.Sprintf("?ttl=%d", s.TTL)
		}
	}
	e := unitdb.NewEntry([]byte(topic), []byte(r.payload(s.N, s.Size)))
	if r.last != nil && s.N%3 == 0 {
		// an entry is used again for another message.
		e = r.last.WithPayload(e.Payload)
		e.Topic, e.Contract, e.ExpiresAt, e.Encryption = []byte(topic), 0, 0, false
	}
	r.last = e
	if s.Con != 0 {
		e.WithContract(contracts[s.Con])
	}
	if s.Enc {
		e.WithEncryption()
	}
	r.enc[s.N] = s.Enc || r.c.Enc
	if s.TTL > 0 && s.Var < 2 {
		if s.Var == 0 {
			e.WithTTL(fmt.Sprintf("%ds", s.TTL))
		} else {
			e.WithTTL(fmt.Sprintf("%d", s.TTL))
		}
	}
	return e
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func (r *runner) put(s step, id []byte) {
	e := r.entry(s)
	topic, payload := e.Topic, e.Payload
	var err error
	if id == nil && s.Con == 0 && s.TTL == 0 && !s.Enc && s.Var < 2 {
		err = r.db.Put(topic, payload)
	} else {
		if id != nil {
			e.WithID(id)
		}
		err = r.db.PutEntry(e)
	}
	if err != nil {
		failf("put of message %d: %v", s.N, err)
	}
	// it is safe to modify the contents of the arguments after Put returns.
	scribble(payload)
	scribble(topic)
	scribble(id)
	if id == nil {
		r.putWithoutID(s.N)
	}
}

func (r *runner) putWithoutID(n int) {
	r.maxSeq++
	r.seqs[n] = r.maxSeq
}

func (r *runner) entryFor(s step) *unitdb.Entry {
	return unitdb.NewEntry([]byte(topicString(s.Topic)), nil).WithID(append([]byte{}, r.ids[s.N]...)).WithContract(contracts[s.Con])
}

func (r *runner) del(s step) error {
	if r.ids[s.N] == nil {
		return nil
	}
	if s.Con == 0 && s.N%2 == 0 {
		return r.db.Delete(append([]byte{}, r.ids[s.N]...), []byte(topicString(s.Topic)))
	}
	return r.db.DeleteEntry(r.entryFor(s))
}

var errRollback = errors.New("rollback")

func (r *runner) batch(s step, before obs) {
	puts, encrypted := 0, false
	err := r.db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
		for _, o := range s.Ops {
			switch o.Op {
			case "put":
				puts++
				o.Var = (r.t[0].V + o.N) % 4
				if !o.WithID && o.TTL == 0 && !o.Enc && o.N%2 == 0 {
					c := contracts[o.Con]
					if c == 0 {
						c = 3376684800
					}
					b.SetOptions(unitdb.WithBatchContract(c))
					topic, payload := []byte(topicString(o.Topic)), []byte(r.payload(o.N, o.Size))
					r.enc[o.N] = r.c.Enc || encrypted
					if err := b.Put(topic, payload); err != nil {
						failf("batch put of message %d: %v", o.N, err)
					}
					scribble(topic)
					scribble(payload)
					r.putWithoutID(o.N)
					continue
				}
				e := r.entry(o)
				if o.Enc && o.N%2 == 1 && !encrypted {
					b.SetOptions(unitdb.WithBatchEncryption())
					encrypted = true
				}
				if encrypted {
					r.enc[o.N] = true
					e.Encryption = o.Enc && o.N%4 == 1
				}
				if o.WithID {
					e.WithID(r.newID(o.N))
				}
				topic, payload := e.Topic, e.Payload
				if err := b.PutEntry(e); err != nil {
					failf("batch put of message %d: %v", o.N, err)
				}
				if !o.WithID {
					r.putWithoutID(o.N)
				}
				scribble(topic)
				scribble(payload)
			case "del":
				var err error
				if o.Con == 0 && o.N%2 == 0 {
					err = b.Delete(append([]byte{}, r.ids[o.N]...), []byte(topicString(o.Topic)))
				} else {
					err = b.DeleteEntry(r.entryFor(o))
				}
				if err != nil {
					failf("batch delete of message %d: %v", o.N, err)
				}
			case "look":
				r.check(r.db, before, "before the batch is committed")
			case "write":
				if err := b.Write(); err != nil {
					failf("batch write: %v", err)
				}
			}
		}
		if !s.Commit {
			return errRollback
		}
		return nil
	})
	switch {
	case s.Commit && err != nil:
		failf("batch: %v", err)
	case !s.Commit && err != errRollback:
		failf("batch that is rolled back returned %v", err)
	}
}

func (r *runner) bulk(s step) {
	one := func(i int) step {
		o := s
		o.N = s.N + i
		return o
	}
	if s.Batch == 1 {
		err := r.db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
			for i := 0; i < s.M; i++ {
				e := r.entry(one(i))
				if s.WithID {
					e.WithID(r.newID(s.N + i))
				}
				if err := b.PutEntry(e); err != nil {
					return err
				}
				if !s.WithID {
					r.putWithoutID(s.N + i)
				}
			}
			return nil
		})
		if err != nil {
			failf("batch of %d messages: %v", s.M, err)
		}
		return
	}
	if s.WithID {
		for i := 0; i < s.M; i++ {
			r.put(one(i), r.newID(s.N+i))
		}
		return
	}
	// the same entry is used to put many messages.
	e := r.entry(one(0))
	for i := 0; i < s.M; i++ {
		e.WithPayload([]byte(r.payload(s.N+i, s.Size)))
		r.enc[s.N+i] = r.c.Enc
		if err := r.db.PutEntry(e); err != nil {
			failf("put of message %d: %v", s.N+i, err)
		}
		r.putWithoutID(s.N + i)
	}
}

// putIDs puts messages with IDs that were reserved before.
func (r *runner) putIDs(s step) {
	one := func(n int) step {
		o := s
		o.N = n
		return o
	}
	if s.Batch == 0 {
		for _, n := range s.Ids {
			r.put(one(n), append([]byte{}, r.ids[n]...))
		}
		return
	}
	err := r.db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
		for _, n := range s.Ids {
			if err := b.PutEntry(r.entry(one(n)).WithID(append([]byte{}, r.ids[n]...))); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		failf("batch of %d messages: %v", len(s.Ids), err)
	}
}

// refused tries to open a DB that is open, or with bad options, or that is damaged.
func (r *runner) refused(dir string, v int, open bool) {
	opts, what := r.options(r.c.Enc, r.c.Mutable), "open of an open DB"
	info := filepath.Join(dir, "unitdb.info")
	if !open {
		b, err := os.ReadFile(info)
		if v%2 == 1 && err == nil && len(b) > 0 {
			what = "open of a DB with a bad signature"
			b[0]++
			if err := os.WriteFile(info, b, 0666); err != nil {
				panic(err)
			}
			defer func() {
				b[0]--
				if err := os.WriteFile(info, b, 0666); err != nil {
					panic(err)
				}
			}()
		} else {
			what = "open with a bad encryption key"
			opts = append(opts, unitdb.WithEncryptionKey([]byte("short")))
		}
	}
	db, err := unitdb.Open(dir, opts...)
	if err == nil {
		db.Close()
	}
	mustErr(err, what)
}

func mustErr(err error, what string) {
	if err == nil {
		failf("%s returned no error", what)
	}
}

var badIDs = [][]byte{{1}, bytes.Repeat([]byte{1}, 8), bytes.Repeat([]byte{1}, 15), bytes.Repeat([]byte{1}, 17), make([]byte, 16),
	append(bytes.Repeat([]byte{1}, 8), make([]byte, 8)...)}

// batchErr makes sure that a batch that is of no use anymore refuses every call.
func batchErr(b *unitdb.Batch, what string) {
	mustErr(b.Put([]byte("a.b"), []byte("v")), "put: "+what)
	mustErr(b.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("v")).WithContract(7)), "put entry: "+what)
	mustErr(b.Delete(bytes.Repeat([]byte{1}, 16), []byte("a.b")), "delete: "+what)
	mustErr(b.Write(), "write: "+what)
	mustErr(b.Commit(), "commit: "+what)
	b.Abort()
}

// closeInside closes the DB within a batch.
func (r *runner) closeInside(s step) {
	var left *unitdb.Batch
	err := r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
		left = b
		if err := b.PutEntry(r.entry(s)); err != nil {
			return err
		}
		r.putWithoutID(s.N)
		if s.Var == 1 {
			if err := b.Write(); err != nil {
				return err
			}
		}
		if err := r.db.Close(); err != nil {
			failf("close within a batch: %v", err)
		}
		mustErr(b.Put([]byte("a.b"), []byte("v")), "batch put after close")
		mustErr(b.Delete(bytes.Repeat([]byte{1}, 16), []byte("a.b")), "batch delete after close")
		mustErr(b.Write(), "batch write after close")
		return nil
	})
	mustErr(err, "commit of a batch after close")
	batchErr(left, "batch of a closed DB")
}

func (r *runner) bad(s step) {
	long := bytes.Repeat([]byte("x"), 1<<16+1)
	switch s.Var {
	case 0:
		mustErr(r.db.Put(nil, []byte("v")), "put without a topic")
	case 1:
		mustErr(r.db.Put([]byte("a.b"), nil), "put without a payload")
	case 2:
		mustErr(r.db.Put(long, []byte("v")), "put with a topic that is too long")
	case 3:
		_, err := r.db.Get(unitdb.NewQuery(nil))
		mustErr(err, "get without a topic")
	case 4:
		_, err := r.db.Get(unitdb.NewQuery(long))
		mustErr(err, "get with a topic that is too long")
	case 5:
		mustErr(r.db.Delete(nil, []byte("a.b")), "delete without an ID")
	case 6:
		mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put(nil, []byte("v")) }), "batch put without a topic")
	case 7:
		mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put([]byte("a.b"), nil) }), "batch put without a payload")
	case 8:
		for _, id := range badIDs {
			mustErr(r.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("v")).WithID(id)), "put with an invalid ID")
		}
	case 9:
		for _, id := range badIDs {
			mustErr(r.db.Delete(id, []byte("a.b")), "delete with an invalid ID")
		}
	case 10:
		for _, id := range badIDs {
			mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
				return b.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("v")).WithID(id))
			}), "batch put with an invalid ID")
			mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Delete(id, []byte("a.b")) }), "batch delete with an invalid ID")
		}
	case 11:
		mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put(long, []byte("v")) }), "batch put with a topic that is too long")
		mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Delete(nil, []byte("a.b")) }), "batch delete without an ID")
	case 12:
		// a batch is used after it is complete.
		var left *unitdb.Batch
		fail := errors.New("fail")
		if err := r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { left = b; return fail }); err != fail {
			failf("batch: %v, not the error of the function", err)
		}
		batchErr(left, "batch that was rolled back")
		if err := r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { left = b; return nil }); err != nil {
			failf("batch of nothing: %v", err)
		}
		batchErr(left, "batch that was committed")
	case 13:
		mustErr(r.db.Delete(bytes.Repeat([]byte{1}, 16), nil), "delete without a topic")
		mustErr(r.db.Delete(bytes.Repeat([]byte{1}, 16), long), "delete with a topic that is too long")
	}
}

func (r *runner) closedOp(s step) {
	id := make([]byte, 16)
	id[8] = 1
	switch s.Var {
	case 0:
		_, err := r.db.Get(unitdb.NewQuery([]byte("a.b")).WithLimit(10))
		mustErr(err, "get on a closed DB")
	case 1:
		mustErr(r.db.Put([]byte("a.b"), []byte("v")), "put on a closed DB")
	case 2:
		mustErr(r.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("v")).WithContract(7)), "put entry on a closed DB")
	case 3:
		mustErr(r.db.Delete(id, []byte("a.b")), "delete on a closed DB")
	case 4:
		mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put([]byte("a.b"), []byte("v")) }), "batch on a closed DB")
	case 5:
		mustErr(r.db.Sync(), "sync of a closed DB")
	case 6:
		mustErr(r.db.Close(), "second close")
	case 7:
		_, err := r.db.FileSize()
		mustErr(err, "file size of a closed DB")
	case 8:
		r.db.Count()
	case 9:
		mustErr(r.db.DeleteEntry(unitdb.NewEntry([]byte("a.b"), nil).WithID(id)), "delete entry on a closed DB")
	}
}

// badKey opens a copy of the DB with another key.
func (r *runner) badKey(o obs) {
	d := r.newDir()
	copyDir(r.dir, d)
	defer os.RemoveAll(d)
	db, err := unitdb.Open(d, append(r.options(r.c.Enc, r.c.Mutable), unitdb.WithEncryptionKey([]byte(key2)))...)
	if err != nil {
		return
	}
	defer db.Close()
	for i, p := range r.t[0].Probes {
		all := true
		any := false
		for _, n := range o.Q[i] {
			all = all && r.enc[n]
			any = any || r.enc[n]
		}
		if !any {
			continue
		}
		items, err := db.Get(r.query(p, 100000))
		r.res.Checks++
		if err == nil {
			failf("get %s with another key returned no error", topicString(p.T))
		}
		for _, it := range items {
			if n, ok := r.num[string(it)]; !ok || r.enc[n] {
				failf("get %s with another key returned an encrypted message %q", topicString(p.T), it)
			}
		}
	}
}

// secrets looks for the text of encrypted messages in the files of the DB.
func (r *runner) secrets(what string) {
	var files [][]byte
	var names []string
	filepath.Walk(r.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			files = append(files, b)
			names = append(names, p)
		}
		return nil
	})
	for n, t := range r.text {
		if !r.enc[n] || len(t) < 24 || len(t) > 2000 {
			continue
		}
		r.res.Checks++
		// the first bytes of a stored value are its nonce.
		for i, f := range files {
			if bytes.Contains(f, []byte(t[len(t)-16:])) {
				failf("%s: text of encrypted message %d is in file %s", what, n, filepath.Base(names[i]))
			}
		}
	}
}

func contains(a []int, n int) bool {
	for _, x := range a {
		if x == n {
			return true
		}
	}
	return false
}

// groups of puts that are written together by the batch of a step.
func groups(s step) [][]int {
	var gs [][]int
	if s.Op == "bulk" && s.Batch == 1 {
		var g []int
		for i := 0; i < s.M; i++ {
			g = append(g, s.N+i)
		}
		return append(gs, g)
	}
	if s.Op != "batch" || !s.Commit {
		return nil
	}
	var g []int
	for _, o := range s.Ops {
		switch o.Op {
		case "put":
			g = append(g, o.N)
		case "write":
			gs = append(gs, g)
			g = nil
		}
	}
	return append(gs, g)
}

// checkSnapshots opens the DB as it was on disk at each crash point of the step.
func (r *runner) checkSnapshots(i int) {
	snaps := r.snaps
	r.snaps = nil
	prev, cur := r.t[i-1].O, r.t[i].O
	for si, s := range snaps {
		what := fmt.Sprintf("crash at %s during %s", s.at, r.t[i].Op)
		r.res.Snapshots++
		db, err := unitdb.Open(s.dir, r.options(r.c.Enc, r.c.Mutable)...)
		if err != nil {
			failf("%s: open: %v", what, err)
		}
		found := map[int]bool{}
		var state [][]int
		for pi, p := range r.t[0].Probes {
			got := r.observe(db, pi, what)
			state = append(state, got)
			for x := range got {
				if x > 0 && got[x] >= got[x-1] {
					failf("%s: get %s contract %d returned %s, not most recent first and each once", what, topicString(p.T), p.C, short(got))
				}
				found[got[x]] = true
				if !contains(prev.Hi[pi], got[x]) && !contains(cur.Hi[pi], got[x]) {
					failf("%s: get %s contract %d returned %s with message %d that was not put, or was deleted before: specification %s..%s", what, topicString(p.T), p.C, short(got), got[x], short(prev.Hi[pi]), short(cur.Hi[pi]))
				}
			}
			for _, n := range prev.Lo[pi] {
				if contains(cur.Lo[pi], n) && !contains(got, n) {
					failf("%s: get %s contract %d returned %s without message %d: specification %s..%s", what, topicString(p.T), p.C, short(got), n, short(prev.Lo[pi]), short(cur.Lo[pi]))
				}
			}
		}
		for _, g := range groups(r.t[i]) {
			have := 0
			cover := 0
			for _, n := range g {
				vis := false
				for pi := range r.t[0].Probes {
					vis = vis || contains(cur.Q[pi], n)
				}
				if vis {
					cover++
					if found[n] {
						have++
					}
				}
			}
			if have != 0 && have != cover {
				failf("%s: %d of %d messages of the batch are found", what, have, cover)
			}
		}
		// the probes see every message of these profiles.
		switch r.t[0].Profile {
		case "crash", "batchcrash", "uidcrash":
			if n := db.Count(); n != uint64(len(found)) {
				failf("%s: the count is %d, and there are %d messages", what, n, len(found))
			}
			r.res.Checks++
		}
		if seq := sequence(db.NewID()); seq <= s.seq {
			failf("%s: ID is handed out again: sequence %d after %d", what, seq, s.seq)
		}
		r.continueFrom(db, s.dir, state, what, si)
		os.RemoveAll(s.dir)
	}
}

// continueFrom uses the DB after a crash: it puts, syncs, closes and opens again.
func (r *runner) continueFrom(db *unitdb.DB, dir string, state [][]int, what string, si int) {
	p0 := r.t[0].Probes[0]
	concrete := func() bool {
		for _, l := range p0.T {
			if l == "*" || l == "..." {
				return false
			}
		}
		return true
	}()
	if !concrete {
		db.Close()
		return
	}
	extra := 1000000 + si
	var marks []int
	for j := 0; j < 2; j++ {
		n := extra*10 + j
		marks = append([]int{n}, marks...)
		e := unitdb.NewEntry([]byte(topicString(p0.T)), []byte(r.payload(n, "s")))
		if p0.C != 0 {
			e.WithContract(contracts[p0.C])
		}
		if err := db.PutEntry(e); err != nil {
			failf("%s, then put: %v", what, err)
		}
	}
	verify := func(w string) {
		for pi, p := range r.t[0].Probes {
			want := state[pi]
			if pi == 0 {
				want = append(append([]int{}, marks...), want...)
			}
			got := r.observe(db, pi, what+w)
			if !equal(got, want) {
				failf("%s%s: get %s contract %d returned %s, it was %s", what, w, topicString(p.T), p.C, short(got), short(want))
			}
		}
	}
	verify(", then put")
	if si%2 == 0 {
		time.Sleep(1200 * time.Millisecond)
		if err := db.Sync(); err != nil {
			failf("%s, then sync: %v", what, err)
		}
		verify(", then sync")
	}
	if err := db.Close(); err != nil {
		failf("%s, then close: %v", what, err)
	}
	var err error
	db, err = unitdb.Open(dir, r.options(r.c.Enc, r.c.Mutable)...)
	if err != nil {
		failf("%s, then open again: %v", what, err)
	}
	verify(", then opened again")
	db.Close()
}

func (r *runner) query1(s step) {
	topic := topicString(s.Topic)
	if s.Last < 0 {
		topic += fmt.Sprintf("?last=%d", -s.Last)
	} else if s.Last > 0 && s.Var == 0 {
		topic += fmt.Sprintf("?last=%ds", s.Last)
	}
	q := unitdb.NewQuery([]byte(topic))
	if s.Con != 0 {
		q.WithContract(contracts[s.Con])
	}
	if s.Limit > 0 {
		q.WithLimit(s.Limit)
	}
	if s.Last > 0 && s.Var == 1 && s.Limit > 0 {
		q.WithLast(fmt.Sprintf("%ds", s.Last))
	} else if s.Last > 0 && s.Var == 1 {
		q.Topic = []byte(topic + fmt.Sprintf("?last=%ds", s.Last))
	}
	items, err := r.db.Get(q)
	what := fmt.Sprintf("get %s contract %d limit %d last %d", topic, s.Con, s.Limit, s.Last)
	if err != nil {
		failf("%s: %v", what, err)
	}
	r.res.Checks++
	got := r.decode(items, what)
	if !equal(got, s.Want) {
		failf("%s returned %s, specification %s", what, short(got), short(s.Want))
	}
}

func (r *runner) step(i int) {
	s := r.t[i]
	r.res.Ops[s.Op]++
	switch s.Op {
	case "put":
		r.put(s, nil)
	case "newid":
		r.newID(s.N)
	case "putid":
		r.put(s, append([]byte{}, r.ids[s.N]...))
	case "bulk":
		r.bulk(s)
	case "newids":
		for i := 0; i < s.M; i++ {
			r.newID(s.N + i)
		}
	case "putids":
		r.putIDs(s)
	case "get":
		r.query1(s)
	case "adv":
		r.at(s.At, 0)
	case "sync":
		if err := r.db.Sync(); err != nil {
			failf("sync: %v", err)
		}
	case "del":
		if err := r.del(s); err != nil {
			failf("delete of message %d: %v", s.N, err)
		}
	case "bulkdel":
		for _, d := range s.Del {
			if err := r.del(d); err != nil {
				failf("delete of message %d: %v", d.N, err)
			}
		}
	case "redel":
		r.del(s) // the message is already deleted
	case "batch":
		r.batch(s, r.t[i-1].O)
	case "close":
		if err := r.db.Close(); err != nil {
			failf("close: %v", err)
		}
	case "closein":
		r.closeInside(s)
	case "badkey":
		if err := r.db.Close(); err != nil {
			failf("close: %v", err)
		}
		r.badKey(s.O)
	case "refused":
		r.refused(r.dir, s.Var, s.Open)
	case "open":
		time.Sleep(2 * time.Millisecond) // the log writer does not tick when the next steps are run
		r.db = r.open(r.dir)
	case "crash":
		d := r.newDir()
		copyDir(r.dir, d)
		old, oldDir := r.db, r.dir
		r.snapOn = false
		old.Close()
		os.RemoveAll(oldDir)
		r.snaps = nil
		r.dir = d
		r.snapOn = r.t[0].Crash
		time.Sleep(2 * time.Millisecond)
		for i := 0; i < 2; i++ {
			if s.Var>>i&1 == 1 {
				r.refused(d, i, false)
			}
		}
		r.db = r.open(d)
	case "bad":
		if s.Var == 5 && !r.c.Mutable {
			id := make([]byte, 16)
			id[8] = 1
			mustErr(r.db.Delete(id, []byte("a.b")), "delete from an immutable DB")
			mustErr(r.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Delete(id, []byte("a.b")) }), "batch delete from an immutable DB")
			return
		}
		r.bad(s)
	case "closedop":
		r.closedOp(s)
	default:
		panic("harness: unknown op " + s.Op)
	}
}

func (r *runner) run() (err error) {
	r.c = r.t[0].Cfg
	r.v = int64(r.t[0].V)
	names = levelNames[r.v%int64(len(levelNames))]
	cur := 0
	defer func() {
		r.res.Step = cur
		if x := recover(); x != nil {
			if m, ok := x.(mismatch); ok {
				err = errors.New(m.msg)
				return
			}
			panic(x)
		}
	}()
	if r.t[0].Crash {
		r.res.Points = map[string]int{}
		unitdb.VerifHook = r.hook
		wal.VerifHook = func(op, name string) { r.hook(op, name, nil, 0) }
		defer func() { unitdb.VerifHook = nil; wal.VerifHook = nil }()
	}
	// the clock starts on a full second.
	r.base = time.Now().Truncate(time.Second).Add(time.Second)
	r.at(0, 7*time.Millisecond)
	r.dir = r.newDir()
	r.db = r.open(r.dir)
	r.at(0, 0)
	r.snapOn = r.t[0].Crash
	sparse := r.t[0].V%3 == 0
	for i := 1; i < len(r.t); i++ {
		cur = i
		s := r.t[i]
		r.step(i)
		r.res.Steps++
		if len(r.snaps) > 0 {
			snapOn := r.snapOn
			r.snapOn = false
			t0 := time.Now()
			r.checkSnapshots(i)
			// the time it took is not a time of the specification.
			if d := time.Since(t0); d > 0 {
				d = d.Truncate(time.Second) + time.Second
				r.base = r.base.Add(d)
				r.at(s.At, 0)
			}
			r.snapOn = snapOn
		}
		if !s.Open {
			continue
		}
		r.checkCount(s.O, s.Op)
		if sparse && i != len(r.t)-1 && r.rng.Intn(5) != 0 {
			continue
		}
		r.check(r.db, s.O, "after "+s.Op)
		if r.t[0].Profile == "enc" && (i%7 == 0 || s.Op == "sync") {
			r.secrets("after " + s.Op)
		}
	}
	if r.t[0].Profile == "enc" {
		r.secrets("at the end")
	}
	r.snapOn = false
	if r.t[len(r.t)-1].Open {
		if err := r.db.Close(); err != nil {
			return fmt.Errorf("close: %v", err)
		}
	}
	return nil
}

func TestReplay(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	var snapP float64 = 0.15
	snapMx := 12
	if os.Getenv("VERIF_DEEP") != "" {
		snapP, snapMx = 1, 400
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "store")
	if err != nil {
		t.Fatal(err)
	}
	w := json.NewEncoder(f)
	only := os.Getenv("VERIF_ONLY")
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(30 * 365 * 24 * time.Hour)
		for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			if only != "" && only != fmt.Sprint(idx) {
				continue
			}
			var tr []step
			if err := json.Unmarshal([]byte(line), &tr); err != nil {
				fmt.Println("HARNESS", err)
				os.Exit(3)
			}
			empty := make([][]int, len(tr[0].Probes))
			tr[0].O = obs{Q: empty, Lo: empty, Hi: empty}
			h := fnv.New64()
			h.Write([]byte(line))
			res := &result{Index: idx, OK: true, Ops: map[string]int{}}
			fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
			root := filepath.Join(scratch, fmt.Sprint(idx))
			os.MkdirAll(root, 0777)
			r := &runner{t: tr, root: root, ids: map[int][]byte{}, text: map[int]string{}, num: map[string]int{}, enc: map[int]bool{}, res: res,
				rng: rand.New(rand.NewSource(int64(h.Sum64()))), snapP: snapP, snapMx: snapMx, uids: map[string]int{}, seqs: map[int]uint64{}}
			if err := r.run(); err != nil {
				res.OK = false
				res.Msg = err.Error()
				if r.db != nil {
					func() { defer func() { recover() }(); r.db.Close() }()
				}
			}
			os.RemoveAll(root)
			w.Encode(res)
		}
		f.Close()
		os.RemoveAll(scratch)
		os.Exit(0)
	})
}
