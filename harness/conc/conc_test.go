// Package conc runs many goroutines on the real DB and memdb and records the history of their calls. The history is judged by the
// specification (spec/History.tla), and not here.
package conc

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/wal"
)

const inf = int64(1) << 62

// clock reads the real clock. It does not synchronize goroutines, so that it does not hide a data race.
func clock() int64 {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Sec*1e9 + ts.Nsec
}

type config struct {
	Mode  string `json:"mode"` // db, mem
	Seed  int64  `json:"seed"`
	Gor   int    `json:"gor"`   // goroutines
	Burst int    `json:"burst"` // calls between two sleeps
	Calls int    `json:"calls"` // calls of a goroutine in a round
	Delay int    `json:"delay"` // a file change in 0..100 is delayed
	Enc   bool   `json:"enc"`
	Close bool   `json:"close"` // the store is closed while it is used
	Sync  bool   `json:"sync"`  // calls of Sync by goroutines
	Free  int    `json:"free"`
	Limit bool   `json:"limit"`
}

// message of the history; times are of the real clock until they are ranked.
type msg struct {
	N     int64    `json:"n"`   // its name, which is part of its payload
	T     int      `json:"t"`   // topic it is stored under, or its key
	S     [2]int64 `json:"s"`   // its sequence was assigned between those
	V     [2]int64 `json:"v"`   // it was added between those; end is inf if the call failed
	Dur   bool     `json:"dur"` // it is durable once the call has returned
	id    []byte
	wr    string
	idPut bool
}

type del struct {
	Ms []int64  `json:"ms"`
	D  [2]int64 `json:"d"`
	K  int      `json:"k"` // 0 delete, 1 rollback, 2 release, 4 release of what may be in the block too
}

type get struct {
	G   [2]int64 `json:"g"`
	Q   int      `json:"q"`
	Lim int      `json:"lim"`
	Res []int64  `json:"res"`
}

type newid struct {
	I [2]int64 `json:"i"`
	N int64    `json:"n"`
}

type count struct {
	C [2]int64 `json:"c"`
	N int64    `json:"n"`
}

type history struct {
	Mode   string         `json:"mode"`
	Msgs   []*msg         `json:"msgs"`
	Dels   []del          `json:"dels"`
	Gets   []get          `json:"gets"`
	IDs    []newid        `json:"ids"`
	Counts []count        `json:"counts"`
	Match  [][]int        `json:"match"` // topics that a query finds
	Final  count          `json:"final"` // Count when nothing else happens
	Crash  int64          `json:"crash"`
	Errs   []string       `json:"errs"`
	Bats   [][]int64      `json:"bats"` // batches that were in progress when the process was killed
	Ops    map[string]int `json:"-"`
}

// ranks replaces the times by their rank. A call that begins when another ends is concurrent with it.
func (h *history) ranks() {
	type ref struct {
		p   *int64
		end bool
	}
	var all []ref
	add := func(p *[2]int64) { all = append(all, ref{&p[0], false}, ref{&p[1], true}) }
	for _, m := range h.Msgs {
		add(&m.S)
		add(&m.V)
	}
	for i := range h.Dels {
		add(&h.Dels[i].D)
	}
	for i := range h.Gets {
		add(&h.Gets[i].G)
	}
	for i := range h.IDs {
		add(&h.IDs[i].I)
	}
	for i := range h.Counts {
		add(&h.Counts[i].C)
	}
	add(&h.Final.C)
	all = append(all, ref{&h.Crash, true})
	sort.SliceStable(all, func(i, j int) bool {
		if *all[i].p != *all[j].p {
			return *all[i].p < *all[j].p
		}
		return !all[i].end && all[j].end
	})
	for i, r := range all {
		switch {
		case *r.p == inf:
			*r.p = 1000000000
		case *r.p == 0:
		default:
			*r.p = int64(i + 1)
		}
	}
}

// worker records the calls of a goroutine.
type worker struct {
	g      int
	rng    *rand.Rand
	c      config
	h      history
	n      int64
	own    []*msg // messages of the goroutine with an ID
	shared []*msg // messages of earlier rounds with an ID
	closed bool
	ops    map[string]int
}

func (w *worker) name() int64 {
	w.n++
	return int64(w.g)*100000 + w.n
}

func (w *worker) fail(op string, err error) bool {
	if err == nil {
		return false
	}
	if w.c.Close {
		w.closed = true
		return true
	}
	w.h.Errs = append(w.h.Errs, op+": "+err.Error())
	return true
}

var pads = []int{0, 0, 3, 40, 40, 300, 300, 1500, 6000}

func (w *worker) payload(n int64) []byte {
	p := pads[w.rng.Intn(len(pads))]
	b := make([]byte, 0, p+16)
	b = append(b, fmt.Sprintf("m%d:", n)...)
	for i := 0; i < p; i++ {
		b = append(b, byte(int(n)*7+i*i))
	}
	return b
}

func parse(b []byte) int64 {
	s := string(b)
	i := strings.IndexByte(s, ':')
	if len(s) < 3 || s[0] != 'm' || i < 0 {
		return -1
	}
	n, err := strconv.ParseInt(s[1:i], 10, 64)
	if err != nil {
		return -1
	}
	for j := range b[i+1:] {
		if b[i+1+j] != byte(int(n)*7+j*j) {
			return -1
		}
	}
	return n
}

// topics that messages are stored under.
type topic struct {
	name string
	con  uint32
}

var stored = []topic{{"a.b", 0}, {"a.c", 0}, {"a.*", 0}, {"a.b", 77}, {"n.1", 0}, {"n.2", 0}, {"n.3", 0}, {"n.4", 0}, {"n.5", 0}, {"n.6", 0},
	{"n.7", 0}, {"n.8", 0}, {"n.9", 77}, {"n.10", 77}}

// queries and the topics they find.
var queries = []topic{{"a.b", 0}, {"a.c", 0}, {"a.b", 77}, {"n.1", 0}, {"n.2", 0}, {"n.3", 0}, {"n.4", 0}, {"n.5", 0}, {"n.6", 0}, {"n.7", 0}, {"n.8", 0}, {"n.9", 77}, {"n.10", 77}}
var match = [][]int{{0, 2}, {1, 2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}}

var errRollback = errors.New("rollback")

func entry(t topic, payload []byte) *unitdb.Entry {
	e := unitdb.NewEntry([]byte(t.name), payload)
	if t.con != 0 {
		e.WithContract(t.con)
	}
	return e
}

func (w *worker) topic() int {
	if w.rng.Intn(3) == 0 {
		return w.rng.Intn(len(stored))
	}
	return w.rng.Intn(5)
}

func (w *worker) newID(db *unitdb.DB) ([]byte, [2]int64) {
	t0 := clock()
	id := db.NewID()
	t1 := clock()
	w.h.IDs = append(w.h.IDs, newid{[2]int64{t0, t1}, int64(message.ID(id).Sequence())})
	return id, [2]int64{t0, t1}
}

func (w *worker) pick() *msg {
	if len(w.shared) > 0 && w.rng.Intn(2) == 0 {
		return w.shared[w.rng.Intn(len(w.shared))]
	}
	if len(w.own) > 0 {
		return w.own[w.rng.Intn(len(w.own))]
	}
	return nil
}

func (w *worker) get(db *unitdb.DB, q int, lim int) {
	qu := unitdb.NewQuery([]byte(queries[q].name))
	if queries[q].con != 0 {
		qu.WithContract(queries[q].con)
	}
	qu.WithLimit(lim)
	t0 := clock()
	items, err := db.Get(qu)
	t1 := clock()
	if w.fail("get", err) {
		return
	}
	g := get{G: [2]int64{t0, t1}, Q: q, Lim: lim, Res: []int64{}}
	for _, it := range items {
		g.Res = append(g.Res, parse(it))
	}
	w.h.Gets = append(w.h.Gets, g)
}

func (w *worker) dbCall(db *unitdb.DB) {
	switch r := w.rng.Intn(100); {
	case r < 30: // put
		w.ops["put"]++
		m := &msg{N: w.name(), T: w.topic()}
		e := entry(stored[m.T], w.payload(m.N))
		t0 := clock()
		err := db.PutEntry(e)
		t1 := clock()
		if w.fail("put", err) {
			t1 = inf
		}
		m.S, m.V = [2]int64{t0, t1}, [2]int64{t0, t1}
		w.h.Msgs = append(w.h.Msgs, m)
	case r < 45: // put with an ID
		w.ops["putid"]++
		m := &msg{N: w.name(), T: w.topic()}
		e := entry(stored[m.T], w.payload(m.N))
		m.id, m.S = w.newID(db)
		e.WithID(append([]byte(nil), m.id...))
		t0 := clock()
		err := db.PutEntry(e)
		t1 := clock()
		if w.fail("putid", err) {
			t1 = inf
		}
		m.V = [2]int64{t0, t1}
		w.h.Msgs = append(w.h.Msgs, m)
		if err == nil {
			w.own = append(w.own, m)
		}
	case r < 60: // batch
		w.batch(db)
	case r < 72: // delete
		w.ops["delete"]++
		m := w.pick()
		if m == nil {
			return
		}
		e := entry(stored[m.T], nil).WithID(append([]byte(nil), m.id...))
		t0 := clock()
		err := db.DeleteEntry(e)
		t1 := clock()
		if w.fail("delete", err) {
			t1 = inf
		}
		w.h.Dels = append(w.h.Dels, del{[]int64{m.N}, [2]int64{t0, t1}, 0})
	case r < 94:
		w.ops["get"]++
		lim := 100000
		if w.c.Limit && w.rng.Intn(3) == 0 {
			lim = 1 + w.rng.Intn(8)
		}
		q := w.rng.Intn(4)
		if w.rng.Intn(4) == 0 {
			q = w.rng.Intn(len(queries))
		}
		w.get(db, q, lim)
	case r < 97:
		w.ops["count"]++
		t0 := clock()
		n := db.Count()
		t1 := clock()
		w.h.Counts = append(w.h.Counts, count{[2]int64{t0, t1}, int64(n)})
	default:
		if !w.c.Sync {
			return
		}
		w.ops["sync"]++
		w.fail("sync", db.Sync())
		w.ops["filesize"]++
		_, err := db.FileSize()
		w.fail("filesize", err)
	}
}

func (w *worker) batch(db *unitdb.DB) {
	n := 1 + w.rng.Intn(5)
	rollback := w.rng.Intn(4) == 0
	var ms []*msg
	var dels []int64
	var dbeg int64
	vis := inf
	wrote := 0
	err := db.Batch(func(b *unitdb.Batch, complete <-chan struct{}) error {
		for i := 0; i < n; i++ {
			m := &msg{N: w.name(), T: w.topic()}
			e := entry(stored[m.T], w.payload(m.N))
			if w.rng.Intn(2) == 0 {
				m.id, m.S = w.newID(db)
				e.WithID(append([]byte(nil), m.id...))
			}
			t0 := clock()
			err := b.PutEntry(e)
			t1 := clock()
			if m.id == nil {
				m.S = [2]int64{t0, t1}
			}
			m.V = [2]int64{inf, inf}
			ms = append(ms, m)
			if err != nil {
				return err
			}
			if w.rng.Intn(6) == 0 && !rollback {
				if d := w.pick(); d != nil {
					if dbeg == 0 {
						dbeg = clock()
					}
					if err := b.DeleteEntry(entry(stored[d.T], nil).WithID(append([]byte(nil), d.id...))); err != nil {
						return err
					}
					dels = append(dels, d.N)
				}
			}
			if w.rng.Intn(5) == 0 {
				// written messages can be seen.
				vis = clock()
				for _, m := range ms[wrote:] {
					m.V[0] = vis
				}
				wrote = len(ms)
				if err := b.Write(); err != nil {
					return err
				}
			}
			if w.rng.Intn(3) == 0 {
				runtime.Gosched()
			}
		}
		vis = clock()
		if rollback {
			return errRollback
		}
		for _, m := range ms[wrote:] {
			m.V[0] = vis
		}
		return nil
	})
	t1 := clock()
	if rollback && err == errRollback {
		w.ops["rollback"]++
		var names []int64
		for _, m := range ms {
			names = append(names, m.N)
		}
		if names != nil {
			w.h.Dels = append(w.h.Dels, del{names, [2]int64{vis, t1}, 1})
		}
	} else {
		w.ops["commit"]++
		ok := !w.fail("batch", err)
		for _, m := range ms {
			if ok {
				m.V[1] = t1
				if m.id != nil {
					w.own = append(w.own, m)
				}
			} else if m.V[0] == inf {
				m.V[0] = vis
			}
		}
		if len(dels) > 0 {
			if !ok {
				t1 = inf
			}
			w.h.Dels = append(w.h.Dels, del{dels, [2]int64{dbeg, t1}, 0})
		}
	}
	w.h.Msgs = append(w.h.Msgs, ms...)
}

// memCall is a call on memdb; each key is put once or, if it is one of the first, many times and never in a batch.
func (w *worker) memCall(db *memdb.DB, key *uint64) {
	const sharedKeys = 6
	put := func(k int, do func(payload []byte) error) *msg {
		m := &msg{N: w.name(), T: k}
		p := w.payload(m.N)
		t0 := clock()
		err := do(p)
		t1 := clock()
		if err != nil && strings.Contains(err.Error(), "forbidden") {
			// the current block was freed.
			err = nil
			t1 = inf
		}
		if w.fail("put", err) {
			t1 = inf
		}
		m.S, m.V = [2]int64{t0, t1}, [2]int64{t0, t1}
		w.h.Msgs = append(w.h.Msgs, m)
		w.own = append(w.own, m)
		return m
	}
	fresh := func() int {
		*key++
		return int(*key)
	}
	any := func() int {
		if w.rng.Intn(2) == 0 {
			return w.rng.Intn(sharedKeys)
		}
		if m := w.pick(); m != nil {
			return m.T
		}
		return w.rng.Intn(sharedKeys)
	}
	switch r := w.rng.Intn(100); {
	case r < 35:
		w.ops["put"]++
		k := fresh()
		if w.rng.Intn(2) == 0 {
			k = w.rng.Intn(sharedKeys)
		}
		put(k, func(p []byte) error { _, err := db.Put(uint64(k), p); return err })
	case r < 50:
		n := 1 + w.rng.Intn(4)
		rollback := w.rng.Intn(4) == 0
		var ms []*msg
		vis := inf
		err := db.Batch(func(b *memdb.Batch, complete <-chan struct{}) error {
			for i := 0; i < n; i++ {
				m := &msg{N: w.name(), T: fresh()}
				m.S = [2]int64{clock(), inf}
				m.V = [2]int64{clock(), inf}
				ms = append(ms, m)
				if err := b.Put(uint64(m.T), w.payload(m.N)); err != nil {
					return err
				}
				if w.rng.Intn(4) == 0 {
					if err := b.Write(); err != nil {
						return err
					}
				}
			}
			vis = clock()
			if rollback {
				return errRollback
			}
			return nil
		})
		t1 := clock()
		if rollback && err == errRollback {
			w.ops["rollback"]++
			var names []int64
			for _, m := range ms {
				names = append(names, m.N)
			}
			w.h.Dels = append(w.h.Dels, del{names, [2]int64{vis, t1}, 1})
		} else {
			w.ops["commit"]++
			if !w.fail("batch", err) {
				for _, m := range ms {
					m.S[1], m.V[1] = t1, t1
				}
				w.own = append(w.own, ms...)
			}
		}
		w.h.Msgs = append(w.h.Msgs, ms...)
	case r < 62:
		w.ops["delete"]++
		k := any()
		t0 := clock()
		err := db.Delete(uint64(k))
		t1 := clock()
		if err != nil && !strings.Contains(err.Error(), "does not exist") {
			w.fail("delete", err)
			t1 = inf
		}
		// messages of the key are known once the run is over.
		w.h.Dels = append(w.h.Dels, del{[]int64{-int64(k) - 1}, [2]int64{t0, t1}, 0})
	case r < 92:
		w.ops["get"]++
		k := any()
		w.memGet(db, k)
	case r < 95:
		w.ops["keys"]++
		db.Keys()
		db.Size()
	default:
		if w.g != 0 || !w.c.Sync {
			return
		}
		// the blocks are taken from memdb, as it is done by Sync of the DB.
		w.ops["free"]++
		err := db.BlockIterator(func(timeID int64, keys []uint64) (bool, error) {
			var ms []int64
			t0 := clock()
			for _, k := range keys {
				b, err := db.Lookup(timeID, k)
				if err != nil && strings.Contains(err.Error(), "does not exist") {
					// it is deleted.
					continue
				}
				if err != nil {
					return true, err
				}
				n := parse(b)
				ms = append(ms, n)
				w.h.Gets = append(w.h.Gets, get{G: [2]int64{t0, clock()}, Q: int(k), Lim: 0, Res: []int64{n}})
			}
			if err := db.Free(timeID); err != nil && !strings.Contains(err.Error(), "does not exist") {
				return true, err
			}
			w.h.Dels = append(w.h.Dels, del{ms, [2]int64{t0, clock()}, 2})
			return false, nil
		})
		w.fail("free", err)
	}
}

func (w *worker) memGet(db *memdb.DB, k int) {
	t0 := clock()
	b, err := db.Get(uint64(k))
	t1 := clock()
	g := get{G: [2]int64{t0, t1}, Q: k, Lim: 1, Res: []int64{}}
	if err == nil {
		g.Res = append(g.Res, parse(b))
	} else if !strings.Contains(err.Error(), "does not exist") {
		w.fail("get", err)
		return
	}
	w.h.Gets = append(w.h.Gets, g)
}

// pause sleeps until one of the next moments at which the DB does something by itself, or a bit before or after it.
func (w *worker) pause() {
	now := time.Now()
	next := now.Truncate(50 * time.Millisecond).Add(time.Duration(1+w.rng.Intn(3)) * 50 * time.Millisecond)
	if w.rng.Intn(5) == 0 {
		next = now.Truncate(time.Second).Add(time.Second)
	}
	switch w.rng.Intn(4) {
	case 0:
		next = next.Add(time.Duration(w.rng.Intn(20)) * time.Millisecond)
	case 1:
		next = next.Add(time.Duration(w.rng.Intn(200)) * time.Microsecond)
	}
	time.Sleep(time.Until(next))
}

func spin(d time.Duration) {
	for t := clock(); clock()-t < int64(d); {
		runtime.Gosched()
	}
}

func hook(p int) {
	if p == 0 {
		unitdb.VerifHook, wal.VerifHook = nil, nil
		return
	}
	f := func() {
		if rand.Intn(100) < p {
			spin(time.Duration(rand.Intn(60)) * time.Microsecond)
		}
	}
	unitdb.VerifHook = func(op, name string, data []byte, off int64) { f() }
	wal.VerifHook = func(op, name string) { f() }
}

func options(c config) []unitdb.Options {
	o := []unitdb.Options{unitdb.WithMutable()}
	if c.Enc {
		o = append(o, unitdb.WithEncryption())
	}
	if c.Free > 0 {
		o = append(o, unitdb.WithFreeBlockSize(int64(c.Free)))
	}
	return o
}

func run(c config, dir string) (h *history, err error) {
	rng := rand.New(rand.NewSource(c.Seed))
	ws := make([]*worker, c.Gor)
	for i := range ws {
		ws[i] = &worker{g: i + 1, rng: rand.New(rand.NewSource(c.Seed*1000 + int64(i))), c: c, ops: map[string]int{}}
	}
	ws[0].g = 0
	last := &worker{g: c.Gor + 1, rng: rng, ops: map[string]int{}, c: config{}}
	rounds := 2
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second + time.Duration(rng.Intn(10))*100*time.Millisecond)))
	hook(c.Delay)
	defer hook(0)
	var wg sync.WaitGroup
	each := func(round int, f func(w *worker)) {
		for _, w := range ws {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				for i := 0; i < c.Calls && !w.closed; i++ {
					f(w)
					if i%c.Burst == c.Burst-1 {
						w.pause()
					}
				}
			}(w)
		}
		if round == rounds-1 && c.Close {
			time.Sleep(time.Duration(rng.Intn(30)) * 50 * time.Millisecond)
			spin(time.Duration(rng.Intn(300)) * time.Microsecond)
		} else {
			wg.Wait()
		}
	}
	share := func() {
		var all []*msg
		for _, w := range ws {
			all = append(all, w.own...)
		}
		for _, w := range ws {
			w.shared = all
			w.own = nil
		}
	}
	closing, lastOpen := inf, inf
	h = &history{Mode: c.Mode, Match: match, Ops: map[string]int{}}
	switch c.Mode {
	case "db":
		db, err := unitdb.Open(dir, options(c)...)
		if err != nil {
			return nil, fmt.Errorf("open: %v", err)
		}
		for r := 0; r < rounds; r++ {
			each(r, func(w *worker) { w.dbCall(db) })
			if r == rounds-1 && c.Close {
				break
			}
			share()
			for q := range queries {
				last.get(db, q, 100000)
			}
		}
		if !c.Close && rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
			for q := range queries {
				last.get(db, q, 100000)
			}
		}
		closing = clock()
		if err := db.Close(); err != nil {
			return nil, fmt.Errorf("close: %v", err)
		}
		if c.Close {
			// goroutines find it closed.
			wg.Wait()
		}
		db, err = unitdb.Open(dir, options(c)...)
		if err != nil {
			return nil, fmt.Errorf("open again: %v", err)
		}
		for q := range queries {
			last.get(db, q, 100000)
		}
		t0 := clock()
		lastOpen = t0
		h.Final = count{[2]int64{t0, t0}, int64(db.Count())}
		last.newID(db)
		if err := db.Close(); err != nil {
			return nil, fmt.Errorf("close again: %v", err)
		}
	case "mem":
		h.Final.N = -1
		open := func() (*memdb.DB, error) { return memdb.Open(memdb.WithLogFilePath(dir)) }
		db, err := open()
		if err != nil {
			return nil, fmt.Errorf("open: %v", err)
		}
		next := make([]uint64, len(ws))
		for i := range next {
			next[i] = uint64(i+1) * 10000
		}
		keys := func() {
			seen := map[int]bool{}
			for _, w := range ws {
				for _, m := range w.h.Msgs {
					if !seen[m.T] {
						seen[m.T] = true
						last.memGet(db, m.T)
					}
				}
			}
		}
		for r := 0; r < rounds; r++ {
			each(r, func(w *worker) { w.memCall(db, &next[w.g0()]) })
			if r == rounds-1 && c.Close {
				break
			}
			share()
			keys()
		}
		closing = clock()
		if err := db.Close(); err != nil {
			return nil, fmt.Errorf("close: %v", err)
		}
		if c.Close {
			wg.Wait()
		}
		db, err = open()
		if err != nil {
			return nil, fmt.Errorf("open again: %v", err)
		}
		keys()
		if err := db.Close(); err != nil {
			return nil, fmt.Errorf("close again: %v", err)
		}
	}
	for _, w := range append(ws, last) {
		h.Msgs = append(h.Msgs, w.h.Msgs...)
		h.Dels = append(h.Dels, w.h.Dels...)
		h.Gets = append(h.Gets, w.h.Gets...)
		h.IDs = append(h.IDs, w.h.IDs...)
		h.Counts = append(h.Counts, w.h.Counts...)
		h.Errs = append(h.Errs, w.h.Errs...)
		for k, v := range w.ops {
			h.Ops[k] += v
		}
	}
	if c.Close {
		// a batch that is not rolled back before the store is closed may stay, and IDs are not reserved once it is closed.
		ids := []newid{}
		for _, i := range h.IDs {
			if i.I[1] < closing || i.I[0] > lastOpen {
				ids = append(ids, i)
			}
		}
		h.IDs = ids
		for i, d := range h.Dels {
			if d.K == 1 && d.D[1] > closing {
				h.Dels[i].D[1] = inf
			}
		}
	}
	h.resolve()
	h.ranks()
	return h, nil
}

func (w *worker) g0() int {
	if w.g == 0 {
		return 0
	}
	return w.g - 1
}

// resolve replaces a key by its messages in the deletions of memdb.
func (h *history) resolve() {
	of := map[int64][]int64{}
	for _, m := range h.Msgs {
		of[int64(m.T)] = append(of[int64(m.T)], m.N)
	}
	for i, d := range h.Dels {
		if len(d.Ms) == 1 && d.Ms[0] < 0 {
			h.Dels[i].Ms = append([]int64{}, of[-d.Ms[0]-1]...)
		}
		if h.Dels[i].Ms == nil {
			h.Dels[i].Ms = []int64{}
		}
	}
	// with a block go the earlier values of its keys that are in the block too.
	topic := map[int64]int64{}
	for _, m := range h.Msgs {
		topic[m.N] = int64(m.T)
	}
	for _, d := range h.Dels {
		if d.K != 2 {
			continue
		}
		e := del{Ms: []int64{}, D: d.D, K: 4}
		for _, n := range d.Ms {
			for _, o := range of[topic[n]] {
				if o != n {
					e.Ms = append(e.Ms, o)
				}
			}
		}
		h.Dels = append(h.Dels, e)
	}
	// names are numbered from 1.
	num := map[int64]int64{}
	for i, m := range h.Msgs {
		num[m.N] = int64(i + 1)
	}
	for i := range h.Dels {
		for j, n := range h.Dels[i].Ms {
			h.Dels[i].Ms[j] = num[n]
		}
	}
	for i := range h.Bats {
		for j, n := range h.Bats[i] {
			h.Bats[i][j] = num[n]
		}
	}
	for i := range h.Gets {
		for j, n := range h.Gets[i].Res {
			h.Gets[i].Res[j] = num[n]
		}
	}
	for _, m := range h.Msgs {
		m.N = num[m.N]
	}
	if h.Dels == nil {
		h.Dels = []del{}
	}
	if h.IDs == nil {
		h.IDs = []newid{}
	}
	if h.Counts == nil {
		h.Counts = []count{}
	}
	if h.Errs == nil {
		h.Errs = []string{}
	}
	if h.Bats == nil {
		h.Bats = [][]int64{}
	}
}

var progress int64

func TestConc(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conc")
	if err != nil {
		t.Fatal(err)
	}
	only := os.Getenv("VERIF_ONLY")
	limit := 120 * time.Second
	// a run that does not end is a violation.
	go func() {
		last, since := int64(-1), clock()
		for {
			t := clock()
			for clock()-t < int64(200*time.Millisecond) {
				syscall.Select(0, nil, nil, nil, &syscall.Timeval{Usec: 100000})
			}
			if p := atomic.LoadInt64(&progress); p != last {
				last, since = p, clock()
			} else if clock()-since > int64(limit) {
				buf := make([]byte, 1<<20)
				fmt.Printf("fatal error: the run does not end\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(30 * 365 * 24 * time.Hour)
		for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			if only != "" && only != fmt.Sprint(idx) {
				continue
			}
			atomic.AddInt64(&progress, 1)
			var c config
			if err := json.Unmarshal([]byte(line), &c); err != nil {
				fmt.Println("HARNESS", err)
				os.Exit(3)
			}
			fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
			root := filepath.Join(scratch, fmt.Sprint(idx))
			os.MkdirAll(root, 0777)
			h, err := run(c, root)
			res := map[string]interface{}{"index": idx, "ok": err == nil, "history": h}
			if err != nil {
				res["msg"] = err.Error()
			} else {
				res["ops"] = h.Ops
				res["steps"] = len(h.Msgs) + len(h.Dels) + len(h.Gets) + len(h.IDs)
				res["checks"] = len(h.Gets)
			}
			os.RemoveAll(root)
			b, _ := json.Marshal(res)
			f.Write(append(b, '\n'))
		}
		f.Close()
		os.RemoveAll(scratch)
		os.Exit(0)
	})
}
