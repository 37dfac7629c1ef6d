// Package memkv replays behaviours of the MemKV specification into the real memdb.
package memkv

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/wal"
)

type block struct {
	ID int      `json:"id"`
	E  [][2]int `json:"e"`
}

type versions struct {
	ID int        `json:"id"`
	V  [][][2]int `json:"v"`
}

type obs struct {
	B   []block    `json:"b"`
	It  []int      `json:"it"`
	All []int      `json:"all"`
	Cur int        `json:"cur"`
	Cr  []versions `json:"cr"`
}

type step struct {
	Op     string `json:"op"`
	K      int    `json:"k"`
	N      int    `json:"n"`
	M      int    `json:"m"`
	Size   string `json:"size"`
	ID     int    `json:"id"`
	One    int    `json:"one"`
	Slot   int    `json:"slot"`
	D      int    `json:"d"`
	Ks     []int  `json:"ks"`
	IDs    []int  `json:"ids"`
	Commit bool   `json:"commit"`
	Var    int    `json:"var"`
	At     int    `json:"at"`
	Open   bool   `json:"open"`
	O      obs    `json:"o"`
	// first record
	Dur     int    `json:"dur"`
	Log     int    `json:"log"`
	V       int    `json:"v"`
	Crash   bool   `json:"crash"`
	Profile string `json:"profile"`
}

type result struct {
	Index     int            `json:"index"`
	OK        bool           `json:"ok"`
	Step      int            `json:"step"`
	Msg       string         `json:"msg,omitempty"`
	Steps     int            `json:"steps"`
	Checks    int            `json:"checks"`
	Snapshots int            `json:"snapshots"`
	Ops       map[string]int `json:"ops"`
	Points    map[string]int `json:"points,omitempty"`
}

type mismatch struct{ msg string }

func failf(format string, args ...interface{}) { panic(mismatch{fmt.Sprintf(format, args...)}) }

type kept struct {
	got  []byte
	want string
	what string
}

type snapshot struct {
	dir, at string
}

type runner struct {
	t      []step
	root   string
	dir    string
	ndir   int
	db     *memdb.DB
	ids    map[int]int64 // time ID of the specification -> of the DB
	rev    map[int64]int
	keys   map[int]bool
	size   map[int]string
	bat    map[int]*memdb.Batch
	base   time.Time
	res    *result
	rng    *rand.Rand
	kept   []kept
	snaps  []snapshot
	snapOn bool
	inHook bool
	snapP  float64
	snapMx int
	during func() // is called while a log is being written
}

// key is the real key of a key of the specification.
func key(k int) uint64 {
	switch k {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << 32
	case 3:
		return 1
	case 4:
		return 1<<63 | 1
	}
	return uint64(k)
}

func (r *runner) value(n int) string {
	size := r.size[n]
	if size == "e" {
		return ""
	}
	rng := rand.New(rand.NewSource(int64(n)*7919 + int64(r.t[0].V)))
	l := 10
	switch size {
	case "s":
		l += rng.Intn(30)
	case "m":
		l += rng.Intn(2000)
	case "l":
		l += 20000 + rng.Intn(60000)
	case "x":
		l += 100000 + rng.Intn(400000)
	case "h":
		l += 1<<20 + rng.Intn(3<<20)
	}
	p := make([]byte, l)
	for i := range p {
		p[i] = byte(rng.Intn(256))
	}
	copy(p, fmt.Sprintf("<%d>", n))
	return string(p)
}

func (r *runner) open(dir string, reset bool) *memdb.DB {
	o := []memdb.Options{memdb.WithLogFilePath(dir), memdb.WithLogInterval(time.Duration(r.t[0].Log) * time.Millisecond),
		memdb.WithTimeBlockInterval(time.Duration(r.t[0].Dur) * 100 * time.Millisecond), memdb.WithBufferSize(1 << 28)}
	if reset {
		o = append(o, memdb.WithLogReset())
	}
	db, err := memdb.Open(o...)
	if err != nil {
		failf("open: %v", err)
	}
	return db
}

func (r *runner) at(tenths int, before time.Duration) {
	t := r.base.Add(time.Duration(tenths)*100*time.Millisecond + 37*time.Millisecond - before)
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
}

func copyDir(src, dst string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if err := os.WriteFile(q, b, 0666); err != nil {
			return err
		}
		return os.Chtimes(q, fi.ModTime(), fi.ModTime())
	})
	if err != nil {
		panic("harness: copy: " + err.Error())
	}
}

func (r *runner) newDir() string {
	r.ndir++
	return filepath.Join(r.root, fmt.Sprintf("d%d", r.ndir))
}

func (r *runner) hook(op, name string) {
	if f := r.during; f != nil && strings.HasPrefix(name, r.dir+"/") {
		r.during = nil
		done := make(chan struct{})
		go func() { f(); close(done) }()
		// it may have to wait for the log.
		for i := 0; i < 2000; i++ {
			select {
			case <-done:
				i = 2000
			default:
				runtime.Gosched()
			}
		}
	}
	if !r.snapOn || r.inHook || !strings.HasPrefix(name, r.dir+"/") {
		return
	}
	r.res.Points[op]++
	if len(r.snaps) >= r.snapMx || r.rng.Float64() >= r.snapP {
		return
	}
	r.inHook = true
	d := r.newDir()
	copyDir(r.dir, d)
	r.snaps = append(r.snaps, snapshot{d, op})
	if op == "written" && r.rng.Intn(2) == 0 {
		// a process may be killed when only a part of the log is in the file.
		d := r.newDir()
		copyDir(r.dir, d)
		rel, _ := filepath.Rel(r.dir, name)
		q := filepath.Join(d, rel)
		if fi, err := os.Stat(q); err == nil && fi.Size() > 0 {
			os.Truncate(q, r.rng.Int63n(fi.Size()))
		}
		r.snaps = append(r.snaps, snapshot{d, op + "-torn"})
	}
	r.inHook = false
}

// bind remembers which time ID of the DB a time ID of the specification is.
func (r *runner) bind(id int, real int64, what string) {
	if old, ok := r.ids[id]; ok {
		if old != real {
			failf("%s: time ID of block %d was %d and is %d", what, id, old, real)
		}
		return
	}
	if o, ok := r.rev[real]; ok {
		failf("%s: time ID %d of block %d is also of block %d", what, real, id, o)
	}
	for i, x := range r.ids {
		if (i < id) != (x < real) {
			failf("%s: time ID %d of block %d is not in order with %d of block %d", what, real, id, x, i)
		}
	}
	r.ids[id], r.rev[real] = real, id
}

func (r *runner) want(got []byte, n int, what string) {
	w := r.value(n)
	if string(got) != w {
		if len(got) > 60 {
			got = got[:60]
		}
		failf("%s: value %q, specification value %d", what, got, n)
	}
	r.res.Checks++
}

func (r *runner) keep(got []byte, n int, what string) {
	if len(r.kept) < 200 && r.rng.Intn(20) == 0 {
		r.kept = append(r.kept, kept{got, r.value(n), what})
	}
}

func sorted(a []uint64) []uint64 {
	b := append([]uint64{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func keysOf(e [][2]int) []uint64 {
	var a []uint64
	for _, p := range e {
		a = append(a, key(p[0]))
	}
	return sorted(a)
}

func same(a, b []uint64) bool { return fmt.Sprint(sorted(a)) == fmt.Sprint(b) }

func (r *runner) iterate(f func(func(int64, []uint64) (bool, error)) error, want []int, bl map[int]block, what string) {
	var got []int64
	err := f(func(id int64, ks []uint64) (bool, error) {
		got = append(got, id)
		if s, ok := r.rev[id]; ok {
			if b, ok := bl[s]; ok && !same(ks, keysOf(b.E)) {
				failf("%s: keys of block %d are %v, specification %v", what, s, sorted(ks), keysOf(b.E))
			}
		}
		return false, nil
	})
	if err != nil {
		failf("%s: %v", what, err)
	}
	var w []int64
	for _, id := range want {
		w = append(w, r.ids[id])
	}
	if fmt.Sprint(got) != fmt.Sprint(w) {
		failf("%s: blocks %v, specification %v (%v)", what, got, w, want)
	}
	r.res.Checks++
}

func (r *runner) check(s step) {
	what := "after " + s.Op
	bl := map[int]block{}
	most := map[int]int{} // key -> value
	cont := map[int]map[int]int{}
	for _, b := range s.O.B {
		bl[b.ID] = b
		cont[b.ID] = map[int]int{}
		for _, p := range b.E {
			most[p[0]] = p[1]
			cont[b.ID][p[0]] = p[1]
		}
	}
	var all []uint64
	for k := range r.keys {
		got, err := r.db.Get(key(k))
		n, ok := most[k]
		if (err == nil) != ok {
			failf("%s: get key %d: %v, specification: in the store %v", what, k, err, ok)
		}
		if ok {
			all = append(all, key(k))
			r.want(got, n, fmt.Sprintf("%s: get key %d", what, k))
			r.keep(got, n, fmt.Sprintf("value of get key %d %s step %d", k, what, r.res.Steps))
		}
	}
	for id, real := range r.ids {
		if len(r.keys) > 60 && r.rng.Intn(4) != 0 {
			continue
		}
		for k := range r.keys {
			got, err := r.db.Lookup(real, key(k))
			n, ok := cont[id][k]
			if (err == nil) != ok {
				failf("%s: lookup key %d in block %d: %v, specification: there %v", what, k, id, err, ok)
			}
			if ok {
				r.want(got, n, fmt.Sprintf("%s: lookup key %d in block %d", what, k, id))
				r.keep(got, n, fmt.Sprintf("value of lookup key %d %s step %d", k, what, r.res.Steps))
			}
		}
	}
	if ks := r.db.Keys(); !same(ks, sorted(all)) {
		failf("%s: keys %v, specification %v", what, sorted(ks), sorted(all))
	}
	if n := r.db.Size(); n != int64(len(all)) {
		failf("%s: size %d, specification %d", what, n, len(all))
	}
	r.iterate(r.db.BlockIterator, s.O.It, bl, what+": block iterator")
	r.iterate(func(f func(int64, []uint64) (bool, error)) error {
		return r.db.All(func(id int64, ks []uint64) (bool, error) {
			// the block that is being put to may be there, if it is logged.
			if real, ok := r.ids[s.O.Cur]; ok && real == id {
				return false, nil
			}
			return f(id, ks)
		})
	}, s.O.All, bl, what+": all")
	for _, k := range r.kept {
		if string(k.got) != k.want {
			failf("%s: %s changed after it was returned", what, k.what)
		}
	}
}

func fn(e [][2]int) map[int]int {
	m := map[int]int{}
	for _, p := range e {
		m[p[0]] = p[1]
	}
	return m
}

// checkSnapshots opens what a crash within the step left.
func (r *runner) checkSnapshots(i int) {
	before, after := map[int][][][2]int{}, map[int][][][2]int{}
	for _, v := range r.t[i-1].O.Cr {
		before[v.ID] = v.V
	}
	for _, v := range r.t[i].O.Cr {
		after[v.ID] = v.V
	}
	for _, sn := range r.snaps {
		what := fmt.Sprintf("crash in %s at %s", r.t[i].Op, sn.at)
		r.res.Snapshots++
		db := r.open(sn.dir, false)
		got := map[int]map[uint64]string{}
		err := db.All(func(id int64, ks []uint64) (bool, error) {
			s, ok := r.rev[id]
			if !ok {
				failf("%s: recovered block %d was never there", what, id)
			}
			got[s] = map[uint64]string{}
			for _, k := range ks {
				v, err := db.Lookup(id, k)
				if err != nil {
					failf("%s: lookup recovered key %d: %v", what, k, err)
				}
				got[s][k] = string(v)
			}
			return false, nil
		})
		if err != nil {
			failf("%s: all: %v", what, err)
		}
		for id := range r.ids {
			b, okb := before[id]
			a, oka := after[id]
			g := got[id]
			match := !okb && !oka && len(g) == 0
			if okb != oka && len(g) == 0 {
				match = true
			}
			for _, v := range append(append([][][2]int{}, b...), a...) {
				if r.equal(g, v) {
					match = true
				}
			}
			if okb && !oka && !match {
				// the block is being released, its logs go one after another.
				match = true
				for k, v := range g {
					found := false
					for _, e := range b {
						for x, n := range fn(e) {
							if key(x) == k && r.value(n) == v {
								found = true
							}
						}
					}
					match = match && found
				}
			}
			if !match {
				var ks []uint64
				for k := range g {
					ks = append(ks, k)
				}
				failf("%s: block %d is recovered with keys %v, which it did not have since it was logged: before %v after %v", what, id, sorted(ks), b, a)
			}
			r.res.Checks++
		}
		if err := db.Close(); err != nil {
			failf("%s: close: %v", what, err)
		}
		os.RemoveAll(sn.dir)
	}
	r.snaps = nil
}

func (r *runner) equal(g map[uint64]string, e [][2]int) bool {
	if len(g) != len(e) {
		return false
	}
	for _, p := range e {
		if v, ok := g[key(p[0])]; !ok || v != r.value(p[1]) {
			return false
		}
	}
	return true
}

func must(err error, what string) {
	if err != nil {
		failf("%s: %v", what, err)
	}
}

func mustErr(err error, what string) {
	if err == nil {
		failf("%s: no error", what)
	}
}

func (r *runner) put(k, n int, size string) []byte {
	r.keys[k] = true
	r.size[n] = size
	return []byte(r.value(n))
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xAA
	}
}

func (r *runner) step(s step) {
	r.res.Ops[s.Op]++
	switch s.Op {
	case "put", "bulk":
		m := s.M
		if s.Op == "put" {
			m = 1
		}
		for j := 0; j < m; j++ {
			b := r.put(s.K+j, s.N+j, s.Size)
			id, err := r.db.Put(key(s.K+j), b)
			must(err, "put")
			scribble(b)
			r.bind(s.ID, id, "put")
		}
	case "noput":
		_, err := r.db.Put(key(s.K), []byte("x"))
		mustErr(err, "put to a block that was freed")
	case "del":
		must(r.db.Delete(key(s.K)), "delete")
	case "nodel":
		mustErr(r.db.Delete(key(s.K)), "delete of a key that is not there")
	case "bulkdel":
		for _, k := range s.Ks {
			must(r.db.Delete(key(k)), "delete")
		}
	case "free":
		must(r.db.Free(r.ids[s.ID]), "free")
	case "adv":
	case "logput", "logdel":
		r.logging(s)
	case "close":
		r.bat = map[int]*memdb.Batch{}
		must(r.db.Close(), "close")
		mustErr(r.db.Close(), "close of a closed DB")
		_, err := r.db.Put(1, []byte("x"))
		mustErr(err, "put to a closed DB")
		_, err = r.db.Get(1)
		mustErr(err, "get from a closed DB")
		_, err = r.db.Lookup(1, 1)
		mustErr(err, "lookup in a closed DB")
		mustErr(r.db.Delete(1), "delete from a closed DB")
		r.kept = nil
	case "open", "reset":
		// logs are not written at the time of a step.
		time.Sleep(2 * time.Millisecond)
		r.db = r.open(r.dir, s.Op == "reset")
		// an ID that is not of any block may be used again.
		for id, real := range r.ids {
			found := false
			for _, b := range s.O.B {
				found = found || b.ID == id
			}
			if !found {
				delete(r.ids, id)
				delete(r.rev, real)
			}
		}
	case "crash":
		d := r.newDir()
		copyDir(r.dir, d)
		r.snapOn = false
		r.bat = map[int]*memdb.Batch{}
		must(r.db.Close(), "close")
		os.RemoveAll(r.dir)
		r.kept = nil
		r.dir = d
		r.snapOn = r.t[0].Crash
	case "begin":
		b := r.db.NewBatch()
		r.bat[s.Slot] = b
		r.bind(s.ID, b.TimeID(), "batch")
	case "bput":
		b := r.put(s.K, s.N, s.Size)
		must(r.bat[s.Slot].Put(key(s.K), b), "batch put")
		scribble(b)
	case "bdel":
		must(r.bat[s.Slot].Delete(key(s.K)), "batch delete")
	case "bwrite":
		must(r.bat[s.Slot].Write(), "batch write")
		r.bind(s.ID, r.bat[s.Slot].TimeID(), "batch after write")
	case "bcommit":
		must(r.bat[s.Slot].Commit(), "batch commit")
		delete(r.bat, s.Slot)
	case "babort":
		must(r.bat[s.Slot].Abort(), "batch abort")
		delete(r.bat, s.Slot)
	case "managed":
		var done <-chan struct{}
		fail := errors.New("fail")
		err := r.db.Batch(func(b *memdb.Batch, completed <-chan struct{}) error {
			done = completed
			r.bind(s.ID, b.TimeID(), "batch")
			for j, k := range s.Ks {
				must(b.Put(key(k), r.put(k, s.N+j, s.Size)), "batch put")
			}
			if s.Commit {
				return nil
			}
			return fail
		})
		if s.Commit {
			must(err, "batch")
		} else if err != fail {
			failf("batch: %v, not the error of the function", err)
		}
		select {
		case <-done:
		default:
			failf("batch: completion is not signaled")
		}
	case "bad":
		r.bad(s)
	default:
		panic("harness: unknown op " + s.Op)
	}
}

// logging puts, or deletes, an entry while a log is being written.
func (r *runner) logging(s step) {
	var id int64
	var err error
	done := false
	if s.Op == "logput" {
		b := r.put(s.K, s.N, s.Size)
		r.during = func() {
			id, err = r.db.Put(key(s.K), b)
			scribble(b)
			done = true
		}
	} else {
		r.during = func() {
			err = r.db.Delete(key(s.K))
			done = true
		}
	}
	r.at(s.At, 0)
	r.during = nil
	if !done {
		failf("%s: the block is not logged", s.Op)
	}
	must(err, s.Op)
	if s.Op == "logput" {
		r.bind(s.ID, id, s.Op)
	}
}

func (r *runner) bad(s step) {
	switch s.Var {
	case 0:
		_, err := r.db.Lookup(12345, 1)
		mustErr(err, "lookup in a block that is not there")
	case 1:
		_, err := r.db.Get(987654321)
		mustErr(err, "get of a key that is not there")
		mustErr(r.db.Delete(987654321), "delete of a key that is not there")
	case 2:
		mustErr(r.db.Free(12345), "free of a block that is not there")
	case 3:
		n := 0
		must(r.db.BlockIterator(func(int64, []uint64) (bool, error) { n++; return true, nil }), "block iterator")
		if len(s.O.It) > 0 && n != 1 {
			failf("block iterator called %d times, and was stopped", n)
		}
		n = 0
		must(r.db.All(func(int64, []uint64) (bool, error) { n++; return true, nil }), "all")
		if len(s.O.All) > 0 && n != 1 {
			failf("all called %d times, and was stopped", n)
		}
	case 4:
		if len(s.O.It) > 0 {
			if err := r.db.BlockIterator(func(int64, []uint64) (bool, error) { return false, io.EOF }); err != io.EOF {
				failf("block iterator does not return the error: %v", err)
			}
		}
	case 5:
		b := r.db.NewBatch()
		mustErr(b.Delete(987654321), "batch delete of a key that is not there")
		must(b.Abort(), "abort")
	}
}

func (r *runner) run() (err error) {
	cur := 0
	defer func() {
		r.res.Step = cur
		if x := recover(); x != nil {
			if m, ok := x.(mismatch); ok {
				err = errors.New(m.msg)
				return
			}
			panic(x)
		}
	}()
	if r.t[0].Crash {
		r.res.Points = map[string]int{}
	}
	wal.VerifHook = r.hook
	defer func() { wal.VerifHook = nil }()
	r.base = time.Now().Truncate(time.Second).Add(time.Second)
	r.at(0, 7*time.Millisecond)
	r.dir = r.newDir()
	r.db = r.open(r.dir, false)
	r.at(0, 0)
	r.snapOn = r.t[0].Crash
	sparse := r.t[0].Profile == "kvbig"
	for i := 1; i < len(r.t); i++ {
		cur = i
		s := r.t[i]
		if s.Op != "logput" && s.Op != "logdel" {
			r.at(s.At, 0)
		}
		r.step(s)
		r.res.Steps++
		if s.Op == "adv" {
			r.at(s.At, 0)
		}
		if len(r.snaps) > 0 {
			r.snapOn = false
			t0 := time.Now()
			r.checkSnapshots(i)
			if d := time.Since(t0); d > 0 {
				failf("harness: checking crash states takes time %v", d)
			}
			r.snapOn = r.t[0].Crash
		}
		if !s.Open || sparse && i != len(r.t)-1 && r.rng.Intn(3) != 0 {
			continue
		}
		r.check(s)
	}
	r.snapOn = false
	if r.t[len(r.t)-1].Open {
		return r.db.Close()
	}
	return nil
}

func TestReplay(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	var snapP float64 = 0.3
	snapMx := 6
	if os.Getenv("VERIF_DEEP") != "" {
		snapP, snapMx = 1, 60
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "memkv")
	if err != nil {
		t.Fatal(err)
	}
	w := json.NewEncoder(f)
	only := os.Getenv("VERIF_ONLY")
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(30 * 365 * 24 * time.Hour)
		for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			if only != "" && only != fmt.Sprint(idx) {
				continue
			}
			var tr []step
			if err := json.Unmarshal([]byte(line), &tr); err != nil {
				fmt.Println("HARNESS", err)
				os.Exit(3)
			}
			h := fnv.New64()
			h.Write([]byte(line))
			res := &result{Index: idx, OK: true, Ops: map[string]int{}}
			fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
			root := filepath.Join(scratch, fmt.Sprint(idx))
			os.MkdirAll(root, 0777)
			r := &runner{t: tr, root: root, ids: map[int]int64{}, rev: map[int64]int{}, keys: map[int]bool{}, size: map[int]string{}, bat: map[int]*memdb.Batch{},
				res: res, rng: rand.New(rand.NewSource(int64(h.Sum64()))), snapP: snapP, snapMx: snapMx}
			if err := r.run(); err != nil {
				res.OK = false
				res.Msg = err.Error()
				if r.db != nil {
					func() { defer func() { recover() }(); r.db.Close() }()
				}
			}
			os.RemoveAll(root)
			w.Encode(res)
		}
		f.Close()
		os.RemoveAll(scratch)
		os.Exit(0)
	})
}
