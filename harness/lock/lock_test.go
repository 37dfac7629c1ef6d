// Package lock replays schedules of spec/LockGen.tla: handles in one or more processes open and close one DB, and run one at a time from
// one call on the lock file to the next.
package lock

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/zzos"
)

const topic = "lock.test"

type cmd struct {
	Actor string `json:"actor"`
	Dir   string `json:"dir,omitempty"`
	Op    string `json:"op,omitempty"` // open, bad, close; "" lets the handle go on
	Put   string `json:"put,omitempty"`
	Del   []byte `json:"del,omitempty"`
}

type reply struct {
	Actor  string `json:"actor"`
	Parked string `json:"parked,omitempty"`
	OK     bool   `json:"ok,omitempty"`
	Msg    string `json:"msg,omitempty"`
	Wrong  string `json:"wrong,omitempty"` // the handle does not do what it should
	ID     []byte `json:"id,omitempty"`
}

func options() []unitdb.Options {
	return []unitdb.Options{unitdb.WithMutable(), unitdb.WithBufferSize(1 << 16), unitdb.WithMemdbSize(1 << 20)}
}

// TestWorker is a process with some of the handles.
func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_WORKER") == "" {
		t.Skip()
	}
	out := os.NewFile(3, "out")
	var mu sync.Mutex
	send := func(r reply) {
		b, _ := json.Marshal(r)
		mu.Lock()
		out.Write(append(b, '\n'))
		mu.Unlock()
	}
	goon := map[string]chan bool{}
	get := func(a string) chan bool {
		mu.Lock()
		defer mu.Unlock()
		if goon[a] == nil {
			goon[a] = make(chan bool)
		}
		return goon[a]
	}
	zzos.Gate = func(name, point string) {
		for _, p := range strings.Split(name, "/") {
			if strings.HasPrefix(p, "act_") {
				send(reply{Actor: p[4:], Parked: point})
				<-get(p[4:])
			}
		}
	}
	dbs := map[string]*unitdb.DB{}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	for in.Scan() {
		var c cmd
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			panic(err)
		}
		switch c.Op {
		case "":
			get(c.Actor) <- true
		case "open", "bad":
			go func() {
				opts := options()
				if c.Op == "bad" {
					opts = append(opts, unitdb.WithEncryptionKey([]byte("short")))
				}
				db, err := unitdb.Open(c.Dir, opts...)
				r := reply{Actor: c.Actor, OK: err == nil}
				if err != nil {
					r.Msg = err.Error()
					send(r)
					return
				}
				mu.Lock()
				dbs[c.Actor] = db
				mu.Unlock()
				r.ID = db.NewID()
				if err := db.PutEntry(unitdb.NewEntry([]byte(topic), []byte(c.Put)).WithID(r.ID)); err != nil {
					r.Wrong = "put: " + err.Error()
				}
				if c.Del != nil {
					if err := db.Delete(c.Del, []byte(topic)); err != nil {
						r.Wrong = "delete: " + err.Error()
					}
				}
				send(r)
			}()
		case "close":
			mu.Lock()
			db := dbs[c.Actor]
			mu.Unlock()
			go func() {
				err := db.Close()
				r := reply{Actor: c.Actor, OK: err == nil}
				if err != nil {
					r.Msg = err.Error()
				}
				send(r)
			}()
		}
	}
}

type worker struct {
	p     *exec.Cmd
	in    io.WriteCloser
	lines chan string
	log   *os.File
}

func start(log string) *worker {
	p := exec.Command(os.Args[0], "-test.run", "^TestWorker$", "-test.timeout", "0")
	p.Env = append(os.Environ(), "VERIF_WORKER=1")
	l, err := os.Create(log)
	if err != nil {
		panic(err)
	}
	p.Stdout, p.Stderr = l, l
	in, err := p.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	p.ExtraFiles = []*os.File{w}
	if err := p.Start(); err != nil {
		panic(err)
	}
	w.Close()
	k := &worker{p: p, in: in, lines: make(chan string, 64), log: l}
	go func() {
		s := bufio.NewScanner(r)
		s.Buffer(nil, 1<<20)
		for s.Scan() {
			k.lines <- s.Text()
		}
		close(k.lines)
		r.Close()
	}()
	return k
}

func (k *worker) kill() {
	k.p.Process.Kill()
	k.p.Wait()
	k.in.Close()
	k.log.Close()
}

type trace struct {
	Procs   map[string]int      `json:"procs"`
	Scripts map[string][]string `json:"scripts"`
	Sched   []string            `json:"sched"`
	Want    map[string][]string `json:"want"`
}

type call struct {
	A      string `json:"a"`
	K      string `json:"k"`
	B      int    `json:"b"`
	E      int    `json:"e"`
	R      string `json:"r"`
	n, del int
}

type put struct {
	N  int  `json:"n"`
	S  bool `json:"s"`
	D  bool `json:"d"`
	id []byte
	a  string
}

type killed struct {
	A string `json:"a"`
	T int    `json:"t"`
}

type history struct {
	Calls []call   `json:"calls"`
	Kills []killed `json:"kills"`
	Puts  []put    `json:"puts"`
	Final []int    `json:"final"`
	Count int      `json:"count"`
}

type result struct {
	Index   int            `json:"index"`
	OK      bool           `json:"ok"`
	Msg     string         `json:"msg,omitempty"`
	Steps   int            `json:"steps"`
	Ops     map[string]int `json:"ops"`
	Points  map[string]int `json:"points"`
	Same    bool           `json:"same"` // the results are those of the specification
	History history        `json:"history"`
}

type failure string

func failf(format string, args ...interface{}) { panic(failure(fmt.Sprintf(format, args...))) }

type runner struct {
	dir     string
	t       trace
	h       history
	res     *result
	workers map[int]*worker
	now     int
	next    map[string]int
	run     map[string]*call
	holds   map[string]bool
	nput    int
	names   []string
}

func (r *runner) worker(a string) *worker {
	p := r.t.Procs[a]
	if r.workers[p] == nil {
		r.workers[p] = start(filepath.Join(os.Getenv("VERIF_SCRATCH"), "worker"+strconv.Itoa(p)+".log"))
	}
	return r.workers[p]
}

func (r *runner) busy(a string) bool {
	return r.run[a] != nil || r.holds[a] || r.next[a] < len(r.t.Scripts[a])
}

// grant lets a handle run until its next call on the lock file, or the end of the call.
func (r *runner) grant(a string) {
	w := r.worker(a)
	c := cmd{Actor: a}
	if r.run[a] == nil {
		r.run[a] = &call{A: a, B: r.now, del: -1}
		if r.holds[a] {
			c.Op = "close"
		} else {
			c.Op, c.Dir = r.t.Scripts[a][r.next[a]], filepath.Join(r.dir, "act_"+a)
			r.next[a]++
			r.nput++
			r.run[a].n = r.nput
			c.Put = "message " + strconv.Itoa(r.nput)
			if c.Op == "open" {
				for i, p := range r.h.Puts {
					if p.S && !p.D {
						c.Del = p.id
						r.run[a].del = i
						break
					}
				}
			}
		}
		r.run[a].K = c.Op
		r.res.Ops[c.Op]++
	}
	b, _ := json.Marshal(c)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		failf("the process of %s died", a)
	}
	var p reply
	select {
	case l, ok := <-w.lines:
		if !ok {
			w.p.Wait()
			b, _ := os.ReadFile(w.log.Name())
			failf("the process of %s died: %.900s", a, b)
		}
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			panic(err)
		}
	case <-time.After(60 * time.Second):
		failf("%s of %s does not return", r.run[a].K, a)
	}
	if p.Actor != a {
		panic("reply of " + p.Actor)
	}
	if p.Wrong != "" {
		failf("%s of %s: %s", r.run[a].K, a, p.Wrong)
	}
	if p.Parked != "" {
		r.res.Points[p.Parked]++
		return
	}
	k := r.run[a]
	r.run[a] = nil
	k.E, k.R = r.now, "err"
	if p.OK {
		k.R = "ok"
	}
	r.h.Calls = append(r.h.Calls, *k)
	if k.K == "close" {
		r.holds[a] = false
		if p.OK {
			for i := range r.h.Puts {
				if r.h.Puts[i].a == a {
					r.h.Puts[i].S, r.h.Puts[i].a = true, ""
				}
			}
		}
		return
	}
	if p.OK {
		r.holds[a] = true
		if k.del >= 0 {
			r.h.Puts[k.del].D, r.h.Puts[k.del].S = true, false
		}
		r.h.Puts = append(r.h.Puts, put{N: k.n, id: p.ID, a: a})
	}
}

func (r *runner) kill(p int) {
	r.res.Ops["kill"]++
	if w := r.workers[p]; w != nil {
		w.kill()
		r.workers[p] = nil
	}
	for _, a := range r.names {
		if r.t.Procs[a] != p {
			continue
		}
		if c := r.run[a]; c != nil {
			c.E, c.R = r.now, "killed"
			r.h.Calls = append(r.h.Calls, *c)
		}
		r.run[a], r.holds[a] = nil, false
		r.h.Kills = append(r.h.Kills, killed{a, r.now})
		for i := range r.h.Puts {
			if r.h.Puts[i].a == a {
				r.h.Puts[i].a = "?"
			}
		}
	}
}

func (r *runner) do() {
	db := filepath.Join(r.dir, "db")
	if err := os.MkdirAll(db, 0777); err != nil {
		panic(err)
	}
	for a := range r.t.Procs {
		r.names = append(r.names, a)
		if err := os.Symlink("db", filepath.Join(r.dir, "act_"+a)); err != nil {
			panic(err)
		}
	}
	sort.Strings(r.names)
	for _, g := range r.t.Sched {
		r.now++
		if g[0] == '!' {
			p, _ := strconv.Atoi(g[1:])
			r.kill(p)
		} else if r.busy(g) {
			r.grant(g)
		}
		r.res.Steps++
	}
	// what is left when the calls take other steps than those of the specification
	for more := true; more; {
		more = false
		for _, a := range r.names {
			if r.busy(a) {
				r.now++
				r.grant(a)
				r.res.Steps++
				more = true
			}
		}
		if r.now > 100000 {
			failf("the calls do not return")
		}
	}
	r.final(db)
	r.res.Same = true
	for _, a := range r.names {
		var got []string
		for _, c := range r.h.Calls {
			if c.A == a {
				got = append(got, c.R)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(r.t.Want[a]) {
			r.res.Same = false
		}
	}
}

func (r *runner) final(dir string) {
	r.now++
	db, err := unitdb.Open(dir, options()...)
	c := call{A: "last", K: "open", B: r.now, E: r.now, R: "ok"}
	if err != nil {
		c.R = "err"
		r.h.Calls = append(r.h.Calls, c)
		return
	}
	r.h.Calls = append(r.h.Calls, c)
	defer db.Close()
	items, err := db.Get(unitdb.NewQuery([]byte(topic)).WithLimit(1000))
	if err != nil {
		failf("get: %v", err)
	}
	for _, it := range items {
		n, err := strconv.Atoi(strings.TrimPrefix(string(it), "message "))
		if err != nil {
			failf("get returned %q, which nobody put", it)
		}
		r.h.Final = append(r.h.Final, n)
	}
	r.h.Count = int(db.Count())
}

func one(i int, line string, workers map[int]*worker) (res result) {
	res = result{Index: i, OK: true, Ops: map[string]int{}, Points: map[string]int{}}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "lock")
	if err != nil {
		panic(err)
	}
	r := &runner{dir: dir, res: &res, workers: workers, next: map[string]int{}, run: map[string]*call{}, holds: map[string]bool{}}
	r.h = history{Calls: []call{}, Kills: []killed{}, Puts: []put{}, Final: []int{}}
	if err := json.Unmarshal([]byte(line), &r.t); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(failure)
			if !ok {
				panic(e)
			}
			res.OK, res.Msg = false, string(f)
		}
		if !res.OK {
			for p, w := range workers {
				if w != nil {
					w.kill()
				}
				delete(workers, p)
			}
		}
		res.History = r.h
	}()
	r.do()
	return
}

// TestLock replays the schedules of a file.
func TestLock(t *testing.T) {
	if os.Getenv("VERIF_IN") == "" {
		t.Skip()
	}
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		panic(err)
	}
	only := -1
	if s := os.Getenv("VERIF_ONLY"); s != "" {
		only, _ = strconv.Atoi(s)
	}
	workers := map[int]*worker{}
	defer func() {
		for _, w := range workers {
			if w != nil {
				w.kill()
			}
		}
	}()
	for i, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if only >= 0 && i != only {
			continue
		}
		fmt.Fprintf(out, "{\"begin\":%d}\n", i)
		j, err := json.Marshal(one(i, l, workers))
		if err != nil {
			panic(err)
		}
		out.Write(append(j, '\n'))
	}
}
