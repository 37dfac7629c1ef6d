package conc

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
)

// A child process uses the store with many goroutines, in real time, until it is killed. It writes to a file when a call begins and when it
// has returned. The order of the lines is the order of the history.

type killConfig struct {
	Seed  int64 `json:"seed"`
	Gor   int   `json:"gor"`
	Ms    int   `json:"ms"` // lifetime of the process
	Times int   `json:"times"`
	Enc   bool  `json:"enc"`
	Free  int   `json:"free"`
}

// TestChild is the process that is killed.
func TestChild(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD")
	if dir == "" {
		t.Skip()
	}
	var c killConfig
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_CONFIG")), &c); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(filepath.Join(dir, "events"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		panic(err)
	}
	say := func(format string, args ...interface{}) {
		if _, err := f.Write([]byte(fmt.Sprintf(format+"\n", args...))); err != nil {
			panic(err)
		}
	}
	db, err := unitdb.Open(filepath.Join(dir, "db"), options(config{Enc: c.Enc, Free: c.Free})...)
	if err != nil {
		say("X open: %v", err)
		return
	}
	gen := os.Getenv("VERIF_GEN")
	say("O")
	var wg sync.WaitGroup
	for g := 0; g < c.Gor; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed*7919 + int64(g) + 100*int64(len(gen)) + int64(gen[0])))
			w := &worker{g: g, rng: rng}
			n := int64(0)
			type own struct {
				n  int64
				t  int
				id []byte
			}
			var owned []own
			for {
				name := func() int64 { n++; return int64(gen[0]-'0')*10000000 + int64(g+1)*100000 + n }
				switch r := rng.Intn(100); {
				case r < 45:
					m, tp := name(), w.topic()
					e := entry(stored[tp], w.payload(m))
					say("p %d %d", m, tp)
					if err := db.PutEntry(e); err != nil {
						say("X put: %v", err)
						return
					}
					say("P %d", m)
				case r < 60:
					say("i %d", g)
					id := db.NewID()
					say("I %d %d", g, message.ID(id).Sequence())
					m, tp := name(), w.topic()
					e := entry(stored[tp], w.payload(m)).WithID(append([]byte(nil), id...))
					say("p %d %d %d", m, tp, g)
					if err := db.PutEntry(e); err != nil {
						say("X put: %v", err)
						return
					}
					say("P %d", m)
					owned = append(owned, own{m, tp, id})
				case r < 85:
					k := 1 + rng.Intn(4)
					names, args := []int64{}, ""
					es := []*unitdb.Entry{}
					for i := 0; i < k; i++ {
						m, tp := name(), w.topic()
						names = append(names, m)
						args += fmt.Sprintf(" %d %d", m, tp)
						es = append(es, entry(stored[tp], w.payload(m)))
					}
					say("b %d%s", names[0], args)
					err := db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
						for _, e := range es {
							if err := b.PutEntry(e); err != nil {
								return err
							}
						}
						return nil
					})
					if err != nil {
						say("X batch: %v", err)
						return
					}
					say("B %d", names[0])
				case r < 97:
					if len(owned) == 0 {
						continue
					}
					o := owned[rng.Intn(len(owned))]
					say("d %d %d", g, o.n)
					if err := db.DeleteEntry(entry(stored[o.t], nil).WithID(append([]byte(nil), o.id...))); err != nil {
						say("X delete: %v", err)
						return
					}
					say("D %d", g)
				default:
					if err := db.Sync(); err != nil {
						say("X sync: %v", err)
						return
					}
				}
				time.Sleep(time.Duration(rng.Intn(12)) * time.Millisecond)
			}
		}(g)
	}
	wg.Wait()
}

func killRun(c killConfig, dir string) (*history, error) {
	rng := rand.New(rand.NewSource(c.Seed))
	h := &history{Mode: "db", Match: match, Ops: map[string]int{}, Final: count{N: -1}}
	var lines []string
	for k := 0; k < c.Times; k++ {
		cfg, _ := json.Marshal(c)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$")
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, "VERIF_CONFIG="+string(cfg), "VERIF_GEN="+fmt.Sprint(k+1))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := os.Create(filepath.Join(dir, fmt.Sprintf("out%d", k)))
		if err != nil {
			return nil, err
		}
		cmd.Stdout, cmd.Stderr = out, out
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		opened := func() bool {
			b, _ := os.ReadFile(filepath.Join(dir, "events"))
			return strings.Count(string(b), "\nO\n") == k || k == 0 && strings.HasPrefix(string(b), "O\n")
		}
		died := false
		for i := 0; i < 40000 && !opened() && !died; i++ {
			select {
			case <-done:
				died = true
			case <-time.After(5 * time.Millisecond):
			}
		}
		if !died {
			d := time.Duration(c.Ms/3+rng.Intn(c.Ms)) * time.Millisecond
			d += time.Duration(rng.Intn(1000)) * time.Microsecond
			select {
			case <-done:
				died = true
			case <-time.After(d):
			}
		}
		if died {
			b, _ := os.ReadFile(out.Name())
			return nil, fmt.Errorf("the process ended by itself: %s", crashText(string(b)))
		}
		cmd.Process.Signal(syscall.SIGKILL)
		<-done
		out.Close()
		b, err := os.ReadFile(filepath.Join(dir, "events"))
		if err != nil {
			return nil, err
		}
		if k < c.Times-1 {
			// the next process finds what this one left, and is killed too. What happens then is not told from what happened before.
			f, _ := os.OpenFile(filepath.Join(dir, "events"), os.O_APPEND|os.O_WRONLY, 0666)
			if len(b) > 0 && b[len(b)-1] != '\n' {
				f.Write([]byte("\n"))
			}
			f.Close()
			continue
		}
		lines = strings.Split(string(b), "\n")
	}
	msgs := map[int64]*msg{}
	idb := map[string]int64{}
	delb := map[string]int{}
	idOf := map[string]int{}
	batch := map[int64][]int64{}
	now := int64(0)
	for _, l := range lines[:len(lines)-1] {
		now++
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		num := func(i int) int64 {
			var n int64
			fmt.Sscan(f[i], &n)
			return n
		}
		add := func(n int64, t int, dur bool) {
			m := &msg{N: n, T: t, S: [2]int64{now, inf}, V: [2]int64{now, inf}, Dur: dur}
			msgs[n] = m
			h.Msgs = append(h.Msgs, m)
		}
		h.Ops[f[0]]++
		switch f[0] {
		case "O":
			// calls of the process before did not return.
			idb, delb, batch = map[string]int64{}, map[string]int{}, map[int64][]int64{}
		case "p":
			add(num(1), int(num(2)), false)
			if len(f) > 3 {
				// its sequence is that of the ID.
				msgs[num(1)].S, msgs[num(1)].idPut = h.IDs[idOf[f[3]]].I, true
			}
		case "P":
			m := msgs[num(1)]
			m.V[1] = now
			if !m.idPut {
				m.S[1] = now
			}
		case "i":
			idb[f[1]] = now
		case "I":
			idOf[f[1]] = len(h.IDs)
			h.IDs = append(h.IDs, newid{[2]int64{idb[f[1]], now}, num(2)})
		case "b":
			for i := 2; i+1 < len(f); i += 2 {
				add(num(i), int(num(i+1)), true)
				batch[num(1)] = append(batch[num(1)], num(i))
			}
		case "B":
			for _, n := range batch[num(1)] {
				m := msgs[n]
				m.S[1], m.V[1] = now, now
			}
			delete(batch, num(1))
		case "d":
			delb[f[1]] = len(h.Dels)
			h.Dels = append(h.Dels, del{[]int64{num(2)}, [2]int64{now, inf}, 0})
		case "D":
			h.Dels[delb[f[1]]].D[1] = now
		case "X":
			h.Errs = append(h.Errs, l)
		}
	}
	now++
	h.Crash = now
	for _, b := range batch {
		h.Bats = append(h.Bats, b)
	}
	last := &worker{g: c.Gor + 1, rng: rng, ops: map[string]int{}}
	for k := 0; k < 2; k++ {
		db, err := unitdb.Open(filepath.Join(dir, "db"), options(config{Enc: c.Enc, Free: c.Free})...)
		if err != nil {
			return nil, fmt.Errorf("open after the process was killed: %v", err)
		}
		for q := range queries {
			last.get(db, q, 100000)
			g := &last.h.Gets[len(last.h.Gets)-1]
			g.G = [2]int64{now + 1, now + 2}
			now += 2
		}
		last.newID(db)
		i := &last.h.IDs[len(last.h.IDs)-1]
		i.I = [2]int64{now + 1, now + 2}
		now += 2
		if err := db.Close(); err != nil {
			return nil, fmt.Errorf("close: %v", err)
		}
	}
	h.Gets = append(h.Gets, last.h.Gets...)
	h.IDs = append(h.IDs, last.h.IDs...)
	h.Errs = append(h.Errs, last.h.Errs...)
	h.resolve()
	h.ranks()
	return h, nil
}

func crashText(s string) string {
	for _, k := range []string{"panic:", "fatal error:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 900 {
		s = s[:900]
	}
	return s
}

func TestKill(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN is not set")
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "kill")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(scratch)
	only := os.Getenv("VERIF_ONLY")
	for idx, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
		if only != "" && only != fmt.Sprint(idx) {
			continue
		}
		var c killConfig
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(3)
		}
		fmt.Fprintf(f, "{\"begin\":%d}\n", idx)
		root := filepath.Join(scratch, fmt.Sprint(idx))
		os.MkdirAll(root, 0777)
		h, err := killRun(c, root)
		res := map[string]interface{}{"index": idx, "ok": err == nil, "history": h}
		if err != nil {
			res["msg"] = err.Error()
		} else {
			res["ops"] = h.Ops
			res["steps"] = len(h.Msgs) + len(h.Dels) + len(h.Gets) + len(h.IDs)
			res["checks"] = len(h.Gets)
		}
		os.RemoveAll(root)
		b, _ := json.Marshal(res)
		io.WriteString(f, string(b)+"\n")
	}
	f.Close()
	os.RemoveAll(scratch)
	os.Exit(0)
}
