// Command vharness searches for an input on which a property fails, running
// the real library against independent oracles. It is a bounded search.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type report struct {
	Evaluations int64    `json:"evaluations"`
	Distinct    int64    `json:"distinct"`
	Samples     []string `json:"samples"`
	Rule        string   `json:"rule"`
	Failed      bool     `json:"failed"`
	Known       []string `json:"known"`
	Message     string   `json:"message"`
	Input       string   `json:"input"`
}

// T is one case: its random source and the description of its input.
type T struct {
	*rand.Rand
	n    int64 // number of the case
	desc []string
	// trace is the file which holds the description of the running case, for
	// failures that end the process.
	trace string
}

type failure struct{ msg string }

func (t *T) in(format string, a ...interface{}) {
	t.desc = append(t.desc, fmt.Sprintf(format, a...))
	if t.trace != "" {
		os.WriteFile(t.trace, []byte(strings.Join(t.desc, "\n")), 0o644)
	}
}

func (t *T) failf(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

func (t *T) pick(n int) bool { return t.Intn(n) == 0 }

type property struct {
	rule string
	// enum runs the enumerated cases, random one random case.
	enum   func(run func(func(*T)))
	random func(*T)
}

var (
	evals, distinct int64
	mu              sync.Mutex
	samples         []string
	failed          *report
	done            = make(chan struct{})
	once            sync.Once
)

func stop() { once.Do(func() { close(done) }) }

func stopped() bool {
	select {
	case <-done:
		return true
	default:
		return false
	}
}

type worker struct {
	seen  map[uint64]bool
	start int64 // start of the current case, for the watchdog
	t     atomic.Value
	trace string
}

func (w *worker) runCase(t *T, fn func(*T)) {
	t.trace = w.trace
	if t.trace != "" {
		os.Remove(t.trace)
	}
	w.t.Store(t)
	atomic.StoreInt64(&w.start, time.Now().UnixNano())
	defer atomic.StoreInt64(&w.start, 0)
	defer func() {
		if r := recover(); r != nil {
			var msg string
			if f, ok := r.(failure); ok {
				msg = f.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
			mu.Lock()
			if failed == nil {
				failed = &report{Failed: true, Message: msg, Input: strings.Join(t.desc, "\n")}
			}
			mu.Unlock()
			stop()
		}
		atomic.AddInt64(&evals, 1)
		h := fnv.New64a()
		for _, d := range t.desc {
			h.Write([]byte(d))
		}
		k := h.Sum64()
		if len(w.seen) < 1<<18 && !w.seen[k] && len(t.desc) > 0 {
			w.seen[k] = true
			atomic.AddInt64(&distinct, 1)
			if len(w.seen) == 20 {
				mu.Lock()
				if len(samples) < 4 {
					samples = append(samples, clip(strings.Join(t.desc, "; "), 300))
				}
				mu.Unlock()
			}
		}
	}()
	fn(t)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Duration("budget", 5*time.Second, "")
	repo := flag.String("repo", "/repo", "")
	flag.String("focus", "", "")
	workers := flag.Int("workers", 8, "")
	trace := flag.String("trace", "", "directory for the description of running cases")
	replayOrder := flag.String("replay-order", "", "")
	flag.Parse()
	p, ok := properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	mine(*repo)
	debug.SetMaxStack(256 << 20)
	if *replayOrder != "" {
		replayPairs(*replayOrder)
		return
	}
	if *prop == "C23" {
		*workers = 1
	}
	finish := func() {
		mu.Lock()
		rep := report{Rule: p.rule}
		if failed != nil {
			rep = *failed
			rep.Rule = p.rule
		}
		rep.Samples = samples
		if rep.Samples == nil {
			rep.Samples = []string{}
		}
		rep.Evaluations, rep.Distinct = atomic.LoadInt64(&evals), atomic.LoadInt64(&distinct)
		b, _ := json.Marshal(rep)
		fmt.Println(string(b))
		cleanup()
		os.Exit(0)
	}
	deadline := time.Now().Add(*budget)
	var ws []*worker
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		w := &worker{seen: map[uint64]bool{}}
		if *trace != "" {
			w.trace = filepath.Join(*trace, fmt.Sprintf("case%d", i))
		}
		ws = append(ws, w)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			src := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
			n := int64(0)
			if i == 0 && p.enum != nil {
				func() {
					type halt struct{}
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(halt); !ok {
								panic(r)
							}
						}
					}()
					p.enum(func(fn func(*T)) {
						if stopped() || time.Now().After(deadline) {
							panic(halt{})
						}
						w.runCase(&T{Rand: src, n: n}, fn)
						n++
					})
				}()
			}
			for !stopped() && time.Now().Before(deadline) {
				w.runCase(&T{Rand: src, n: n}, p.random)
				n++
			}
		}(i)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, w := range ws {
				if s := atomic.LoadInt64(&w.start); ms.HeapAlloc > 6<<30 && s != 0 && time.Now().UnixNano()-s > int64(time.Second) {
					t := w.t.Load().(*T)
					mu.Lock()
					if failed == nil {
						failed = &report{Failed: true, Message: "the call uses memory without bound (6 GB)", Input: strings.Join(t.desc, "\n")}
					}
					mu.Unlock()
					finish()
				}
				s := atomic.LoadInt64(&w.start)
				if s != 0 && time.Now().UnixNano()-s > int64(20*time.Second) {
					t := w.t.Load().(*T)
					mu.Lock()
					if failed == nil {
						failed = &report{Failed: true, Message: "the call does not terminate (20 s)", Input: strings.Join(t.desc, "\n")}
					}
					mu.Unlock()
					finish()
				}
			}
		}
	}()
	wg.Wait()
	finish()
}
