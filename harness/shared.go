package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
)

// ---- C21: calls do not depend on the calls made before

// pair is one call: the component made from a seed, applied to a text.
type pair struct {
	Seed int64
	Text []byte
}

func (p pair) component() (string, interface{}, func(string) string) {
	return (&T{Rand: rand.New(rand.NewSource(p.Seed))}).genComponent()
}

// runPairs makes the calls in the given order. Calls with one seed share the
// component.
func runPairs(ps []pair, order []int) []string {
	runs := map[int64]func(string) string{}
	out := make([]string, len(ps))
	for _, i := range order {
		if runs[ps[i].Seed] == nil {
			_, _, runs[ps[i].Seed] = ps[i].component()
		}
		out[i] = fmt.Sprintf("%q", runs[ps[i].Seed](string(ps[i].Text)))
	}
	return out
}

type orderJob struct {
	Pairs []pair
	Order []int
}

// replayPairs is the other process.
func replayPairs(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var j orderJob
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	r, _ := json.Marshal(runPairs(j.Pairs, j.Order))
	os.Stdout.Write(r)
}

func checkHistory(t *T) {
	var ps []pair
	texts := []string{t.bpeWord(), t.genText(false), t.genText(true), t.bpeWord(), "", "a b"}
	for k := 0; k < 40; k++ {
		seed := t.Int63()
		for _, i := range t.Perm(len(texts)) {
			ps = append(ps, pair{seed, []byte(texts[i])})
		}
	}
	ps = append(ps, ps...)
	got := runPairs(ps, t.Perm(len(ps)))
	b, _ := json.Marshal(orderJob{ps, t.Perm(len(ps))})
	f := t.tempFile(b)
	defer os.Remove(f)
	exe, err := os.Executable()
	if err != nil {
		return
	}
	out, err := exec.Command(exe, "-prop", "C21", "-replay-order", f).Output()
	if err != nil {
		return
	}
	var other []string
	if json.Unmarshal(out, &other) != nil || len(other) != len(got) {
		return
	}
	for i := range got {
		if got[i] != other[i] {
			n, _, _ := ps[i].component()
			t.in("%s", n)
			t.in("on %q", ps[i].Text)
			t.failf("the result depends on the calls made before: %s after some calls, %s after others", clip(got[i], 1000), clip(other[i], 1000))
		}
	}
}

// ---- C23

var propC23 = property{
	rule: "one random component (normalizer, pre-tokenizer, pattern, model) shared by 8 goroutines, each on its own texts, several rounds, against the results of an equal component used alone; under the race detector",
	random: func(t *T) {
		seed := t.Int63()
		p := pair{Seed: seed}
		n, _, alone := p.component()
		t.in("%s, shared by 8 goroutines", n)
		const workers = 8
		var texts [workers][]string
		var want [workers][]string
		for w := range texts {
			for k := 1 + t.Intn(4); k > 0; k-- {
				s := t.genText(t.pick(2))
				if t.pick(2) {
					s = t.bpeWord()
				}
				if t.pick(8) {
					s = strings.Repeat(s+" ", 1+t.Intn(20))
				}
				texts[w] = append(texts[w], s)
			}
		}
		t.in("texts %q", texts)
		for w := range texts {
			for _, s := range texts[w] {
				want[w] = append(want[w], alone(s))
			}
		}
		_, _, shared := p.component()
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		start := make(chan struct{})
		for w := range texts {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						bad = fmt.Sprintf("panic: %v", r)
						mu.Unlock()
					}
				}()
				<-start
				for round := 0; round < 3; round++ {
					for i, s := range texts[w] {
						if got := shared(s); got != want[w][i] {
							mu.Lock()
							bad = fmt.Sprintf("on %q a goroutine gets %s, expected %s", clip(s, 200), clip(got, 800), clip(want[w][i], 800))
							mu.Unlock()
							return
						}
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		if bad != "" {
			t.failf("%s", bad)
		}
	},
}
