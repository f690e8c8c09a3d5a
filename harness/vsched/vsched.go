// Package vsched is the controlled scheduler: instrumented operations of the program report to it before they happen.
// Without an active exploration all its functions do nothing.
package vsched

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
)

type parked struct {
	gid     int64
	what    string
	enabled func() bool
	ch      chan bool
}

// Run is one controlled execution.
type Run struct {
	mu       sync.Mutex
	parked   []*parked
	ids      map[int64]int // goroutine -> logical id, given in order of first appearance
	Choices  []Choice
	Deadlock string
	Diverged string
	Steps    int
	prefix   []int
	current  int
	done     bool
}

// Choice is one scheduling decision: the threads that could run and the one that did.
type Choice struct {
	Enabled []int // logical ids
	What    []string
	Taken   int // index into Enabled
	Current int // index of the thread that ran last, -1 if it cannot go on
}

var (
	active  *Run
	AfterFS func(what string) // observer, called by the shims after an operation
)

// Active tells whether a controlled execution is under way.
func Active() bool { return active != nil }

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	b := buf[len("goroutine "):n]
	i := bytes.IndexByte(b, ' ')
	id, _ := strconv.ParseInt(string(b[:i]), 10, 64)
	return id
}

// Point is a scheduling point.
func Point(what string) { Gate(what, nil) }

// FuncPoint is a scheduling point at a function entry.
func FuncPoint(name string) { Gate("call "+name, nil) }

// Gate is a scheduling point that is passed only when enabled() holds.
func Gate(what string, enabled func() bool) {
	r := active
	if r == nil || r.done || ((enabled == nil || enabled()) && Filter != nil && !Filter(what)) {
		return
	}
	p := &parked{gid: goid(), what: what, enabled: enabled, ch: make(chan bool)}
	r.mu.Lock()
	r.parked = append(r.parked, p)
	r.mu.Unlock()
	<-p.ch
}

// Explore executes body under control: the first len(prefix) decisions with more than one alternative are taken from prefix, the
// rest goes on with the running thread as long as possible. It must be called inside a synctest bubble.
func Explore(prefix []int, body func()) *Run {
	r := &Run{ids: map[int64]int{}, prefix: prefix, current: -1}
	active = r
	finished := false
	go func() {
		body()
		finished = true
	}()
	idle := 0
	for {
		synctest.Wait()
		if finished {
			break
		}
		r.mu.Lock()
		ps := append([]*parked{}, r.parked...)
		r.mu.Unlock()
		if len(ps) == 0 {
			idle++
			if idle > 50 {
				r.Deadlock = "no thread can run and the program has not finished"
				break
			}
			time.Sleep(30 * time.Second) // fake clock: lets sleeping threads wake up
			continue
		}
		idle = 0
		// give ids to new threads in a canonical order
		var fresh []*parked
		for _, p := range ps {
			if _, ok := r.ids[p.gid]; !ok {
				fresh = append(fresh, p)
			}
		}
		sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].what < fresh[j].what })
		for _, p := range fresh {
			r.ids[p.gid] = len(r.ids)
		}
		var en []*parked
		for _, p := range ps {
			if p.enabled == nil || p.enabled() {
				en = append(en, p)
			}
		}
		if len(en) == 0 {
			r.Deadlock = "all threads wait for each other:"
			for _, p := range ps {
				r.Deadlock += fmt.Sprintf(" [%d] %s;", r.ids[p.gid], p.what)
			}
			break
		}
		sort.SliceStable(en, func(i, j int) bool { return r.ids[en[i].gid] < r.ids[en[j].gid] })
		pick, cur := 0, -1
		for i, p := range en {
			if r.ids[p.gid] == r.current {
				cur = i
			}
		}
		if cur >= 0 {
			pick = cur
		}
		if len(en) > 1 {
			k := len(r.Choices)
			if k < len(r.prefix) {
				pick = r.prefix[k]
				if pick >= len(en) {
					r.Diverged = fmt.Sprintf("decision %d: %d of %d", k, pick, len(en))
					pick = 0
				}
			}
			ch := Choice{Taken: pick, Current: cur}
			for _, p := range en {
				ch.Enabled = append(ch.Enabled, r.ids[p.gid])
				ch.What = append(ch.What, p.what)
			}
			r.Choices = append(r.Choices, ch)
		}
		p := en[pick]
		r.current = r.ids[p.gid]
		r.Steps++
		r.mu.Lock()
		for i, q := range r.parked {
			if q == p {
				r.parked = append(r.parked[:i], r.parked[i+1:]...)
				break
			}
		}
		r.mu.Unlock()
		p.ch <- true
	}
	r.done = true
	active = nil
	return r
}
