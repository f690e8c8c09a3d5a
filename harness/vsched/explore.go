package vsched

import (
	"fmt"
	"strconv"
	"strings"
)

// Filter, when set, decides which points are scheduling points.
var Filter func(what string) bool

// Key writes a schedule.
func Key(prefix []int) string {
	var s []string
	for _, p := range prefix {
		s = append(s, strconv.Itoa(p))
	}
	return strings.Join(s, ",")
}

// ParseKey reads a schedule.
func ParseKey(s string) []int {
	var out []int
	for _, p := range strings.Split(s, ",") {
		if p != "" {
			n, _ := strconv.Atoi(p)
			out = append(out, n)
		}
	}
	return out
}

// Search enumerates all schedules with at most maxPreempt preemptions. exec runs one schedule prefix and returns its record (nil
// stops the search). The children of the root execution are divided among the shards.
func Search(shard, shards, maxPreempt int, exec func(prefix []int, own bool) *Run) {
	type item struct {
		prefix []int
		pre    int
		parent *Run
	}
	root := exec(nil, shard == 0)
	if root == nil {
		return
	}
	children := func(r *Run, from, pre int) []item {
		var out []item
		for i := len(r.Choices) - 1; i >= from; i-- {
			ch := r.Choices[i]
			cost := 0
			if ch.Current >= 0 {
				cost = 1
			}
			if pre+cost > maxPreempt {
				continue
			}
			for a := range ch.Enabled {
				if a == ch.Taken {
					continue
				}
				p := make([]int, 0, i+1)
				for k := 0; k < i; k++ {
					p = append(p, r.Choices[k].Taken)
				}
				out = append(out, item{append(p, a), pre + cost, r})
			}
		}
		return out
	}
	var stack []item
	for i, it := range children(root, 0, 0) {
		if i%shards == shard {
			stack = append(stack, it)
		}
	}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var r *Run
		for try := 0; ; try++ {
			if r = exec(it.prefix, true); r == nil {
				return
			}
			if r.Diverged == "" {
				r.Diverged = differ(r, it.parent, len(it.prefix))
			}
			if r.Diverged == "" || try == 4 {
				break
			}
		}
		if r.Diverged != "" {
			Diverged++
			continue
		}
		stack = append(stack, children(r, len(it.prefix), it.pre)...)
	}
}

// Diverged counts schedules that could not be reproduced (they are left out).
var Diverged int

// differ tells whether the execution r took another way than its parent within the common part of their schedules.
func differ(r, parent *Run, n int) string {
	for i := 0; i < n; i++ {
		if i >= len(r.Choices) {
			return "execution ended early"
		}
		if a, b := fmt.Sprint(r.Choices[i].Enabled, r.Choices[i].What), fmt.Sprint(parent.Choices[i].Enabled, parent.Choices[i].What); a != b {
			return fmt.Sprintf("decision %d: %s instead of %s", i, a, b)
		}
	}
	return ""
}
