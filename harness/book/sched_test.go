package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"wiki2book/zz_verif/vlib"
	"wiki2book/zz_verif/vsched"
)

// scenario is one setting whose schedules are explored.
type scenario struct {
	Articles []string
	Workers  int
	Type     string // output type
	Gates    string // "http" or "all"
	World    string // which articles exist
	Warm     string `json:",omitempty"` // titles cached beforehand
	Preempt  int
}

func (s scenario) String() string { b, _ := json.Marshal(s); return string(b) }

func populate(w *world, kind string) {
	for _, t := range []string{"A", "B", "C", "D", "E"} {
		text := marker(t)
		switch kind {
		case "shared": // shared template, image, formula
			text += " {{T|x}} [[File:Shared.png|thumb|cap]] <math>a+b</math> [[File:Draw.svg|thumb|cap]]"
		case "template", "busy", "stale-template", "full":
			text += " {{T|x}}"
		case "image", "stale-image":
			text += " [[File:Shared.png|thumb|cap]]"
		case "math", "stale-math":
			text += " <math>a+b</math>"
		case "drawings":
			text += " [[File:Rel" + t + ".svg|thumb|cap]]"
		case "drawing":
			text += " [[File:Rel.svg|thumb|cap]]"
		case "own":
			text += " {{T|" + t + "}} [[File:Own" + t + ".png|thumb|cap]]"
		}
		if kind == "words" {
			text = strings.Repeat("w ", wordCount[t])
		}
		w.web.Articles["en.wikipedia.org|"+t] = text
	}
	if kind == "many" {
		for i := 0; i < 150; i++ {
			w.web.Articles[fmt.Sprintf("en.wikipedia.org|N%d", i)] = marker(fmt.Sprintf("N%d", i))
		}
	}
	for alias, title := range aliases {
		w.web.Redirects["en.wikipedia.org|"+alias] = title
	}
	w.web.Articles["en.wikipedia.org|A_B"] = marker("A B")
	w.web.Articles["en.wikipedia.org|A/B"] = marker("A/B")
	for _, t := range append(oddTitles, longTitles...) {
		w.web.Articles["en.wikipedia.org|"+t] = marker(t)
	}
	w.web.Expand = func(s string) string { return "Expanded(" + strings.Trim(s, "{}") + ")" }
}

// tooManyRequests makes every URL answer 429 once.
func tooManyRequests(w *world) {
	seen := map[string]bool{}
	w.web.Hook = func(r *http.Request, body string) (*http.Response, error, bool) {
		k := r.Method + r.URL.String() + body
		if seen[k] {
			return nil, nil, false
		}
		seen[k] = true
		return vlib.Response(r, 429, map[string]string{"Retry-After": "1"}, strings.NewReader("slow down")), nil, true
	}
}

type result struct {
	book    []string // per article: content
	files   map[string]string
	problem string
	stats   string // the whole statistics file
}

// execute runs the program once under the given schedule.
func execute(dir string, s scenario, prefix []int) (*vsched.Run, result) {
	w := newWorld(dir)
	populate(w, s.World)
	w.cfg["worker-threads"] = s.Workers
	w.cfg["output-type"] = s.Type
	if strings.HasPrefix(s.Type, "stats") {
		w.cfg["output-driver"] = "internal"
	}
	w.cfg["command-template-image-processing"] = "convert {INPUT} {OUTPUT}"
	w.cfg["command-template-svg-to-png"] = "convert {INPUT} {OUTPUT}"
	w.cfg["command-template-math-svg-to-png"] = "convert {INPUT} {OUTPUT}"
	if s.World == "full" {
		w.cfg["cache-max-size"] = 7000
		w.cfg["cache-max-age"] = 100000000
		w.cfg["cache-eviction-strategy"] = "lru"
	}
	if strings.HasPrefix(s.World, "drawing") {
		w.cfg["svg-size-to-viewbox"] = true
		w.cfg["wikipedia-image-article-hosts"] = []string{"commons.wikimedia.org"} // no second attempt
	}
	out := filepath.Join(dir, "out", "book."+map[bool]string{true: "json", false: "epub"}[s.Type == "stats-json"])
	args := []string{"project", w.writeProject(map[string]any{"output-file": out, "articles": s.Articles, "metadata": map[string]any{"title": "X"}}), "-c", w.writeConfig()}
	w.install()
	if s.World == "busy" {
		tooManyRequests(w)
	}
	if s.World == "full" { // each new file needs the room of old ones
		for i := 0; i < 60; i++ {
			p := filepath.Join(w.cache, "templates", fmt.Sprintf("junk%d", i))
			put(p, strings.Repeat("j", 120))
			old := time.Date(1980, 1, 1, 0, i, 0, 0, time.UTC)
			os.Chtimes(p, old, old)
		}
	}
	if strings.HasPrefix(s.World, "stale") { // outdated files both workers come across
		for _, f := range []string{"templates/" + fmt.Sprintf("%x", sha1.Sum([]byte("{{T|x}}"))), "math/" + fmt.Sprintf("%x", sha1.Sum([]byte("a+b"))), "images/Shared.png", "articles/File%3AShared.png.json"} {
			p := filepath.Join(w.cache, f)
			put(p, "outdated")
			old := time.Date(1980, 1, 1, 0, 0, 0, 0, time.UTC)
			os.Chtimes(p, old, old)
		}
	}
	if s.Warm != "" {
		put(filepath.Join(w.cache, "articles", s.Warm+".json"), fmt.Sprintf(`{"parse":{"title":%q,"wikitext":{"*":%q}}}`, s.Warm, marker(s.Warm)))
	}
	if s.Gates == "http" {
		vsched.Filter = func(what string) bool { return strings.HasPrefix(what, "GET") || strings.HasPrefix(what, "POST") }
	} else if s.Gates == "all" {
		vsched.Filter = func(what string) bool {
			return !strings.HasPrefix(what, "mkdirall") && !strings.HasPrefix(what, "call ") && !strings.HasPrefix(what, "walk")
		}
	} else if s.Gates == "walk" { // the steps of looking through the cache, and what makes files vanish
		vsched.Filter = func(what string) bool {
			for _, p := range []string{"walk", "GET", "POST", "convert", "remove", "rename"} {
				if strings.HasPrefix(what, p) {
					return true
				}
			}
			return false
		}
	} else { // "func": every function entry too
		vsched.Filter = nil
	}
	w.web.Gate = vsched.Point
	var r *vsched.Run
	ok := false
	synctest.Test(theT, func(t *testing.T) {
		r = vsched.Explore(prefix, func() {
			program(dir, args...)
			ok = true
		})
		if r.Deadlock != "" {
			panic("deadlock: " + r.Deadlock)
		}
	})
	_ = ok
	res := result{files: snapshot(w.cache)}
	if s.World == "full" {
		junk := 0
		for f := range res.files {
			if strings.Contains(f, "junk") {
				delete(res.files, f)
				junk++
			}
		}
		if junk < 40 || junk == 60 {
			panic(fmt.Sprintf("%d of 60 old files left, none or too many were evicted", junk))
		}
	}
	if s.Type == "stats-json" {
		b, err := os.ReadFile(out)
		if err != nil {
			res.problem = "no statistics file"
		}
		res.book = statsWords(string(b))
		res.stats = string(b)
		return r, res
	}
	if len(w.pandoc) != 1 {
		res.problem = fmt.Sprintf("pandoc was called %d times", len(w.pandoc))
		return r, res
	}
	c := w.pandoc[0]
	res.book = c.Content
	if c.Problem != "" {
		res.problem = c.Problem
	} else if c.Output != out {
		res.problem = "book written to " + c.Output
	}
	return r, res
}

// statsWords returns the total number of words of the combined statistics.
func statsWords(s string) []string {
	var v struct {
		Words int `json:"number-of-words"`
	}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return []string{err.Error()}
	}
	return []string{fmt.Sprint(v.Words)}
}

var wordCount = map[string]int{"A": 1, "B": 10, "C": 100, "D": 1000, "E": 10000}

// longTitles are as long as titles may be, and differ only at their end.
var longTitles = []string{strings.Repeat("ü", 127), strings.Repeat("ü", 126) + "ä", strings.Repeat("x", 254), strings.Repeat("x", 253) + ":"}

// oddTitles differ only in their capitalisation or special characters.
var oddTitles = []string{"Xy", "XY", "xY", "Äö", "äö", "ÄÖ", "C++", "C--", "C%2B%2B", "50%", "50%25", "AT&T", "AT&amp;T", "Who?", "Who", "\"Q\"", "'Q'", "A*", "A:B", "A\\B", "$1", "Xy.html", "Xy.json", "..", ".", "-o"}

// aliases are titles that lead to other articles.
var aliases = map[string]string{"R": "A", "S": "A", "Q": "B"}

func articleIn(content string) string {
	if i := strings.Index(content, "<h1>N"); i >= 0 {
		t, _, _ := strings.Cut(content[i+4:], "<")
		if strings.Count(content, marker(t)) == 1 {
			return t
		}
	}
	for a, t := range aliases {
		if strings.Count(content, marker(t)) == 1 && strings.Contains(content, "<h1>"+a+"</h1>") {
			return a
		}
	}
	for _, t := range append([]string{"A", "B", "C", "D", "E", "A B", "A/B", "A_B"}, append(oddTitles, longTitles...)...) {
		if strings.Count(content, marker(t)) == 1 && strings.Contains(content, "<h1>"+t+"</h1>") {
			return t
		}
	}
	return fmt.Sprintf("?(%.60q)", content)
}

// schedules explores all schedules of the scenario within its preemption bound; judge decides each execution.
func schedules(c *vlib.Ctx, s scenario, judge func(result) string) {
	do := c.Exec
	if s.Preempt < 0 { // only the schedule without any switch that is not necessary
		do = c.Do
	}
	run := func(prefix []int) (r *vsched.Run) {
		key := s.String() + "@" + vsched.Key(prefix)
		stop := do(key, func() vlib.Outcome {
			dir := filepath.Join(c.Scratch, "run")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			var res result
			r, res = execute(dir, s, prefix)
			var taken []string
			var states []string
			h := s.String()
			for _, ch := range r.Choices {
				taken = append(taken, fmt.Sprintf("%d:%s", ch.Enabled[ch.Taken], ch.What[ch.Taken]))
				if s.Gates == "func" {
					continue
				}
				h = fmt.Sprint(vlib.Hash64(h + fmt.Sprint(ch.Enabled[ch.Taken]) + ch.What[ch.Taken]))
				states = append(states, h)
			}
			if s.Gates == "func" {
				h = key
			}
			out := vlib.Outcome{Observed: strings.Join(res.book, "|") + res.problem, States: append(states, h), Steps: int64(r.Steps), Trivial: len(r.Choices) == 0}
			out.Bad = judge(res)
			if out.Bad != "" {
				out.Detail = "schedule: " + strings.Join(taken, "; ")
			}
			return out
		})
		if stop {
			return nil
		}
		return r
	}
	if s.Preempt < 0 {
		run(nil)
		return
	}
	if rk := c.Replay(); rk != "" {
		if i := strings.LastIndexByte(rk, '@'); i >= 0 && rk[:i] == s.String() {
			run(vsched.ParseKey(rk[i+1:]))
		}
		return
	}
	d := vsched.Diverged
	defer func() { c.Count("irreproducible_schedules", int64(vsched.Diverged-d)) }()
	vsched.Search(c.Shard, c.Shards, s.Preempt, func(prefix []int, own bool) *vsched.Run {
		if !own {
			dir := filepath.Join(c.Scratch, "run")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			r, _ := execute(dir, s, prefix)
			return r
		}
		if c.Expired() {
			return nil
		}
		return run(prefix)
	})
}

func checkC01() *vlib.Check {
	return &vlib.Check{ID: "C01", Level: "model_checking", QuickS: 600, ThoroughS: 1200,
		Rule:        "every schedule (within the bound) of the article workers of main(), for every article list and worker count; non-trivial when at least two threads were runnable at some point",
		Bounds:      map[string]string{"quick": "all article sequences of length <=3 over 3 titles (with repetitions) x workers 1..3, all completion orders at HTTP granularity; 4-5 articles x 2..5 workers; 6 lists with several titles of one article, 5 with titles of 254 bytes; lists of 1 to 40 articles in 3 orders with 5 numbers of workers, without preemption; lock/file-operation granularity with <=1 preemption", "thorough": "the same with <=3 preemptions at lock/file granularity, lists of up to 150 articles"},
		Assumptions: []string{"within one scheduling step code runs without interference (steps: HTTP request, lock, unlock, file operation)", "pandoc is represented by a stand-in that concatenates its input files"},
		Run: func(c *vlib.Ctx) {
			runtime.GOMAXPROCS(1) // deterministic start order of goroutines
			judgeFor := func(s scenario) func(result) string {
				return func(r result) string {
					var got []string
					if s.Type == "stats-json" {
						sum := 0
						for _, a := range s.Articles {
							sum += wordCount[a]
						}
						if want := []string{fmt.Sprint(sum)}; fmt.Sprint(want) != fmt.Sprint(r.book) {
							return fmt.Sprintf("the statistics count %v words instead of %v for %v %s", r.book, want, s.Articles, r.problem)
						}
						return r.problem
					}
					for _, b := range r.book {
						got = append(got, articleIn(b))
					}
					if strings.Join(got, "\n") != strings.Join(s.Articles, "\n") {
						return fmt.Sprintf("the book holds %q for the article list %q %s", got, s.Articles, r.problem)
					}
					return r.problem
				}
			}
			titles := []string{"A", "B", "C"}
			var lists [][]string
			var rec func(cur []string, n int)
			rec = func(cur []string, n int) {
				if len(cur) == n {
					lists = append(lists, append([]string{}, cur...))
					return
				}
				for _, t := range titles {
					rec(append(cur, t), n)
				}
			}
			for n := 1; n <= 3; n++ {
				rec(nil, n)
			}
			for _, l := range lists {
				for w := 1; w <= 3; w++ {
					s := scenario{Articles: l, Workers: w, Type: "epub2", Gates: "http", World: "plain", Preempt: 99}
					schedules(c, s, judgeFor(s))
				}
			}
			for _, l := range [][]string{{"A", "B", "C", "D"}, {"A", "B", "A", "C"}, {"D", "C", "B", "A", "E"}, {"A B", "A/B", "A"}, {"A", "A", "A", "A"}} {
				for w := 2; w <= 5; w++ {
					for _, ty := range []string{"epub2", "stats-json"} {
						s := scenario{Articles: l, Workers: w, Type: ty, Gates: "http", World: "plain", Preempt: 99}
						if ty == "stats-json" {
							if l[0] == "A B" {
								continue
							}
							s.World = "words"
						}
						if len(l) > 4 && !c.Thorough() {
							s.Preempt = 2
						}
						schedules(c, s, judgeFor(s))
					}
				}
			}
			// several titles of one article, long titles
			for _, l := range [][]string{longTitles[:1], longTitles[2:3], longTitles[:2], longTitles[2:], {longTitles[3], "A", longTitles[1], longTitles[0]}, {"R"}, {"A", "R"}, {"R", "A"}, {"R", "S"}, {"R", "Q", "S"}, {"R", "B", "A"}} {
				for w := 1; w <= 3; w++ {
					s := scenario{Articles: l, Workers: w, Type: "epub2", Gates: "http", World: "plain", Preempt: 99}
					schedules(c, s, judgeFor(s))
				}
			}
			// titles similar to each other, in pairs and all of them
			odd := [][]string{oddTitles}
			for i, a := range oddTitles {
				odd = append(odd, []string{a})
				for j, b := range oddTitles {
					if i != j {
						odd = append(odd, []string{a, b})
					}
				}
			}
			for _, l := range odd {
				for w := 1; w <= 2; w++ {
					s := scenario{Articles: l, Workers: w, Type: "epub2", Gates: "http", World: "plain", Preempt: 99}
					if len(l) > 2 {
						s.Preempt = 0
					}
					schedules(c, s, judgeFor(s))
				}
			}
			// long lists
			for n := 1; n <= c.Pick(40, 150); n++ {
				for _, w := range []int{1, 2, 5, 16, n} {
					for _, order := range []int{1, 7, -1} {
						var l []string
						for i := 0; i < n; i++ {
							l = append(l, fmt.Sprintf("N%d", ((i*order)%n+n)%n))
						}
						s := scenario{Articles: l, Workers: w, Type: "epub2", Gates: "http", World: "many", Preempt: -1}
						schedules(c, s, judgeFor(s))
					}
				}
			}
			for _, l := range [][]string{{"A", "B"}, {"A", "A"}, {"A", "B", "A"}, {"A", "B", "C"}} {
				for w := 2; w <= 3; w++ {
					for _, ty := range []string{"epub2", "stats-json"} {
						s := scenario{Articles: l, Workers: w, Type: ty, Gates: "all", World: "plain", Preempt: c.Pick(2, 3)}
						if ty == "stats-json" {
							s.World = "words"
						}
						schedules(c, s, judgeFor(s))
					}
				}
			}
		}}
}

func checkC02() *vlib.Check {
	return &vlib.Check{ID: "C02", Level: "model_checking", QuickS: 600, ThoroughS: 1500,
		Rule:        "every schedule (within the bound) of two or three article workers that use the same template, image and formula; each execution's book and cache are compared with the sequential run; non-trivial when at least two threads were runnable",
		Bounds:      map[string]string{"quick": "<=2 preemptions for single shared resources, <=1 for all of them together; scheduling points: HTTP request, lock, unlock, every file operation, external program start and end", "thorough": "<=3 / <=2 preemptions"},
		Assumptions: []string{"within one scheduling step code runs without interference", "image processing is idempotent"},
		Run: func(c *vlib.Ctx) {
			runtime.GOMAXPROCS(1) // deterministic start order of goroutines
			for _, s := range []scenario{
				{Articles: []string{"A", "B"}, Workers: 2, World: "template", Preempt: 3},
				{Articles: []string{"A", "B"}, Workers: 2, World: "math", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "image", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "A"}, Workers: 2, World: "image", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "busy", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "own", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "shared", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "B", "C"}, Workers: 3, World: "shared", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "full", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "stale-template", Preempt: c.Pick(2, 3)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "stale-math", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "stale-image", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "drawings", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "drawing", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "own", Gates: "walk", Preempt: c.Pick(2, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "shared", Gates: "walk", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "shared", Gates: "func", Preempt: 1},
				{Articles: []string{"A", "B"}, Workers: 2, World: "template", Gates: "func", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B"}, Workers: 2, World: "shared", Type: "stats-json", Preempt: c.Pick(1, 2)},
				{Articles: []string{"A", "B", "A"}, Workers: 3, World: "template", Type: "stats-json", Preempt: 1},
			} {
				if s.Type == "" {
					s.Type = "epub2"
				}
				if s.Gates == "" {
					s.Gates = "all"
				}
				seq := s
				seq.Workers = 1
				os.RemoveAll(filepath.Join(c.Scratch, "run"))
				os.MkdirAll(filepath.Join(c.Scratch, "run"), 0755)
				_, want := execute(filepath.Join(c.Scratch, "run"), seq, nil)
				schedules(c, s, func(r result) string {
					if r.problem != "" {
						return r.problem
					}
					if a, b := strings.Join(r.book, "\n==\n"), strings.Join(want.book, "\n==\n"); a != b {
						return fmt.Sprintf("the book differs from the sequential one: %q instead of %q", a, b)
					}
					if r.stats != want.stats {
						return fmt.Sprintf("the statistics differ from the sequential ones: %q instead of %q", r.stats, want.stats)
					}
					if d := diff(want.files, r.files); d != "" {
						return "cache differs from the sequential run: " + d
					}
					return ""
				})
			}
		}}
}
