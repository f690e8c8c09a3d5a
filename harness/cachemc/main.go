// Cache: every sequence of cache operations up to a bound against a reference model of size limit, eviction order and reuse
// (C05), and every file name up to a bound against containment and injectivity (C07).
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/zz_verif/vlib"
)

// entry is a cached file of the model; when is a logical time of the last use.
type entry struct {
	size, when int
	version    int
}

type op struct {
	kind string // put, get
	name int
	size int
}

func (o op) String() string {
	if o.kind == "get" {
		return fmt.Sprintf("get%d", o.name)
	}
	return fmt.Sprintf("put%d:%d", o.name, o.size)
}

var folders = []string{cache.ImageCacheDirName, cache.ArticleCacheDirName, cache.ImageCacheDirName, cache.HtmlCacheDirName}
var names = []string{"a.png", "b c.json", "File:d.png", "e.html"}

func path(dir string, i int) string {
	return filepath.Join(dir, folders[i], strings.ReplaceAll(names[i], ":", "%3A"))
}

// world is the model state: the cached files.
type model struct {
	files    map[int]entry
	strategy string
	max      int
	lru      bool
}

// put is the reference: evict in the order of the strategy, among all other files, until the limit is kept.
func (m *model) put(o op, now int, version int) {
	delete(m.files, o.name)
	if m.strategy != "none" {
		for {
			total := o.size
			for _, e := range m.files {
				total += e.size
			}
			if total <= m.max || len(m.files) == 0 {
				break
			}
			victim := -1
			for i, e := range m.files {
				if victim < 0 || (m.strategy == "largest" && e.size > m.files[victim].size) || (m.strategy == "lru" && e.when < m.files[victim].when) {
					victim = i
				}
			}
			delete(m.files, victim)
		}
	}
	m.files[o.name] = entry{o.size, now, version}
}

func (m *model) get(i int, now int) bool {
	e, ok := m.files[i]
	if ok && m.strategy == "lru" {
		e.when = now
		m.files[i] = e
	}
	return ok
}

func (m *model) String() string {
	var s []string
	type we struct{ when, i int }
	var order []we
	for i, e := range m.files {
		order = append(order, we{e.when, i})
	}
	sort.Slice(order, func(a, b int) bool { return order[a].when < order[b].when })
	for _, w := range order {
		s = append(s, fmt.Sprintf("%d:%d", w.i, m.files[w.i].size))
	}
	return fmt.Sprint(m.strategy, m.max, s)
}

func content(size, version int) string {
	s := fmt.Sprintf("%03d", version)
	return s + strings.Repeat("x", size-len(s))
}

// replay runs the operations on the real cache in dir and on the model.
func replay(dir string, strategy string, max int, ops []op, junk bool, age time.Duration) (o vlib.Outcome) {
	os.RemoveAll(dir)
	cfg := vlib.FreshConfig(dir)
	cfg.CacheEvictionStrategy = strategy
	cfg.CacheMaxSize = int64(max)
	m := &model{files: map[int]entry{}, strategy: strategy, max: max}
	// logical times: age ago plus one millisecond per step; files the program touches get the time of the step
	base := time.Now().Add(-age)
	evictions := 0
	for step, q := range ops {
		if junk { // a temporary file of another worker
			os.WriteFile(filepath.Join(dir, cache.TempDirName, "other"), []byte(strings.Repeat("t", 3)), 0644)
		}
		before := len(m.files)
		switch q.kind {
		case "put":
			p, err := cache.CacheToFile(folders[q.name], names[q.name], strings.NewReader(content(q.size, step)))
			if err != nil {
				o.Bad = fmt.Sprintf("step %d (%s): caching fails: %.200s", step+1, q, strings.Split(err.Error(), "\n")[0])
				return
			}
			if p != path(dir, q.name) {
				o.Bad = fmt.Sprintf("step %d (%s): cached to %s", step+1, q, p)
				return
			}
			m.put(q, step, step)
			if len(m.files) < before {
				evictions++
			}
		case "get":
			p, ok, err := cache.GetFile(folders[q.name], names[q.name])
			want := m.get(q.name, step)
			if err != nil || ok != want || p != path(dir, q.name) {
				o.Bad = fmt.Sprintf("step %d (%s): look-up gives %v %v %s instead of %v", step+1, q, ok, err, strings.TrimPrefix(p, dir), want)
				return
			}
		}
		// compare the directory with the model
		got := map[string]string{}
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			if strings.HasPrefix(p, filepath.Join(dir, cache.TempDirName)) {
				if filepath.Base(p) != "other" {
					got["temporary file"] = ""
				}
				return nil
			}
			b, _ := os.ReadFile(p)
			got[p] = string(b)
			if fi.ModTime().After(base.Add(age / 2)) {
				t := base.Add(time.Duration(step+1) * time.Millisecond)
				os.Chtimes(p, t, t)
			}
			return nil
		})
		for i, e := range m.files {
			if c, ok := got[path(dir, i)]; !ok {
				o.Bad = fmt.Sprintf("step %d (%s): %s is missing; the limit of %d bytes and the strategy %s allow %s", step+1, q, names[i], max, strategy, m)
				return
			} else if c != content(e.size, e.version) {
				o.Bad = fmt.Sprintf("step %d (%s): %s has the wrong content %.30q", step+1, q, names[i], c)
				return
			}
			delete(got, path(dir, i))
		}
		for p := range got {
			o.Bad = fmt.Sprintf("step %d (%s): %s is still there; with the limit of %d bytes the strategy %s leaves %s", step+1, q, strings.TrimPrefix(p, dir), max, strategy, m)
			return
		}
		o.States = append(o.States, m.String())
	}
	o.Steps = int64(len(ops))
	o.Trivial = evictions == 0
	o.Observed = fmt.Sprint(evictions, m)
	return
}

func checkC05() *vlib.Check {
	return &vlib.Check{ID: "C05", Level: "model_checking", QuickS: 600, ThoroughS: 1500,
		Rule:        "every sequence of put (name, size) and look-up operations on the real cache functions and file system, compared after every step with a model of size limit and eviction order; non-trivial when something was evicted",
		Bounds:      map[string]string{"quick": "all sequences of 4 operations over 3 names x 4 sizes plus look-ups, 3 strategies, limit 101 (3 operations: also 61); sequences of 4 with 2 sizes and 4 names; 5 further names of the cache directory at 3 operations; entries of ages of 0.5 s, at 3 operations also 1 h", "thorough": "all sequences of 5 operations over 3 names x 4 sizes plus look-ups, 6 with 2 sizes"},
		Assumptions: []string{"file sizes never hit the limit exactly, sizes and times are distinct", "operations of different workers are serialised by the cache's mutex (explored in C02)"},
		Run: func(c *vlib.Ctx) {
			folder, age := "cache", 500*time.Millisecond
			var rec func(strategy string, max int, alphabet []op, ops []op, n int, junk bool) bool
			rec = func(strategy string, max int, alphabet []op, ops []op, n int, junk bool) bool {
				if len(ops) == n {
					return c.Do(fmt.Sprintf("%s|%d|%v|%v|%s|%v", strategy, max, ops, junk, folder, age), func() vlib.Outcome {
						return replay(filepath.Join(c.Scratch, folder), strategy, max, ops, junk, age)
					})
				}
				for _, a := range alphabet {
					if rec(strategy, max, alphabet, append(append([]op{}, ops...), a), n, junk) {
						return true
					}
				}
				return false
			}
			// sizes are distinct per name, and no sum is 101 or 61
			var full, small []op
			for i := 0; i < 3; i++ {
				full = append(full, op{"get", i, 0})
				for _, s := range []int{20, 40, 60, 110} {
					full = append(full, op{"put", i, s + 2*i})
				}
			}
			for i := 0; i < 4; i++ {
				small = append(small, op{"get", i, 0}, op{"put", i, 24 + 2*i}, op{"put", i, 50 + 2*i})
			}
			// any directory can be the cache, and entries can be old
			for _, folder = range []string{".cache", "a b/.tmp", "x.tmp", "images", "%25a"} {
				for _, strategy := range []string{"lru", "largest", "none"} {
					if rec(strategy, 61, small, nil, 2, false) || rec(strategy, 61, small[:9], nil, 3, folder == "x.tmp") {
						return
					}
				}
			}
			folder, age = "cache", time.Hour
			for _, strategy := range []string{"lru", "largest"} {
				if rec(strategy, 61, small[:9], nil, 3, false) {
					return
				}
			}
			age = 500 * time.Millisecond
			for _, strategy := range []string{"lru", "largest", "none"} {
				for n := 1; n <= c.Pick(4, 5); n++ {
					for _, max := range []int{101, 61} {
						if strategy == "none" && n > 3 || max == 61 && n > c.Pick(3, 5) {
							continue
						}
						if rec(strategy, max, full, nil, n, false) {
							return
						}
					}
				}
				if strategy != "none" {
					for n := 3; n <= c.Pick(4, 6); n++ {
						if rec(strategy, 151, small, nil, n, false) {
							return
						}
					}
				}
			}
		}}
}

func checkC07() *vlib.Check {
	return &vlib.Check{ID: "C07", Level: "model_checking", QuickS: 600, ThoroughS: 600,
		Rule:        "every file name over an alphabet of characters that matter for paths and for the escaping itself; the real cache stores it, the path must lie directly in the folder and every name must be found again with its own content",
		Bounds:      map[string]string{"quick": "all names of length <=4 over 19 characters and the codes of the 10 escaped ones (732k); names of 190 to 290 bytes of 8 kinds with 5 beginnings, 7 endings and 3 small differences", "thorough": "all names of length <=5 over the first 17 of them (1.4M)"},
		Assumptions: []string{"names are not empty, not '.' and not '..' (wiki titles cannot be), and the file system is case sensitive"},
		Run: func(c *vlib.Ctx) {
			alphabet := []string{"a", "%", "2", "5", "F", "/", "\\", ":", "*", "?", "\"", "<", ">", "|", ".", " ", "ä", "A", "_", "25", "3C", "3E", "3A", "22", "2F", "5C", "7C", "3F", "2A"}
			dir := filepath.Join(c.Scratch, "cache")
			vlib.FreshConfig(dir)
			seen := map[string]string{}
			var rec func(s string, n int) bool
			rec = func(s string, n int) bool {
				if n == 0 {
					// every worker maps all names (injectivity needs all of them), the file system part is sharded
					p := cache.GetFilePathInCache(cache.ImageCacheDirName, s)
					rel := cache.GetRelativeFilePathInCache(cache.ImageCacheDirName, s)
					other, clash := seen[p]
					seen[p] = s
					return c.Do(fmt.Sprintf("%q", s), func() vlib.Outcome {
						o := vlib.Outcome{Observed: p}
						if clash && other != s {
							o.Bad = fmt.Sprintf("the names %q and %q share the file %s", other, s, strings.TrimPrefix(p, dir))
							return o
						}
						if s == "." || s == ".." {
							o.Trivial = true
							return o
						}
						if filepath.Dir(p) != filepath.Join(dir, cache.ImageCacheDirName) {
							o.Bad = fmt.Sprintf("%q is stored outside of its folder: %s", s, strings.TrimPrefix(p, dir))
							return o
						}
						if filepath.Join(dir, rel) != p {
							o.Bad = fmt.Sprintf("relative path %s and absolute path %s of %q differ", rel, strings.TrimPrefix(p, dir), s)
							return o
						}
						if s == "." || s == ".." {
							o.Trivial = true
							return o
						}
						q, err := cache.CacheToFile(cache.ImageCacheDirName, s, strings.NewReader("content of "+s))
						if err != nil || q != p {
							o.Bad = fmt.Sprintf("caching %q: %v %s", s, err, q)
							return o
						}
						b, err := os.ReadFile(p)
						r, ok, err2 := cache.GetFile(cache.ImageCacheDirName, s)
						if err != nil || err2 != nil || string(b) != "content of "+s || !ok || r != p {
							o.Bad = fmt.Sprintf("%q is not found again: %v %v %v %s", s, err, err2, ok, r)
						}
						os.Remove(p)
						return o
					})
				}
				for _, a := range alphabet {
					if rec(s+a, n-1) {
						return true
					}
				}
				return false
			}
			// long names: titles have up to 255 bytes, with prefix and ending
			for n := 190; n <= 280; n++ {
				for _, x := range []string{"a", "ä", "€", "𝄞", "%", ":", "a:", "ab\"c"} {
					for _, y := range []string{"", "b", "?", "ü", "File:"} {
						base := y + strings.Repeat(x, n)
						base = strings.ToValidUTF8(base[:n], "")
						for _, end := range []string{"", ".json", ".svg", ".jpeg.json", "1.png", "2.png", "." + x} {
							if rec(base+end, 0) || rec("x"+base[1:]+end, 0) || rec(base[:n/3]+"z"+base[n/3:]+end, 0) {
								return
							}
						}
					}
				}
			}
			for n := 1; n <= c.Pick(4, 5); n++ {
				if n == 5 {
					alphabet = alphabet[:17]
				}
				if rec("", n) {
					return
				}
			}
		}}
}

var _ = config.Current

func main() { vlib.Main(checkC05(), checkC07()) }
