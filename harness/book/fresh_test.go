package main

import (
	"fmt"
	"math"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/zz_verif/vlib"
)

// The world of the freshness check: one article with a template, a picture, a converted drawing and a formula. Everything the
// server delivers carries the version of the server at that time.
type freshWorld struct {
	*world
	version int
	args    []string
	out     string
}

const maxAge = 100 // minutes

// resources: cache file (glob below the cache directory) of everything that is fetched from the server.
var resources = []struct{ Name, Glob, Request string }{
	{"article", "articles/A.json", "GET https://en.wikipedia.org/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=A"},
	{"template", "templates/*", "GET https://en.wikipedia.org/w/api.php?action=expandtemplates"},
	{"picture", "images/Pic.png", "GET https://upload.wikimedia.org/wikipedia/commons/"},
	{"drawing", "images/Draw.svg", "GET https://upload.wikimedia.org/wikipedia/commons/"},
	{"formula", "math/*", "POST https://wikimedia.org/api/rest_v1/media/math/check/tex"},
	{"formula-svg", "images/*[0-9a-f].svg", "GET https://wikimedia.org/api/rest_v1/media/math/render/svg/"},
	{"formula-png", "images/*[0-9a-f].png", "GET https://wikimedia.org/api/rest_v1/media/math/render/png/"},
	{"picture-page", "articles/File%3APic.png.json", "GET https://commons.wikimedia.org/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=File%3APic.png"},
	{"drawing-page", "articles/File%3ADraw.svg.json", "GET https://commons.wikimedia.org/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=File%3ADraw.svg"},
}

func newFreshWorld(dir, strategy string) *freshWorld {
	s := setting{Mode: "article", Cfg: map[string]any{"cache-eviction-strategy": strategy, "cache-max-age": maxAge}}
	w, args, out := s.build(dir)
	f := &freshWorld{world: w, version: 1, out: out}
	f.args = append([]string{"article", "A"}, args[2:]...)
	w.web.Hook = func(r *http.Request, body string) (*http.Response, error, bool) {
		v := fmt.Sprintf("v%d", f.version)
		w.web.Articles["en.wikipedia.org|A"] = "Text" + v + " {{T|x}} [[File:Pic.png|thumb|cap]] [[File:Draw.svg|thumb|cap]] <math>a+b</math>"
		w.web.Expand = func(string) string { return "Template" + v }
		switch {
		case strings.HasSuffix(r.URL.Path, "/Pic.png"):
			return vlib.Response(r, 200, nil, strings.NewReader("Picture"+v)), nil, true
		case strings.HasSuffix(r.URL.Path, "/Draw.svg"):
			return vlib.Response(r, 200, nil, strings.NewReader("<svg width=\"1\" height=\"1\"><!--Drawing"+v+"--></svg>")), nil, true
		case strings.Contains(r.URL.Path, "/render/svg/"):
			return vlib.Response(r, 200, nil, strings.NewReader("<svg width=\"2ex\" height=\"3ex\" style=\"FormulaSvg"+v+"\"></svg>")), nil, true
		case strings.Contains(r.URL.Path, "/render/png/"):
			return vlib.Response(r, 200, nil, strings.NewReader("FormulaPng"+v)), nil, true
		}
		return nil, nil, false
	}
	return f
}

func (f *freshWorld) once() (book string, requests []string) {
	f.web.ResetLog()
	f.pandoc = nil
	p := f.run(nil, f.root, f.args...)
	book = f.book(p, f.out)
	return book, f.web.Requests()
}

// file returns the cache file of a resource.
func (f *freshWorld) file(i int) string {
	m, _ := filepath.Glob(filepath.Join(f.cache, resources[i].Glob))
	var keep []string
	for _, p := range m {
		if (resources[i].Name == "formula-svg" && strings.HasSuffix(p, "Draw.svg")) || (resources[i].Name == "formula-png" && (strings.HasSuffix(p, "Pic.png") || strings.HasSuffix(p, "Draw.svg.png"))) {
			continue
		}
		if (resources[i].Name == "formula-png") && strings.HasSuffix(p, ".svg.png") {
			continue
		}
		keep = append(keep, p)
	}
	if len(keep) != 1 {
		return ""
	}
	return keep[0]
}

// judge compares book and requests with what the versions of the resources demand.
func (f *freshWorld) judge(book string, requests []string, version []int, fetched map[int]bool) string {
	if strings.HasPrefix(book, "failed") || strings.HasPrefix(book, "no book") {
		return "the run " + book
	}
	shows := []string{"Text", "Template", "Picture", "Drawing", "", "FormulaSvg", "FormulaPng"}
	for i, s := range shows {
		if s == "" {
			continue
		}
		want := fmt.Sprintf("%sv%d", s, version[i])
		if !strings.Contains(book, want) {
			return fmt.Sprintf("the book does not show version %d of the %s (the server had that version when the valid copy was made)", version[i], resources[i].Name)
		}
	}
	if strings.Contains(book, "MISSING") {
		return "a picture of the book is missing"
	}
	for i, r := range resources {
		n := 0
		for _, q := range requests {
			if strings.HasPrefix(q, r.Request) && !(r.Name == "picture" && !strings.HasSuffix(q, "Pic.png")) && !(r.Name == "drawing" && !strings.HasSuffix(q, "Draw.svg")) {
				n++
			}
		}
		want := 0
		if fetched[i] {
			want = 1
		}
		if n != want {
			return fmt.Sprintf("the %s is requested %d times instead of %d", r.Name, n, want)
		}
	}
	if len(requests) != len(fetched) {
		return fmt.Sprintf("%d requests instead of %d: %q", len(requests), len(fetched), requests)
	}
	return ""
}

func ageBy(file string, minutes int) {
	fi, err := os.Stat(file)
	if err == nil {
		t := fi.ModTime().Add(-time.Duration(minutes) * time.Minute)
		os.Chtimes(file, t, t)
	}
}

func checkC06() *vlib.Check {
	return &vlib.Check{ID: "C06", Level: "model_checking", QuickS: 600, ThoroughS: 1500,
		Rule:        "every combination of valid, outdated and deleted cache entries of the nine resources of an article before a second run, and every history of runs with time passing in between; the server changes all content between the runs; requests and book of each run are compared with a model of entry ages",
		Bounds:      map[string]string{"quick": "3^9 entry states (strategy none), 2^9 (lru, largest); histories of 4 runs with 4 time steps x 3 strategies; 18 ages (also in the future) x 23 maximum ages for a single entry; HTML files of earlier runs with force-regenerate-html set in 3 ways", "thorough": "3^9 entry states x 3 strategies; histories of 6 runs"},
		Assumptions: []string{"ages near the limit (within a minute) are not explored", "pandoc, image tools and Wikipedia are stand-ins"},
		Run: func(c *vlib.Ctx) {
			fresh := func(strategy string) *freshWorld {
				dir := filepath.Join(c.Scratch, "run")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				return newFreshWorld(dir, strategy)
			}
			for _, strategy := range []string{"none", "lru", "largest"} {
				base := 2
				if strategy == "none" || c.Thorough() {
					base = 3
				}
				n := 1
				for range resources {
					n *= base
				}
				for code := 0; code < n; code++ {
					st := make([]int, len(resources)) // 0 valid, 1 outdated, 2 deleted
					for i, x := 0, code; i < len(st); i++ {
						st[i], x = x%base, x/base
					}
					if c.Do(fmt.Sprintf("%s|%v", strategy, st), func() vlib.Outcome {
						f := fresh(strategy)
						if b, _ := f.once(); !strings.Contains(b, "Textv1") {
							return vlib.Outcome{Bad: "first run: " + b}
						}
						version := make([]int, len(resources))
						fetched := map[int]bool{}
						for i := range resources {
							file := f.file(i)
							if file == "" {
								return vlib.Outcome{Bad: "no single cache file for the " + resources[i].Name}
							}
							version[i] = 1
							switch st[i] {
							case 0:
								ageBy(file, maxAge-3)
							case 1:
								ageBy(file, maxAge+3)
							case 2:
								os.Remove(file)
							}
							if st[i] != 0 {
								fetched[i], version[i] = true, 2
							}
						}
						f.version = 2
						b, req := f.once()
						o := vlib.Outcome{Executions: 2, Trivial: len(fetched) == 0, Observed: fmt.Sprint(req)}
						o.Bad = f.judge(b, req, version, fetched)
						return o
					}) {
						return
					}
				}
			}
			// every pair of age and maximum age, also extreme ones, for a single entry
			minutes := []int64{-5256000, -60, -2, 0, 1, 59, 60, 61, 1439, 1440, 1441, 10080, 43199, 43200, 43201, 525600, 5256000, 52560000}
			for _, strategy := range []string{"none", "lru", "largest"} {
				for _, max := range append(slices.Clone(minutes[3:]), 153722867, 153722868, 200000000, 1<<31-1, 1<<31, 1<<33, 1<<62, math.MaxInt64) {
					for _, a := range minutes {
						for _, plus := range []time.Duration{3 * time.Second, 57 * time.Second} {
							if c.Do(fmt.Sprintf("age|%s|%d|%d|%v", strategy, max, a, plus), func() (o vlib.Outcome) {
								cfg := vlib.FreshConfig(filepath.Join(c.Scratch, "single"))
								cfg.CacheEvictionStrategy, cfg.CacheMaxAge = strategy, max
								p, err := cache.CacheToFile(cache.ImageCacheDirName, "a.png", strings.NewReader("x"))
								t := time.Now().Add(-time.Duration(a)*time.Minute - plus)
								if os.Chtimes(p, t, t) != nil || err != nil {
									return vlib.Outcome{Bad: fmt.Sprint("caching fails: ", err)}
								}
								_, ok, err := cache.GetFile(cache.ImageCacheDirName, "a.png")
								_, missing := os.Stat(p)
								o.Observed = fmt.Sprint(ok)
								o.Trivial = a == max // the last started minute is not fixed
								if a < max && (!ok || err != nil || missing != nil) {
									o.Bad = fmt.Sprintf("an entry of %d minutes is not used (%v) although the maximum age is %d minutes", a, err, max)
								} else if a > max && (ok || err != nil) {
									o.Bad = fmt.Sprintf("an entry of %d minutes is used (%v) although the maximum age is %d minutes", a, err, max)
								}
								return
							}) {
								return
							}
						}
					}
				}
			}
			steps := []int{0, 40, 90, 130}
			depth := c.Pick(4, 6)
			for _, strategy := range []string{"none", "lru", "largest"} {
				n := 1
				for i := 0; i < depth; i++ {
					n *= len(steps)
				}
				for code := 0; code < n; code++ {
					hist := make([]int, depth)
					for i, x := 0, code; i < depth; i++ {
						hist[i], x = steps[x%len(steps)], x/len(steps)
					}
					if c.Do(fmt.Sprintf("%s|history%v", strategy, hist), func() vlib.Outcome {
						f := fresh(strategy)
						age := map[int]int{}
						version := make([]int, len(resources))
						o := vlib.Outcome{Observed: ""}
						all := map[int]bool{}
						for i := range resources {
							all[i], version[i] = true, 1
						}
						b, req := f.once()
						if o.Bad = f.judge(b, req, version, all); o.Bad != "" {
							return o
						}
						for step, minutes := range hist {
							f.version++
							filepath.Walk(f.cache, func(p string, fi os.FileInfo, err error) error {
								if err == nil && !fi.IsDir() {
									ageBy(p, minutes)
								}
								return nil
							})
							fetched := map[int]bool{}
							for i := range resources {
								age[i] += minutes
								if age[i] > maxAge {
									fetched[i], version[i], age[i] = true, f.version, 0
								} else if strategy == "lru" {
									age[i] = 0 // using an entry makes it young
								}
							}
							b, req := f.once()
							if o.Bad = f.judge(b, req, version, fetched); o.Bad != "" {
								o.Bad = fmt.Sprintf("run %d: %s", step+2, o.Bad)
								return o
							}
							var ks []int
							for k := range age {
								ks = append(ks, k*1000+age[k])
							}
							sort.Ints(ks)
							o.States = append(o.States, strategy+fmt.Sprint(ks))
							o.Observed += fmt.Sprint(len(req)) + " "
						}
						o.Executions = int64(depth + 1)
						return o
					}) {
						return
					}
				}
			}
			// HTML files of previous runs are not used when they shall be made again.
			for _, mode := range []string{"article", "project"} {
				for _, flag := range [][]string{{"-r"}, {"--force-regenerate-html"}, nil} {
					for _, dir := range []string{"html", "cache"} {
						c.Do(fmt.Sprintf("forced|%s|%v|%s", mode, flag, dir), func() (o vlib.Outcome) {
							f := fresh("none")
							cwd := f.root
							if dir == "cache" {
								cwd = f.cache
							}
							put(filepath.Join(cwd, "html", "A.html"), "something else")
							if mode == "project" {
								cfg := ""
								if flag == nil {
									cfg = `,"force-regenerate-html":true`
								}
								put(filepath.Join(cwd, "p.json"), `{"articles":["A"],"metadata":{"title":"X"}`+cfg+`}`)
								f.args = append([]string{"project", filepath.Join(cwd, "p.json")}, f.args[2:]...)
							} else if flag == nil {
								f.cfg["force-regenerate-html"] = true
								f.writeConfig()
							}
							f.args = append(f.args, flag...)
							for i := 1; i <= 3; i++ {
								f.web.ResetLog()
								f.pandoc = nil
								p := f.run(nil, cwd, f.args...)
								b := f.book(p, f.out)
								if want := fmt.Sprintf("Textv%d", f.version); !strings.Contains(b, want) {
									o.Bad, o.Detail = fmt.Sprintf("run %d: the book lacks the article, although its HTML had to be made again", i), b
								}
								f.version++
								os.RemoveAll(filepath.Join(f.cache, "articles"))
							}
							o.Executions, o.Observed = 3, f.out
							return
						})
					}
				}
			}
			// Where the project file lies must not matter.
			for _, place := range []string{"project next to the cache", "project inside the cache directory", "project directory holds an unrelated html/A.html"} {
				for _, mode := range []string{"article", "project"} {
					c.Do(place+"|"+mode, func() vlib.Outcome {
						f := fresh("none")
						cwd := f.root
						switch place {
						case "project inside the cache directory":
							cwd = f.cache
							os.MkdirAll(cwd, 0755)
						case "project directory holds an unrelated html/A.html":
							put(filepath.Join(f.root, "html", "A.html"), "something else")
						}
						if mode == "project" {
							put(filepath.Join(cwd, "p.json"), `{"articles":["A"],"metadata":{"title":"X"}}`)
							f.args = append([]string{"project", filepath.Join(cwd, "p.json")}, f.args[2:]...)
						}
						for i := 1; i <= 2; i++ {
							f.web.ResetLog()
							f.pandoc = nil
							p := f.run(nil, cwd, f.args...)
							if b := f.book(p, f.out); !strings.Contains(b, "Textv1") {
								return vlib.Outcome{Bad: fmt.Sprintf("run %d: the book lacks the article", i), Detail: b}
							}
						}
						return vlib.Outcome{Executions: 2, Observed: place}
					})
				}
			}
		}}
}
