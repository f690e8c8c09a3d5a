package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/zz_verif/vlib"
)

// entry is one configuration entry with some valid values; the first one is the default, nil stands for "not given".
type entry struct {
	name   string
	values []any
	base   map[string]any // further entries of the config file that make the values valid
}

func list(l ...string) []string { return append([]string{}, l...) }

// entries are all configuration entries. Files below dir exist.
func entries(dir string) []entry {
	d := config.NewDefaultConfig()
	in := func(p string) string { return filepath.Join(dir, p) }
	cmd := func(x string) []any { return []any{x, "tool {INPUT} {OUTPUT}", "x/tool -i {INPUT} -o {OUTPUT} -a"} }
	opt := func(x string) []any { return append(cmd(x), "") }
	lists := func(def []string) []any {
		out := []any{def, list("a"), list("b", "c"), list("c", "b")}
		if len(def) > 1 {
			r := list(def...)
			r[0], r[1] = r[1], r[0]
			out = append(out, r, list(append(list(def...), "a")...), list(def[0], def[0]))
			same := list()
			for range def {
				same = append(same, def[0])
			}
			out = append(out, same)
		}
		return out
	}
	internal := map[string]any{"output-driver": "internal", "output-type": "epub3"}
	return []entry{
		{"force-regenerate-html", []any{false, true}, nil},
		{"svg-size-to-viewbox", []any{false, true}, nil},
		{"output-type", []any{d.OutputType, "epub3"}, nil},
		{"output-type", []any{"epub3", "stats-json", "stats-txt"}, internal},
		{"output-driver", []any{d.OutputDriver, "internal"}, map[string]any{"output-type": "epub3"}},
		{"cache-dir", []any{d.CacheDir, in("c1"), in("c2")}, nil},
		{"cache-max-size", []any{d.CacheMaxSize, int64(5_000_000), int64(6_000_000_000)}, nil},
		{"cache-max-age", []any{d.CacheMaxAge, int64(1), int64(50_000)}, nil},
		{"cache-eviction-strategy", []any{d.CacheEvictionStrategy, "none", "largest"}, nil},
		{"style-file", []any{d.StyleFile, in("a.css"), in("b.css")}, nil},
		{"cover-image", []any{d.CoverImage, in("a.png"), in("b.png")}, nil},
		{"command-template-svg-to-png", opt(d.CommandTemplateSvgToPng), nil},
		{"command-template-math-svg-to-png", cmd(d.CommandTemplateMathSvgToPng), nil},
		{"command-template-image-processing", opt(d.CommandTemplateImageProcessing), nil},
		{"command-template-pdf-to-png", opt(d.CommandTemplatePdfToPng), nil},
		{"command-template-webp-to-png", opt(d.CommandTemplateWebpToPng), nil},
		{"pandoc-executable", []any{d.PandocExecutable, "pandoc3", in("pandoc")}, nil},
		{"pandoc-data-dir", []any{d.PandocDataDir, in("d1"), in("d2")}, nil},
		{"font-files", []any{list(), list(in("a.ttf")), list(in("b.ttf"), in("a.ttf")), list(in("a.ttf"), in("b.ttf"))}, nil},
		{"ignored-templates", lists(d.IgnoredTemplates), nil},
		{"trailing-templates", lists(d.TrailingTemplates), nil},
		{"ignored-image-params", lists(d.IgnoredImageParams), nil},
		{"ignored-media-types", lists(d.IgnoredMediaTypes), nil},
		{"wikipedia-instance", []any{d.WikipediaInstance, "de", "fr"}, nil},
		{"wikipedia-host", []any{d.WikipediaHost, "wiki.de", "h.org"}, nil},
		{"wikipedia-image-host", []any{d.WikipediaImageHost, "i.de", "i.org"}, nil},
		{"wikipedia-image-article-hosts", lists(d.WikipediaImageArticleHosts), nil},
		{"wikipedia-math-rest-api", []any{d.WikipediaMathRestApi, "https://m.de/x", "https://m.org"}, nil},
		{"file-prefixes", lists(d.FilePrefixes), nil},
		{"allowed-link-prefixes", lists(d.AllowedLinkPrefixes), nil},
		{"category-prefixes", lists(d.CategoryPrefixes), nil},
		{"math-converter", []any{d.MathConverter, "none", "template"}, nil},
		{"toc-depth", []any{d.TocDepth, 0, 6}, nil},
		{"worker-threads", []any{d.WorkerThreads, 1, 7}, nil},
		{"user-agent-template", []any{d.UserAgentTemplate, "a b/{{VERSION}}", ""}, nil},
	}
}

// flags turns a value into CLI arguments.
func flags(name string, v any) []string {
	if l, ok := v.([]string); ok {
		var out []string
		for _, x := range l {
			out = append(out, "--"+name+"="+x)
		}
		return out
	}
	return []string{fmt.Sprintf("--%s=%v", name, v)}
}

// settingsOf lists the settings in c by name.
func settingsOf(c *config.Configuration) map[string]string {
	out := map[string]string{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		b, _ := json.Marshal(v.Field(i).Interface())
		if string(b) == "null" {
			b = []byte("[]")
		}
		out[v.Type().Field(i).Tag.Get("json")] = string(b)
	}
	return out
}

func jsonOf(v any) string { b, _ := json.Marshal(v); return string(b) }

// levels are the places for settings in the order of increasing precedence.
type levels struct {
	Mode    string
	File    map[string]any
	Project map[string]any
	Cli     [][2]any // name, value
}

// String is the same in each directory.
func (l levels) String(dir string) string {
	return strings.NewReplacer(dir, "DIR", config.NewDefaultConfig().CacheDir, "DEFAULT").Replace(jsonOf(l))
}

// start runs the program with these settings.
func (l levels) start(dir, text string, hook func(r *http.Request, body string) (*http.Response, error, bool)) (*proc, *world) {
	w := newWorld(dir)
	for _, f := range []string{"a.css", "b.css", "a.png", "b.png", "a.ttf", "b.ttf", "d1/x", "d2/x"} {
		put(filepath.Join(dir, f), "x")
	}
	w.web.Articles["*|A"] = text
	w.web.Hook = hook
	w.cfg = map[string]any{}
	for k, v := range l.File {
		w.cfg[k] = v
	}
	var args []string
	switch l.Mode {
	case "project":
		p := map[string]any{"articles": []string{}, "output-file": filepath.Join(dir, "book.epub")}
		for k, v := range l.Project {
			p[k] = v
		}
		args = []string{"project", w.writeProject(p)}
	case "article":
		args = []string{"article", "A"}
	case "standalone":
		put(filepath.Join(dir, "A.mediawiki"), "text")
		args = []string{"standalone", filepath.Join(dir, "A.mediawiki")}
	}
	if len(l.File) > 0 {
		args = append(args, "-c", w.writeConfig())
	}
	for _, kv := range l.Cli {
		args = append(args, flags(kv[0].(string), kv[1])...)
	}
	return w.run(nil, dir, args...), w
}

func checkC22() *vlib.Check {
	return &vlib.Check{ID: "C22", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "each setting the program works with is the one from the CLI, else from the project file, else from the config file, else the default one, whatever the other settings are",
		Bounds:      map[string]string{"quick": "each of the 34 entries: all assignments of no value, the default and up to 7 other values to the three places, in the three modes; all pairs of entries in all pairs of places", "thorough": "additionally all triples of entries, one in each place, in all orders"},
		Assumptions: []string{"the settings up to each place are valid"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			all := entries(dir)
			one := func(l levels) bool {
				return c.Do(l.String(dir), func() (out vlib.Outcome) {
					os.RemoveAll(dir)
					os.MkdirAll(dir, 0755)
					want := settingsOf(config.NewDefaultConfig())
					for k, v := range l.File {
						want[k] = jsonOf(v)
					}
					for k, v := range l.Project {
						want[k] = jsonOf(v)
					}
					for _, kv := range l.Cli {
						want[kv[0].(string)] = jsonOf(kv[1])
					}
					p, _ := l.start(dir, "text", nil)
					got := settingsOf(config.Current)
					out.Observed = jsonOf(got)
					var names []string
					for k := range want {
						names = append(names, k)
					}
					sort.Strings(names)
					for _, k := range names {
						if got[k] != want[k] {
							out.Bad = fmt.Sprintf("%s is %s, must be %s (%s)", k, got[k], want[k], p.message)
							return
						}
					}
					return
				})
			}
			merged := func(base map[string]any, k string, v any) map[string]any {
				m := map[string]any{}
				for a, b := range base {
					m[a] = b
				}
				if v != nil {
					m[k] = v
				}
				return m
			}
			cli := func(k string, v any) [][2]any {
				if l, ok := v.([]string); v == nil || ok && len(l) == 0 {
					return nil
				}
				return [][2]any{{k, v}}
			}
			for _, e := range all {
				vs := append([]any{nil}, e.values...)
				for _, f := range vs {
					for _, x := range vs {
						if l, ok := x.([]string); ok && len(l) == 0 {
							continue
						}
						for _, p := range vs {
							if one(levels{"project", merged(e.base, e.name, f), merged(nil, e.name, p), cli(e.name, x)}) {
								return
							}
						}
						for _, mode := range []string{"article", "standalone"} {
							if mode == "standalone" && e.name == "output-type" && e.base != nil {
								continue // no statistics in this mode
							}
							if one(levels{mode, merged(e.base, e.name, f), nil, cli(e.name, x)}) {
								return
							}
						}
					}
				}
			}
			if requests(c, dir, all, merged) {
				return
			}
			for _, a := range all {
				for _, b := range all {
					if a.name == b.name || a.base != nil || b.base != nil {
						continue
					}
					x, y := a.values[1], b.values[1]
					for _, l := range []levels{
						{"project", merged(merged(nil, a.name, x), b.name, y), nil, nil},
						{"project", nil, merged(merged(nil, a.name, x), b.name, y), nil},
						{"project", nil, nil, append(cli(a.name, x), cli(b.name, y)...)},
						{"project", merged(nil, a.name, x), merged(nil, b.name, y), nil},
						{"project", merged(nil, a.name, x), nil, cli(b.name, y)},
						{"project", nil, merged(nil, a.name, x), cli(b.name, y)},
					} {
						if one(l) {
							return
						}
					}
					if c.Thorough() {
						for _, d := range all {
							if d.name != a.name && d.name != b.name && d.base == nil {
								if one(levels{"project", merged(nil, a.name, x), merged(nil, b.name, y), cli(d.name, d.values[1])}) {
									return
								}
							}
						}
					}
				}
			}
		}}
}

// requests checks the requests of an article for all combinations of the settings about servers.
func requests(c *vlib.Ctx, dir string, all []entry, merged func(map[string]any, string, any) map[string]any) bool {
	var rec func(i int, l levels) bool
	names := []string{"wikipedia-instance", "wikipedia-host", "wikipedia-image-host", "wikipedia-image-article-hosts", "wikipedia-math-rest-api", "math-converter", "user-agent-template"}
	value := func(l levels, k string) any {
		if v, ok := l.File[k]; ok {
			return v
		}
		for _, e := range all {
			if e.name == k {
				return e.values[0]
			}
		}
		panic(k)
	}
	rec = func(i int, l levels) bool {
		if i == len(names) {
			return c.Do("requests "+l.String(dir), func() (out vlib.Outcome) {
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				l := l
				l.File = merged(merged(l.File, "cache-dir", filepath.Join(dir, "cache")), "command-template-image-processing", "")
				l.File["command-template-math-svg-to-png"] = "topng {INPUT} {OUTPUT}"
				var got []string
				text, hook := "w [[File:P.png|thumb|c]] {{T}} <math>y</math>", func(r *http.Request, body string) (*http.Response, error, bool) {
					u := r.URL.Scheme + "://" + r.URL.Host + r.URL.Path
					if i := strings.Index(u, "/w/api.php"); i >= 0 {
						u = u[:i] + " " + r.URL.Query().Get("action") + " " + r.URL.Query().Get("page")
					} else if strings.HasSuffix(u, "/P.png") {
						u = u[:len(r.URL.Scheme+"://"+r.URL.Host)] + " P.png"
					} else {
						u = u[:strings.LastIndex(u, "/")+1]
					}
					got = append(got, fmt.Sprintf("%s %q", u, r.Header["User-Agent"]))
					return nil, nil, false
				}
				p, _ := l.start(dir, text, hook)
				wiki := fmt.Sprintf("https://%s.%s", value(l, "wikipedia-instance"), value(l, "wikipedia-host"))
				want := []string{wiki + " parse A", wiki + " expandtemplates ", "https://" + value(l, "wikipedia-image-article-hosts").([]string)[0] + " parse File:P.png",
					"https://" + value(l, "wikipedia-image-host").(string) + " P.png"}
				api := value(l, "wikipedia-math-rest-api").(string)
				want = append(want, api+"/check/", api+"/render/svg/")
				if value(l, "math-converter") == "wikimedia" {
					want = append(want, api+"/render/png/")
				}
				agent := strings.ReplaceAll(value(l, "user-agent-template").(string), "{{VERSION}}", util.VERSION)
				for i := range want {
					want[i] += fmt.Sprintf(" %q", []string{agent})
				}
				sort.Strings(want)
				sort.Strings(got)
				out.Observed = fmt.Sprint(got)
				if p.message != "" {
					out.Bad = p.message
				} else if !reflect.DeepEqual(got, want) {
					out.Bad = fmt.Sprintf("requests %q, must be %q", got, want)
				}
				return
			})
		}
		for _, e := range all {
			if e.name == names[i] {
				for k, v := range e.values {
					if k > 2 {
						continue
					}
					if rec(i+1, levels{"article", merged(l.File, e.name, v), nil, nil}) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(0, levels{})
}
