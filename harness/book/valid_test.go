package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"wiki2book/config"
	"wiki2book/zz_verif/vlib"
)

// invalid says why the settings are not usable, "" if they are.
func invalid(s map[string]any) string {
	str := func(k string) string { return fmt.Sprint(s[k]) }
	oneOf := func(k string, l ...string) string {
		for _, x := range l {
			if str(k) == x {
				return ""
			}
		}
		return k + " is " + str(k)
	}
	bad := oneOf("output-type", "epub2", "epub3", "stats-json", "stats-txt")
	bad += oneOf("output-driver", "pandoc", "internal")
	bad += oneOf("math-converter", "none", "wikimedia", "template")
	bad += oneOf("cache-eviction-strategy", "none", "lru", "largest")
	switch str("output-type") + " " + str("output-driver") {
	case "epub2 internal", "stats-json pandoc", "stats-txt pandoc":
		bad += "output type does not fit the driver"
	}
	between := func(k string, min, max int64) {
		v := min
		switch x := s[k].(type) {
		case int:
			v = int64(x)
		case int64:
			v = x
		}
		if v < min || v > max {
			bad += k + " is " + str(k)
		}
	}
	between("toc-depth", 0, 6)
	between("worker-threads", 1, math.MaxInt32)
	between("cache-max-size", 1, math.MaxInt64)
	between("cache-max-age", 1, math.MaxInt64)
	for _, k := range []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"} {
		v := str("command-template-" + k)
		if v == "" && k != "math-svg-to-png" {
			continue
		}
		if !strings.Contains(v, "{INPUT}") || !strings.Contains(v, "{OUTPUT}") {
			bad += "command-template-" + k + " is " + v
		}
	}
	return bad
}

// start1 runs the program on an article with the given settings and reports what it did.
func (l levels) start1(dir string) (p *proc, requests, tools int, book string) {
	p, w := l.start(dir, "text", nil)
	for _, f := range []string{"book.epub", "ebook.epub", "stats.json", "stats.txt"} {
		if b, err := os.ReadFile(filepath.Join(dir, f)); err == nil {
			book += string(b)
		}
	}
	return p, len(w.web.Requests()), len(w.pandoc) + len(w.converts), book
}

func checkC24() *vlib.Check {
	return &vlib.Check{ID: "C24", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:   "the program ends with an error before the first request, without starting external programs and without touching an existing book if and only if the settings are not usable: unknown or incompatible values, numbers out of range, commands without placeholders, missing files, broken files",
		Bounds: map[string]string{"quick": "7 to 12 values of each restricted setting in each place and mode, alone and with each other place having another value; all pairs of output type and driver over all pairs of places; missing files, unreadable JSON (all prefixes of the files), wrong types, wrong arguments; pairs of values of all pairs of restricted settings in all pairs of places", "thorough": "the same"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			defaults := map[string]any{}
			d := config.NewDefaultConfig()
			for k, v := range map[string]any{"output-type": d.OutputType, "output-driver": d.OutputDriver, "math-converter": d.MathConverter, "cache-eviction-strategy": d.CacheEvictionStrategy,
				"toc-depth": d.TocDepth, "worker-threads": d.WorkerThreads, "cache-max-size": d.CacheMaxSize, "cache-max-age": d.CacheMaxAge,
				"command-template-svg-to-png": d.CommandTemplateSvgToPng, "command-template-math-svg-to-png": d.CommandTemplateMathSvgToPng, "command-template-pdf-to-png": d.CommandTemplatePdfToPng,
				"command-template-image-processing": d.CommandTemplateImageProcessing, "command-template-webp-to-png": d.CommandTemplateWebpToPng} {
				defaults[k] = v
			}
			tpl := []any{"", "t {INPUT} {OUTPUT}", "t {OUTPUT}{INPUT}", "t", "t {INPUT}", "t {OUTPUT}", "t {input} {output}", "t INPUT OUTPUT", "t {INPUT} {INPUT}", " "}
			values := map[string][]any{
				"output-type":             {"epub2", "epub3", "stats-json", "stats-txt", "", "epub", "EPUB2", "epub2 ", "pdf", "stats.txt", "internal"},
				"output-driver":           {"pandoc", "internal", "", "Pandoc", "pandoc2", "epub2"},
				"math-converter":          {"none", "wikimedia", "template", "", "None", "rsvg", "wikimedia,none"},
				"cache-eviction-strategy": {"none", "lru", "largest", "", "LRU", "lfu", "smallest"},
				"toc-depth":               {0, 1, 2, 3, 5, 6, 7, -1, 100, math.MinInt64, math.MaxInt64},
				"worker-threads":          {1, 2, 7, 0, -1, math.MinInt64},
				"cache-max-size":          {1, 5_000_000, int64(math.MaxInt64), 0, -1, math.MinInt64},
				"cache-max-age":           {1, 60, int64(math.MaxInt64), 0, -1, math.MinInt64},
			}
			for _, k := range []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"} {
				values["command-template-"+k] = tpl
			}
			var names []string
			for _, e := range entries(dir) {
				if values[e.name] != nil && e.name != "output-type" || e.name == "output-type" && e.base == nil {
					names = append(names, e.name)
				}
			}
			one := func(l levels) bool {
				return c.Do(l.String(dir), func() (out vlib.Outcome) {
					os.RemoveAll(dir)
					os.MkdirAll(dir, 0755)
					put(filepath.Join(dir, "book.epub"), "OLD")
					put(filepath.Join(dir, "ebook.epub"), "OLD")
					s := map[string]any{}
					for k, v := range defaults {
						s[k] = v
					}
					var bad []string
					add := func(k string, v any) { s[k] = v }
					for k, v := range l.File {
						add(k, v)
					}
					bad = append(bad, invalid(s))
					for k, v := range l.Project {
						add(k, v)
					}
					bad = append(bad, invalid(s))
					for _, kv := range l.Cli {
						add(kv[0].(string), kv[1])
					}
					bad = append(bad, invalid(s))
					if l.Project != nil {
						l.Project = merge(l.Project, map[string]any{"articles": []string{"A"}})
					}
					p, requests, tools, book := l.start1(dir)
					out.Observed = p.message + book
					end := bad[2]
					switch {
					case end != "" && p.message == "":
						out.Bad = "no error although " + end
					case end != "" && (requests > 0 || tools > 0):
						out.Bad = fmt.Sprintf("%d requests and %d calls of tools although %s", requests, tools, end)
					case end != "" && book != "OLDOLD":
						out.Bad = "the existing book was changed although " + end
					case strings.Join(bad, "") == "" && p.message != "":
						out.Bad = "valid settings rejected: " + p.message
					}
					return
				})
			}
			modes := []string{"project", "article", "standalone"}
			place := func(mode, level, k string, v any, l levels) levels {
				l.Mode = mode
				switch level {
				case "file":
					l.File = merge(l.File, map[string]any{k: v})
				case "project":
					l.Project = merge(l.Project, map[string]any{k: v})
				case "cli":
					l.Cli = append(append([][2]any{}, l.Cli...), [2]any{k, v})
				}
				if mode == "project" && l.Project == nil {
					l.Project = map[string]any{}
				}
				return l
			}
			levelNames := func(mode string) []string {
				if mode == "project" {
					return []string{"file", "project", "cli"}
				}
				return []string{"file", "cli"}
			}
			stats := func(mode string, k string, v any) bool {
				return mode == "standalone" && k == "output-type" && strings.HasPrefix(fmt.Sprint(v), "stats-")
			}
			for _, mode := range modes {
				for _, x := range levelNames(mode) {
					for _, k := range names {
						for _, v := range values[k] {
							if stats(mode, k, v) {
								continue
							}
							if one(place(mode, x, k, v, levels{})) {
								return
							}
							for _, y := range levelNames(mode) {
								for _, v2 := range values[k] {
									if x == y || stats(mode, k, v2) {
										continue
									}
									if one(place(mode, y, k, v2, place(mode, x, k, v, levels{}))) {
										return
									}
								}
							}
						}
					}
					for _, y := range levelNames(mode) {
						for i, k := range names {
							for j, k2 := range names {
								if i >= j {
									continue
								}
								for _, v := range values[k] {
									for _, v2 := range values[k2] {
										if stats(mode, k, v) || stats(mode, k2, v2) {
											continue
										}
										if one(place(mode, y, k2, v2, place(mode, x, k, v, levels{}))) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
			broken(c, dir)
		}}
}

func merge(a, b map[string]any) map[string]any {
	m := map[string]any{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// broken checks missing and unreadable files and wrong arguments.
func broken(c *vlib.Ctx, dir string) {
	type files struct {
		Config, Project string // content, "" = missing
		Args            []string
		Bad             bool
	}
	one := func(f files) bool {
		return c.Do("files "+jsonOf(f), func() (out vlib.Outcome) {
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			w := newWorld(dir)
			w.web.Articles["*|A"] = "text"
			sub := func(s string) string { return strings.ReplaceAll(s, "DIR", dir) }
			put(filepath.Join(dir, "is.file"), "x")
			put(filepath.Join(dir, "is.dir", "x"), "x")
			put(filepath.Join(dir, "book.epub"), "OLD")
			put(filepath.Join(dir, "A.mediawiki"), "text")
			if f.Config != "" {
				put(filepath.Join(dir, "c.json"), sub(f.Config))
			}
			if f.Project != "" {
				put(filepath.Join(dir, "p.json"), sub(f.Project))
			}
			var args []string
			for _, a := range f.Args {
				args = append(args, sub(a))
			}
			p := w.run(nil, dir, args...)
			b, _ := os.ReadFile(filepath.Join(dir, "book.epub"))
			out.Observed = p.message + string(b)
			n, t := len(w.web.Requests()), len(w.pandoc)+len(w.converts)
			switch {
			case f.Bad && p.message == "":
				out.Bad = "no error"
			case f.Bad && (n > 0 || t > 0):
				out.Bad = fmt.Sprintf("error after %d requests and %d calls of tools: %s", n, t, p.message)
			case f.Bad && string(b) != "OLD":
				out.Bad = "the existing book was changed"
			case !f.Bad && p.message != "":
				out.Bad = "fails: " + p.message
			case !f.Bad && !strings.Contains(string(b), "text"):
				out.Bad = "no book"
			}
			out.Bad = strings.ReplaceAll(out.Bad, dir, "DIR")
			return
		})
	}
	cfg := `{"cache-dir": "DIR/cache", "toc-depth": 3, "style-file": "", "font-files": ["DIR/is.file"]}`
	proj := `{"articles": ["A"], "output-file": "DIR/book.epub", "metadata": {"title": "T"}}`
	run := map[string][]string{"project": {"project", "p.json"}, "article": {"article", "A", "-o", "book.epub"}, "standalone": {"standalone", "A.mediawiki", "-o", "book.epub"}}
	for _, mode := range []string{"project", "article", "standalone"} {
		a := func(more ...string) []string { return append(append([]string{}, run[mode]...), more...) }
		conf := a("-c", "c.json")
		list := []files{{cfg, proj, conf, false}, {cfg, proj, a(), false}, {"", proj, conf, true}, {cfg, proj, a("-c", ""), false}, {cfg, proj, a("-c", "DIR"), true}}
		for i := 0; i < len(cfg); i++ {
			if i > 0 {
				list = append(list, files{cfg[:i], proj, conf, true})
			}
			list = append(list, files{cfg[i+1:], proj, conf, true})
		}
		if mode == "project" {
			list = append(list, files{cfg, "", conf, true})
			for i := 0; i < len(proj); i++ {
				if i > 0 {
					list = append(list, files{cfg, proj[:i], conf, true})
				}
				list = append(list, files{cfg, proj[i+1:], conf, true})
			}
			for _, x := range []string{"nodir/p.json", "DIR/x/p.json", "is.file/p.json", "DIR"} {
				list = append(list, files{cfg, proj, []string{"project", x}, true})
			}
			for _, x := range []string{`"articles": "A"`, `"articles": [1]`, `"articles": {}`, `"output-file": 5`, `"metadata": []`, `"metadata": {"title": 7}`} {
				list = append(list, files{cfg, strings.Replace(proj, "{", "{"+x+", ", 1), a("-o", "book.epub"), true})
				list = append(list, files{cfg, strings.TrimSuffix(proj, "}") + ", " + x + "}", a("-o", "book.epub"), true})
			}
		}
		if mode == "standalone" {
			for _, x := range []string{"B.mediawiki", "nodir/A.mediawiki", "DIR"} {
				list = append(list, files{cfg, proj, []string{"standalone", x, "-o", "book.epub", "-c", "c.json"}, true})
			}
		}
		// Values of wrong types and files that do not exist.
		for _, k := range []string{"toc-depth", "worker-threads", "cache-max-size", "cache-max-age"} {
			for _, v := range []string{`"2"`, `2.5`, `[]`, `{}`, `true`, `1e40`, `99999999999999999999`} {
				list = append(list, files{fmt.Sprintf(`{"%s": %s}`, k, v), proj, conf, true})
				if mode == "project" {
					list = append(list, files{cfg, fmt.Sprintf(`{"%s": %s, "articles": ["A"], "output-file": "DIR/book.epub"}`, k, v), conf, true})
				}
			}
			for _, v := range []string{"", "x", "2.5", "99999999999999999999", "1 2"} {
				list = append(list, files{cfg, proj, a("--"+k+"="+v, "-c", "c.json"), true})
			}
		}
		for _, k := range []string{"style-file", "cover-image", "pandoc-data-dir", "font-files"} {
			for _, v := range []string{"DIR/is.file", "is.file", "./is.dir", "is.dir/../is.file", "missing", "DIR/missing", "is.file/x", "is.dir/missing", "is.dir/x"} {
				bad := strings.Contains(v, "missing") || v == "is.file/x"
				j := `"` + v + `"`
				if k == "font-files" {
					j = "[" + j + "]"
				}
				list = append(list, files{fmt.Sprintf(`{"%s": %s, "cache-dir": "DIR/cache"}`, k, j), proj, conf, bad})
				list = append(list, files{`{"cache-dir": "DIR/cache"}`, proj, a("-c", "c.json", "--"+k, v), bad})
				if mode == "project" {
					list = append(list, files{`{"cache-dir": "DIR/cache"}`, fmt.Sprintf(`{"%s": %s, "articles": ["A"], "output-file": "DIR/book.epub"}`, k, j), conf, bad})
				}
				if k == "font-files" {
					list = append(list, files{`{"cache-dir": "DIR/cache"}`, proj, a("-c", "c.json", "--"+k, "is.file", "--"+k, v), bad})
					list = append(list, files{`{"cache-dir": "DIR/cache"}`, proj, a("-c", "c.json", "--"+k, v, "--"+k, "is.file"), bad})
				}
			}
		}
		for _, x := range [][]string{{"--unknown"}, {"--toc-depth"}, {"-x"}, {"-l", "loud"}, {"-l", ""}, {"--logging=5"}, {"B"}, {"--style", "a"}, {"--force-regenerate-html=maybe"}} {
			list = append(list, files{cfg, proj, a(append(x, "-c", "c.json")...), true})
			list = append(list, files{cfg, proj, append(append([]string{}, x...), a("-c", "c.json")...), true})
		}
		for _, x := range [][]string{{"-l", "info"}, {"-l", "INFO"}, {"--logging=debug"}, {"--force-regenerate-html"}, {"--force-regenerate-html=false"}, {"-r"}, {"--toc-depth", "3"}} {
			list = append(list, files{cfg, proj, a(append(x, "-c", "c.json")...), false})
			list = append(list, files{cfg, proj, append(append([]string{}, x...), a("-c", "c.json")...), false})
		}
		list = append(list, files{cfg, proj, []string{mode, "-c", "c.json"}, true}, files{cfg, proj, []string{mode + "x", "A", "-c", "c.json"}, true}, files{cfg, proj, []string{strings.ToUpper(mode), "A"}, true})
		for _, f := range list {
			if one(f) {
				return
			}
		}
	}
}
