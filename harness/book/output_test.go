package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// tree lists all files below dir with their content and all directories.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err == nil && fi.IsDir() {
			out[rel+"/"] = ""
		} else if err == nil {
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// target is a run whose output is to be found.
type target struct {
	Mode, Type  string
	ProjectDir  string // relative to the working directory
	ProjectFile string // entry "output-file"
	Cli         string // value of -o
	Twice       bool
}

// path is the file the output belongs to, relative to the scratch directory.
func (t target) path(isDir func(p string) bool) string {
	cwd := "w/cwd"
	if t.Mode == "project" {
		cwd = filepath.Join(cwd, t.ProjectDir)
	}
	def := map[string]string{"epub2": "ebook.epub", "epub3": "ebook.epub", "stats-json": "stats.json", "stats-txt": "stats.txt"}[t.Type]
	base, given := "w/cwd", t.Cli
	if given == "" {
		base, given = cwd, t.ProjectFile
	}
	if given == "" {
		given = def
	}
	p := filepath.Join(base, given)
	if abs, ok := strings.CutPrefix(given, "DIR/"); ok {
		p = filepath.Clean(abs)
	}
	if isDir(p) {
		return filepath.Join(p, def)
	}
	if strings.HasPrefix(t.Type, "stats-") && !strings.HasSuffix(p, strings.TrimPrefix(t.Type, "stats-")) {
		return filepath.Join(cwd, def)
	}
	return p
}

func checkC26() *vlib.Check {
	return &vlib.Check{ID: "C26", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "a successful run writes the whole book or statistics to the file it was told and changes nothing else outside the cache, whose temporary folder is removed; a run that fails or dies before the generation leaves an existing file untouched",
		Bounds:      map[string]string{"quick": "3 modes x 4 output types x 29 notations of the output file in the command and, for projects in 4 places, in the project file (with all of 5 notations in the command), files and directories existing or not, first and second run; every operation in front of the generation failing or being the last one, in 5 settings, with and without existing output file", "thorough": "all pairs of notations in the command and the project file"},
		Assumptions: []string{"a file name for statistics not ending with json or txt means the default one", "no symbolic links, no file name with a trailing slash unless the directory exists"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			one := func(t target) bool {
				return c.Do(jsonOf(t), func() (out vlib.Outcome) {
					os.RemoveAll(dir)
					cwd := filepath.Join(dir, "w", "cwd")
					w := newWorld(dir)
					w.web.Articles["*|A"] = "text [[B]]"
					w.web.Expand = func(string) string { return "x" }
					put(filepath.Join(dir, "cache", "x"), "x")
					for _, d := range []string{cwd, filepath.Join(cwd, t.ProjectDir), filepath.Join(dir, "abs")} {
						for _, e := range []string{"old.epub", "old.json", "old.txt", "old", "d/x", "d/old.epub", "d.epub/x", "d.json/x", "d.txt/x", "D é/x"} {
							put(filepath.Join(d, e), strings.Repeat("old content "+e+"\n", 100))
						}
					}
					put(filepath.Join(cwd, t.ProjectDir, "A.mediawiki"), "text [[B]]")
					w.cfg["output-type"] = t.Type
					if strings.HasPrefix(t.Type, "stats-") {
						w.cfg["output-driver"] = "internal"
					}
					args := []string{t.Mode, "A", "-c", w.writeConfig()}
					switch t.Mode {
					case "standalone":
						args[1] = filepath.Join(t.ProjectDir, "A.mediawiki")
					case "project":
						args[1] = filepath.Join(t.ProjectDir, "p.json")
						proj := map[string]any{"articles": []string{"A"}}
						if t.ProjectFile != "" {
							proj["output-file"] = strings.ReplaceAll(t.ProjectFile, "DIR", dir)
						}
						put(filepath.Join(cwd, args[1]), jsonOf(proj))
					}
					if t.Cli != "" {
						args = append(args, "-o", strings.ReplaceAll(t.Cli, "DIR", dir))
					}
					before := tree(dir)
					want := t.path(func(p string) bool { _, ok := before[p+"/"]; return ok })
					runs := 1
					if t.Twice {
						runs = 2
					}
					for i := 0; i < runs; i++ {
						if p := w.run(nil, cwd, args...); p.message != "" {
							out.Bad = "fails: " + strings.ReplaceAll(p.message, dir, "DIR")
							return
						}
					}
					after := tree(dir)
					b := after[want]
					out.Observed = want + " " + b
					switch {
					case strings.HasPrefix(t.Type, "epub") && (!strings.HasPrefix(b, "EPUB") || !strings.Contains(b, "text")):
						out.Bad = fmt.Sprintf("no book in %s but %.60q", want, b)
					case t.Type == "stats-json" && (!strings.HasPrefix(b, "{") || !strings.HasSuffix(strings.TrimSpace(b), "}") || strings.Contains(b, "old content")):
						out.Bad = fmt.Sprintf("no statistics in %s but %.60q", want, b)
					case t.Type == "stats-txt" && (!strings.Contains(b, "A") || strings.Contains(b, "old content")):
						out.Bad = fmt.Sprintf("no statistics in %s but %.60q", want, b)
					}
					for p := want + "/"; p != "./"; p = filepath.Dir(strings.TrimSuffix(p, "/")) + "/" {
						delete(after, p)
						delete(before, p)
					}
					delete(after, want)
					delete(before, want)
					var changed []string
					for p, x := range after {
						if y, ok := before[p]; (!ok || x != y) && (!strings.HasPrefix(p, "cache/") || strings.HasPrefix(p, "cache/.tmp/")) {
							changed = append(changed, p)
						}
					}
					for p := range before {
						if _, ok := after[p]; !ok {
							changed = append(changed, p+" (removed)")
						}
					}
					sort.Strings(changed)
					if len(changed) > 0 {
						out.Bad += fmt.Sprintf(" changed: %q", changed)
					}
					return
				})
			}
			if failedRuns(c) {
				return
			}
			notations := []string{"b.epub", "./b.epub", "n/b.epub", "n/m/../o/b.epub", "../b.epub", "../../n/b.epub", "DIR/abs/b.epub", "DIR/abs/n/m/b.epub", "DIR/abs/../abs/b.epub",
				"d", "d/", "./d/", "../cwd/d", "DIR/abs/d", "DIR/abs/d/", ".", "..", "d.epub", "d.json", "d.txt", "D é", "D é/é b.epub", "old.epub", "old.json", "old.txt", "old", "d/old.epub", "b.json", "n/b.txt", "nosuffix"}
			for _, typ := range []string{"epub2", "epub3", "stats-json", "stats-txt"} {
				for _, twice := range []bool{false, true} {
					for _, n := range append([]string{""}, notations...) {
						for _, mode := range []string{"article", "standalone"} {
							if mode == "standalone" && strings.HasPrefix(typ, "stats") {
								continue
							}
							for _, d := range []string{".", "sub"} {
								if one(target{mode, typ, d, "", n, twice}) {
									return
								}
							}
						}
						for _, d := range []string{".", "sub", "../other", "../cwd"} {
							clis := []string{"", "b.epub", "d", "n/b.json", "../b.txt"}
							if c.Thorough() {
								clis = append([]string{""}, notations...)
							}
							for _, cli := range clis {
								if n == "" && cli == "" {
									continue
								}
								if one(target{"project", typ, d, n, cli, twice}) {
									return
								}
							}
						}
					}
				}
			}
		}}
}

// failedRuns lets every operation in front of the generation of the output fail or be the last one of the process: an existing
// output file stays as it is then (or is complete), and nothing but the cache changes.
func failedRuns(c *vlib.Ctx) bool {
	fc := &faultCtx{Ctx: c, refs: map[string]*reference{}}
	for _, s := range settings {
		if s.World != "rich" || len(s.Cfg) > 0 && !c.Thorough() {
			continue
		}
		ref := fc.reference(s)
		for _, existing := range []bool{true, false} {
			ops := ref.ops
			if existing {
				dir := filepath.Join(c.Scratch, "run")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				w, args, out := s.build(dir)
				put(out, "old book")
				ops = w.run(nil, dir, args...).ops
			}
			for i, label := range ops {
				for _, f := range faultsFor(label) {
					stop := c.Do(fmt.Sprintf("%s|existing=%v|%s|%s", s.Name, existing, f, label), func() (o vlib.Outcome) {
						dir := filepath.Join(c.Scratch, "run")
						os.RemoveAll(dir)
						os.MkdirAll(dir, 0755)
						w, args, out := s.build(dir)
						put(filepath.Join(dir, "out", "other"), "other")
						old := "old book"
						if existing {
							put(out, old)
						}
						before := tree(dir)
						p := w.run(map[int]string{i: f}, dir, args...)
						o.Steps = int64(len(p.ops))
						after := tree(dir)
						rel, _ := filepath.Rel(dir, out)
						b, ok := after[rel]
						o.Observed = fmt.Sprint(p.crashed, p.message, ok, len(b))
						if book := w.book(p, out); book == ref.book {
							old = b
						}
						generating := false // by the tool or into the file itself
						for _, l := range p.ops {
							generating = generating || strings.HasPrefix(l, "tool pandoc") || strings.HasPrefix(l, "write") && strings.Contains(l, "out/book.") || strings.HasPrefix(l, "mutate create out/book.") && f != "crash" && len(s.Type) > 0
						}
						switch {
						case generating:
						case existing && (!ok || b != old):
							o.Bad = fmt.Sprintf("the run ends (%v %s) with the existing file changed: %v %.60q", p.crashed, p.message, ok, b)
						case !existing && b != "" && b != old:
							o.Bad = fmt.Sprintf("the run ends (%v %s) with a part of the output: %.60q", p.crashed, p.message, b)
						}
						for f, x := range after {
							if y, ok := before[f]; (!ok || x != y) && f != rel && f != "cache/" && !strings.HasPrefix(f, "cache/") {
								o.Bad = fmt.Sprintf("%s is changed: %.60q", f, x)
							}
						}
						for f := range before {
							if _, ok := after[f]; !ok && f != rel && !strings.HasPrefix(f, "cache/") {
								o.Bad = f + " is removed"
							}
						}
						return
					})
					if stop {
						return true
					}
				}
			}
		}
	}
	return false
}
