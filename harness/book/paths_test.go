package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// place is a path given in one of the places for settings.
type place struct {
	Level string // file, project, cli
	Entry string
	Form  string // DIR stands for the scratch directory
}

// layout says where the files are and how they are named in the command.
type layout struct {
	Mode       string
	Config     string // directory of the config file relative to the working directory, "" = none
	ConfigAbs  bool
	Project    string // directory of the project or standalone file
	ProjectAbs bool
	Paths      []place
}

func (l layout) String(dir string) string { return strings.ReplaceAll(jsonOf(l), dir, "DIR") }

// pathsUsed runs the program and returns the absolute paths it used.
func (l layout) pathsUsed(dir string, put1 func(w *world, cwd string)) (map[string]string, string) {
	cwd := filepath.Join(dir, "w", "cwd")
	w := newWorld(dir)
	os.MkdirAll(cwd, 0755)
	os.MkdirAll(filepath.Join(dir, "abs"), 0755)
	w.web.Articles["*|A"] = "text"
	w.cfg = map[string]any{}
	proj := map[string]any{"articles": []string{"A"}}
	var args []string
	name := func(d, f string, abs bool) string {
		if abs {
			return filepath.Join(cwd, d, f)
		}
		if d == "." {
			return f
		}
		return d + "/" + f
	}
	switch l.Mode {
	case "project":
		args = []string{"project", name(l.Project, "p.json", l.ProjectAbs)}
	case "article":
		args = []string{"article", "A"}
	case "standalone":
		args = []string{"standalone", name(l.Project, "A.mediawiki", l.ProjectAbs)}
		put(filepath.Join(cwd, l.Project, "A.mediawiki"), "text")
	}
	if l.Config != "" {
		args = append(args, "-c", name(l.Config, "c.json", l.ConfigAbs))
	}
	given := map[string]bool{}
	for _, p := range l.Paths {
		given[p.Entry] = true
		form := strings.ReplaceAll(p.Form, "DIR", dir)
		var v any = form
		if p.Entry == "font-files" {
			v = []string{form, "s/other.ttf"}
		}
		switch p.Level {
		case "file":
			w.cfg[p.Entry] = v
		case "project":
			proj[p.Entry] = v
		case "cli":
			if p.Entry == "output-file" {
				args = append(args, "-o", form)
			} else {
				args = append(args, flags(p.Entry, v)...)
			}
		}
	}
	if !given["output-file"] {
		args = append(args, "-o", filepath.Join(dir, "default.epub"))
	}
	if l.Config != "" {
		put(filepath.Join(cwd, l.Config, "c.json"), jsonOf(w.cfg))
	}
	if l.Mode == "project" {
		put(filepath.Join(cwd, l.Project, "p.json"), jsonOf(proj))
	}
	put1(w, cwd)
	p := w.run(nil, cwd, args...)
	if p.message != "" {
		return nil, p.message
	}
	if len(w.pandoc) != 1 || len(w.pandoc[0].Sources) != 1 {
		return nil, fmt.Sprintf("pandoc called with %+v", w.pandoc)
	}
	c := w.pandoc[0]
	used := map[string]string{}
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			return filepath.Join(c.Dir, p)
		}
		return filepath.Clean(p)
	}
	used["output-file"] = abs(c.Output)
	used["cache-dir"] = filepath.Dir(filepath.Dir(abs(c.Sources[0])))
	used["pandoc-executable"] = c.Name
	if strings.Contains(c.Name, "/") {
		used["pandoc-executable"] = abs(c.Name)
	}
	for _, o := range c.Options {
		for prefix, e := range map[string]string{"--css ": "style-file", "--data-dir ": "pandoc-data-dir", "--epub-cover-image=": "cover-image", "--epub-embed-font=": "font-files"} {
			if v, ok := strings.CutPrefix(o, prefix); ok {
				if used[e] != "" {
					used[e] += "|"
				}
				used[e] += abs(v)
			}
		}
	}
	return used, ""
}

func checkC23() *vlib.Check {
	pathEntries := []string{"cache-dir", "style-file", "cover-image", "pandoc-data-dir", "font-files", "pandoc-executable", "output-file"}
	return &vlib.Check{ID: "C23", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "each path of a config file is relative to this file, of a project to the project file, of a CLI argument to the working directory; absolute ones stay",
		Bounds:      map[string]string{"quick": "7 entries x 3 places x 8 notations x 4 locations of the config file and 4 of the project (both named by relative and absolute paths) in the three modes; all triples of entries with one in each place, in all locations", "thorough": "the triples with all notations"},
		Assumptions: []string{"no symbolic links"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			one := func(l layout) bool {
				return c.Do(l.String(dir), func() (out vlib.Outcome) {
					os.RemoveAll(dir)
					os.MkdirAll(dir, 0755)
					want := map[string]string{}
					used, bad := l.pathsUsed(dir, func(w *world, cwd string) {
						base := map[string]string{"file": filepath.Join(cwd, l.Config), "project": filepath.Join(cwd, l.Project), "cli": cwd}
						for _, p := range l.Paths {
							form := strings.ReplaceAll(p.Form, "DIR", dir)
							forms := []string{form}
							if p.Entry == "font-files" {
								forms = append(forms, "s/other.ttf")
							}
							var paths []string
							for _, f := range forms {
								// The file exists wherever one could look for it.
								for _, b := range []string{base["file"], base["project"], cwd} {
									t := f
									if !filepath.IsAbs(t) {
										t = filepath.Join(b, f)
									}
									if p.Entry != "output-file" && p.Entry != "cache-dir" {
										os.MkdirAll(t, 0755)
									}
									if t = f; filepath.IsAbs(f) {
										t = filepath.Join(b, f)
										os.MkdirAll(t, 0755)
									}
								}
								if !filepath.IsAbs(f) {
									f = filepath.Join(base[p.Level], f)
								}
								paths = append(paths, filepath.Clean(f))
							}
							if p.Entry == "pandoc-executable" && !strings.Contains(form, "/") {
								paths = []string{form}
							}
							want[p.Entry] = strings.Join(paths, "|")
						}
					})
					if bad != "" {
						out.Bad = bad
						return
					}
					out.Observed = fmt.Sprint(used)
					for _, e := range pathEntries {
						if p := want[e]; p != "" && used[e] != p {
							out.Bad = fmt.Sprintf("%s is %q, must be %q", e, used[e], p)
						}
					}
					if o := used["output-file"]; out.Bad == "" {
						if b, err := os.ReadFile(o); err != nil || !strings.HasPrefix(string(b), "EPUB") {
							out.Bad = "no book at " + o
						}
					}
					out.Bad = strings.ReplaceAll(out.Bad, dir, "DIR")
					return
				})
			}
			forms := []string{"x.y", "./x.y", "../x.y", "../../x.y", "s/x.y", "s/../t/x.y", "DIR/abs/x.y", "DIR/abs/../x.y"}
			places := []string{".", "sub", "../other", "../../far/away"}
			for _, mode := range []string{"project", "article", "standalone"} {
				for i, cfg := range append([]string{""}, append(places, places...)...) {
					for j, proj := range append(places, places...) {
						if mode == "article" && j > 0 {
							continue
						}
						l := layout{Mode: mode, Config: cfg, ConfigAbs: i > 4, Project: proj, ProjectAbs: j > 3}
						for _, level := range []string{"file", "project", "cli"} {
							if level == "project" && mode != "project" || level == "file" && cfg == "" {
								continue
							}
							for _, e := range pathEntries {
								if e == "output-file" && level == "file" {
									continue
								}
								for _, f := range forms {
									l.Paths = []place{{level, e, f}}
									if one(l) {
										return
									}
								}
							}
						}
						if mode != "project" || cfg == "" {
							continue
						}
						fs := forms[:1]
						if c.Thorough() {
							fs = forms
						}
						for _, f := range fs {
							for _, x := range pathEntries {
								for _, y := range pathEntries {
									for _, z := range pathEntries {
										if x != y && x != z && y != z && x != "output-file" {
											// Each entry has its own file.
											own := func(e string) string { return strings.ReplaceAll(f, "x.y", e+".y") }
											l.Paths = []place{{"file", x, own(x)}, {"project", y, own(y)}, {"cli", z, own(z)}}
											if one(l) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}}
}
