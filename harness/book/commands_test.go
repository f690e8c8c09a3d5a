package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"wiki2book/zz_verif/vexec"
	"wiki2book/zz_verif/vlib"
)

// call is one start of an external program.
type call struct {
	Name, Dir string
	Args      []string
	Input     string // content of the input file
}

// commandRun is a run with one picture of each kind and a formula.
type commandRun struct {
	Cache     string            // name of the cache directory
	Picture   string            // name without extension
	Templates map[string]string // entry of the configuration -> template
	Settings  map[string]any
	Metadata  map[string]any
	Output    string
}

var kinds = []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"}

// do runs the program and checks all calls of external programs.
func (r commandRun) do(dir string) (out vlib.Outcome) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	w := newWorld(dir)
	w.cache = filepath.Join(dir, r.Cache)
	w.cfg["cache-dir"] = w.cache
	w.cfg["math-converter"] = "template"
	w.cfg["worker-threads"] = 1
	w.cfg["ignored-media-types"] = []string{"gif"}
	for _, k := range kinds {
		w.cfg["command-template-"+k] = r.Templates[k]
	}
	for k, v := range r.Settings {
		w.cfg[k] = expand(v, dir)
		if f, ok := w.cfg[k].(string); ok && strings.HasPrefix(f, dir) {
			put(f, "x")
		}
	}
	if l, ok := w.cfg["font-files"].([]string); ok {
		for _, f := range l {
			put(f, "x")
		}
	}
	exts := []string{"svg", "png", "pdf", "webp"}
	text := "text"
	for _, e := range exts {
		text += " [[File:" + r.Picture + "." + e + "|thumb|c]]"
	}
	text += " <math>x</math>"
	w.web.Articles["*|A"] = text
	w.web.Articles["*|B"] = "other"
	output := "b.epub"
	if r.Output != "" {
		output = r.Output
	}
	proj := map[string]any{"articles": []string{"B", "A"}, "output-file": output}
	if r.Metadata != nil {
		proj["metadata"] = r.Metadata
	}
	var calls []call
	w.install()
	tool := func(name, wd string, args []string, o, e io.Writer) error { return nil }
	run := func() *proc {
		return w.run(nil, dir, "project", w.writeProject(proj), "-c", w.writeConfig())
	}
	tool = func(name, wd string, args []string, o, e io.Writer) error {
		k := call{name, wd, args, ""}
		kind := strings.TrimPrefix(filepath.Base(name), "tool-")
		in, outf, bad := matchTemplate(r.Templates[kind], append([]string{name}, args...))
		if bad != "" {
			out.Bad = kind + ": " + bad
			return fmt.Errorf("exit status 2")
		}
		abs := func(p string) string {
			if filepath.IsAbs(p) {
				return p
			}
			return filepath.Join(wd, p)
		}
		b, err := os.ReadFile(abs(in))
		if err != nil {
			out.Bad = fmt.Sprintf("%s: input file: %v", kind, err)
			return fmt.Errorf("exit status 2")
		}
		k.Input = string(b)
		calls = append(calls, k)
		return os.WriteFile(abs(outf), []byte(kind+"("+string(b)+")"), 0644)
	}
	w.extra = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{"*": tool, "pandoc": w.runPandoc}
	if p, ok := w.cfg["pandoc-executable"].(string); ok {
		w.extra[p] = w.runPandoc
	}
	p := run()
	vexec.Programs = nil
	out.Observed = fmt.Sprint(calls, w.pandoc)
	if out.Bad != "" {
		return
	}
	if p.message != "" {
		out.Bad = "fails: " + p.message
		return
	}
	// The pictures used by the book.
	name := strings.ReplaceAll(r.Picture, " ", "_")
	var want, got []string
	for _, e := range exts {
		x := string(vlib.ImageBytes(name + "." + e))
		if e != "png" && r.Templates[e+"-to-png"] != "" {
			x = e + "-to-png(" + x + ")"
		}
		if (e != "svg" && e != "pdf" || r.Templates[e+"-to-png"] != "") && r.Templates["image-processing"] != "" {
			x = "image-processing(" + x + ")"
		}
		want = append(want, x)
	}
	want = append(want, "math-svg-to-png("+formulaId.ReplaceAllString(vlib.MathSvg(vlib.MathID("x")), "ID")+")")
	if len(w.pandoc) != 1 {
		out.Bad = fmt.Sprintf("pandoc called %d times", len(w.pandoc))
		return
	}
	for _, x := range w.pandoc[0].Pictures {
		got = append(got, formulaId.ReplaceAllString(x, "ID"))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		out.Bad = fmt.Sprintf("pictures of the book are %q, must be %q", got, want)
		return
	}
	// The call of pandoc.
	c := w.pandoc[0]
	exe := "pandoc"
	if x, ok := w.cfg["pandoc-executable"].(string); ok {
		exe = x
	}
	if c.Name != exe {
		out.Bad = fmt.Sprintf("pandoc is %q, must be %q", c.Name, exe)
		return
	}
	opts := []string{"-f=html", "-t=" + w.cfg["output-type"].(string)}
	o := filepath.Join(dir, output)
	if filepath.IsAbs(output) {
		o = output
	}
	opts = append(opts, "-o="+o)
	for json, m := range map[string]string{"title": "title", "author": "author", "license": "rights", "language": "language", "date": "date"} {
		v, _ := r.Metadata[json].(string)
		opts = append(opts, "--metadata="+m+"="+v)
	}
	if d, ok := w.cfg["toc-depth"].(int); !ok {
		opts = append(opts, "--toc", "--toc-depth=2")
	} else if d > 0 {
		opts = append(opts, "--toc", fmt.Sprintf("--toc-depth=%d", d))
	}
	for _, k := range [][2]string{{"style-file", "--css"}, {"cover-image", "--epub-cover-image"}, {"pandoc-data-dir", "--data-dir"}} {
		if v, ok := w.cfg[k[0]].(string); ok && v != "" {
			opts = append(opts, k[1]+"="+v)
		}
	}
	if l, ok := w.cfg["font-files"].([]string); ok {
		for _, f := range l {
			opts = append(opts, "--epub-embed-font="+f)
		}
	}
	// Each option has one notation here.
	var used []string
	for _, x := range c.Options {
		flag, v, ok := strings.Cut(x, " ")
		if strings.Contains(flag, "=") || !ok {
			flag, v, ok = strings.Cut(x, "=")
		}
		if ok {
			flag += "=" + v
		}
		used = append(used, flag)
	}
	sort.Strings(opts)
	sort.Strings(used)
	if strings.Join(opts, "\n") != strings.Join(used, "\n") {
		out.Bad = fmt.Sprintf("options of pandoc are %q, must be %q", used, opts)
	} else if len(c.Sources) != 2 || !strings.Contains(c.Content[0], "other") || !strings.Contains(c.Content[1], "text") {
		out.Bad = fmt.Sprintf("pandoc got the files %q", c.Sources)
	}
	out.Bad = strings.ReplaceAll(out.Bad, dir, "DIR")
	return
}

func expand(v any, dir string) any {
	switch x := v.(type) {
	case string:
		return strings.ReplaceAll(x, "DIR", dir)
	case []string:
		var out []string
		for _, s := range x {
			out = append(out, strings.ReplaceAll(s, "DIR", dir))
		}
		return out
	}
	return v
}

// matchTemplate finds the files in the arguments of a call and says how it differs from the template.
func matchTemplate(template string, args []string) (in, out, bad string) {
	words := strings.Fields(template)
	if len(words) != len(args) {
		return "", "", fmt.Sprintf("called with %d words %q, must be %d words like %q", len(args), args, len(words), words)
	}
	for i, w := range words {
		if w == "{INPUT}" {
			in = args[i]
		}
		if w == "{OUTPUT}" {
			out = args[i]
		}
	}
	// Files given as part of a word.
	for i, w := range words {
		if pre, post, ok := strings.Cut(w, "{INPUT}"); ok && in == "" && !strings.Contains(pre+post, "{") {
			in = strings.TrimSuffix(strings.TrimPrefix(args[i], pre), post)
		}
		if pre, post, ok := strings.Cut(w, "{OUTPUT}"); ok && out == "" && !strings.Contains(pre+post, "{") {
			out = strings.TrimSuffix(strings.TrimPrefix(args[i], pre), post)
		}
	}
	for i, w := range words {
		if x := strings.NewReplacer("{INPUT}", in, "{OUTPUT}", out).Replace(w); x != args[i] {
			return in, out, fmt.Sprintf("word %d of the command is %q, must be %q", i, args[i], x)
		}
	}
	return in, out, ""
}

var formulaId = regexp.MustCompile(`[0-9a-f]{40}`)

func checkC25() *vlib.Check {
	return &vlib.Check{ID: "C25", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "external programs get the words of their template with the whole paths of existing files for the placeholders, pandoc the metadata, settings and files of the book, each as one argument, whatever characters they contain",
		Bounds:      map[string]string{"quick": "all templates of up to 4 words out of 9 for each of the five commands; all 32 sets of commands; 20 cache directories x 26 picture names (up to 231 bytes); 5 metadata entries x 30 values; depths 0-6; 8 file names for each setting; all pairs of metadata values; values of up to 65536 characters, up to 130 fonts and words of a command", "thorough": "templates of up to 5 words, all pairs of template kinds"},
		Assumptions: []string{"no paths with characters the program refuses with an error (%, <, >, :, …)"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			one := func(r commandRun) bool {
				return c.Do(jsonOf(r), func() vlib.Outcome { return r.do(dir) })
			}
			std := func() map[string]string {
				m := map[string]string{}
				for _, k := range kinds {
					m[k] = "tool-" + k + " {INPUT} {OUTPUT}"
				}
				return m
			}
			// Which commands are set.
			for set := 0; set < 1<<len(kinds); set++ {
				m := std()
				for i, k := range kinds {
					if set>>i&1 == 1 && k != "math-svg-to-png" {
						m[k] = ""
					}
				}
				if one(commandRun{"cache", "P", m, nil, nil, ""}) {
					return
				}
			}
			const several = "{OUTPUT}:{INPUT}:{INPUT}+{OUTPUT}"
			words := []string{"{INPUT}", "{OUTPUT}", "-a", "-i={INPUT}", "png:{OUTPUT}", "600x600>", "'b", "--x=\"y\"", several}
			n := 4
			if c.Thorough() {
				n = 5
			}
			stop := false
			for _, k := range kinds {
				var rec func(t []string)
				rec = func(t []string) {
					j := strings.ReplaceAll(strings.Join(t, " "), several, "")
					if strings.Contains(j, "{INPUT}") && strings.Contains(j, "{OUTPUT}") && !stop {
						for _, sep := range []string{" ", "  "} {
							m := std()
							m[k] = "x/tool-" + k + sep + strings.Join(t, sep)
							if stop = one(commandRun{"ca che", "P q", m, nil, nil, ""}); stop {
								return
							}
						}
					}
					if len(t) == n || stop {
						return
					}
					for _, w := range words {
						rec(append(append([]string{}, t...), w))
					}
				}
				rec(nil)
				if stop {
					return
				}
			}
			caches := []string{"c", "c d", "c  d", " c", "c ", "c'd", "c$HOME", "$(c)", "c;d", "c&d", "-c", "ü", "c=d", "c,d", "c#d", "~", "c@d", "(c) [d]", "c/d e/f", "c`d`"}
			pics := []string{"P", "P q", "P  q", "P'q", "$P", "$(P)", "P;q", "P&q", "P=q", "P,q", "Ü ö", "P@q", "(P) q", "P`q", "P.q", "P.svg", "P!", "P~", "P^", "Png", "P q r s", "P-q", "日本", strings.Repeat("P", 225), strings.Repeat("日", 76), strings.Repeat("Pü ", 57)}
			for _, cache := range caches {
				for _, pic := range pics {
					if one(commandRun{cache, pic, std(), nil, nil, ""}) {
						return
					}
				}
			}
			vals := []string{"", "a", "a b", "a  b", " a", "a ", "a\nb", "a\tb", "-a", "--toc", "a=b", "=", "a:b", "\"a\"", "'a'", "a'b", "$HOME", "$(a)", "`a`", "a;b", "a&b", "a|b", "<i>a</i>", "\\a", "ü", "日本語", "a, b", "title=x", "*", "%s {INPUT}"}
			keys := []string{"title", "author", "license", "language", "date"}
			for _, k := range keys {
				for _, v := range vals {
					if one(commandRun{"cache", "P", std(), nil, map[string]any{k: v}, ""}) {
						return
					}
				}
			}
			for i, k := range keys {
				for j, k2 := range keys {
					for _, v := range vals {
						for _, v2 := range vals[:8] {
							if i != j && one(commandRun{"cache", "P", std(), nil, map[string]any{k: v, k2: v2}, ""}) {
								return
							}
						}
					}
				}
			}
			// long values, many fonts (of the same name, equal ones), long commands
			for _, n := range []int{100, 255, 256, 1000, 1024, 4096, 65536} {
				for _, k := range keys {
					for _, v := range []string{strings.Repeat("a", n), strings.Repeat("ü ", n/2) + "."} {
						if one(commandRun{"cache", "P", std(), nil, map[string]any{k: v, "title": v + "t"}, ""}) {
							return
						}
					}
				}
			}
			for _, n := range []int{3, 10, 11, 40, 130} {
				var same, equal, different, long []string
				m, last := std(), std()
				for i := 0; i < n; i++ {
					same = append(same, fmt.Sprintf("DIR/d%d/f", i))
					equal = append(equal, "DIR/f")
					different = append(different, fmt.Sprintf("DIR/f%d.ttf", n-i))
					long = append(long, fmt.Sprintf("-o%d", i))
				}
				for _, fonts := range [][]string{same, equal, different} {
					if one(commandRun{"cache", "P", std(), map[string]any{"font-files": fonts}, nil, ""}) {
						return
					}
				}
				for _, k := range kinds {
					m[k] = "tool-" + k + " {INPUT} " + strings.Join(long, " ") + " {OUTPUT}"
					last[k] = "tool-" + k + " " + strings.Join(long, " ") + " {OUTPUT} {INPUT} " + strings.Join(long, " ")
				}
				if one(commandRun{"cache", "P", m, nil, nil, ""}) || one(commandRun{"cache", "P", last, nil, nil, ""}) {
					return
				}
			}
			files := []string{"f", "f g", "f'g", "$f", "f;g", "-f", "ü f", "f=g", "f/g h"}
			for d := 0; d <= 6; d++ {
				for _, typ := range []string{"epub2", "epub3"} {
					for _, f := range files {
						for _, k := range []string{"style-file", "cover-image", "pandoc-data-dir", "pandoc-executable"} {
							if one(commandRun{"cache", "P", std(), map[string]any{k: "DIR/" + f, "toc-depth": d, "output-type": typ}, nil, ""}) {
								return
							}
						}
						for _, g := range files {
							if one(commandRun{"cache", "P", std(), map[string]any{"font-files": []string{"DIR/" + f, "DIR/x" + g}, "toc-depth": d, "output-type": typ}, nil, ""}) {
								return
							}
						}
						if one(commandRun{"cache", "P", std(), map[string]any{"toc-depth": d, "output-type": typ}, nil, f + ".epub"}) {
							return
						}
					}
				}
			}
		}}
}
