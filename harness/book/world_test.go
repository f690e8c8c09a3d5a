// Whole-program harness: drives main() of wiki2book against an in-memory Wikipedia, in-process stand-ins for pandoc and the
// image converters, and - depending on the check - a controlled scheduler or a fault injector.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"wiki2book/config"
	"wiki2book/zz_verif/vexec"
	"wiki2book/zz_verif/vlib"
	"wiki2book/zz_verif/vsched"
)

var theT *testing.T

func TestMain(m *testing.M) {
	flag.Parse()
	flag.Set("test.run", "TestZZVerif")
	flag.Set("test.timeout", "0")
	os.Exit(m.Run())
}

// pandocCall is one invocation of the pandoc stand-in.
type pandocCall struct {
	Name     string
	Dir      string
	Output   string
	Options  []string
	Sources  []string
	Content  []string
	Problem  string
	Pictures map[string]string // local picture reference -> content
}

type world struct {
	root     string // scratch directory of this run
	cache    string
	web      *vlib.Web
	pandoc   []pandocCall
	converts []string
	cfg      map[string]any
	tool     func(name, in, out string, data []byte) error                                 // fault injection into image tools
	extra    map[string]func(name, dir string, args []string, out, errOut io.Writer) error // further programs
}

func put(path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(content), 0644); err != nil {
		panic(err)
	}
}

func newWorld(root string) *world {
	w := &world{root: root, cache: filepath.Join(root, "cache"), web: vlib.NewWeb()}
	put(filepath.Join(root, "style.css"), "")
	w.cfg = map[string]any{"cache-dir": w.cache, "style-file": filepath.Join(root, "style.css"), "cover-image": "", "pandoc-executable": "pandoc",
		"output-driver": "pandoc", "output-type": "epub2"}
	return w
}

// install makes this world the environment of the program.
func (w *world) install() {
	w.web.Install()
	vexec.Programs = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{
		"pandoc":  w.runPandoc,
		"*":       w.runPandoc,
		"convert": w.runConvert,
		"topng":   w.imageTool("PNG"),
		"shrink":  w.imageTool("SMALL"),
	}
	for k, f := range w.extra {
		vexec.Programs[k] = f
	}
}

func (w *world) runPandoc(name, dir string, args []string, out, errOut io.Writer) error {
	c := pandocCall{Name: name, Dir: dir, Pictures: map[string]string{}}
	valued := map[string]bool{"-f": true, "-t": true, "-o": true, "--metadata": true, "--toc-depth": true, "--data-dir": true, "--css": true}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case valued[a] && i+1 < len(args):
			if a == "-o" {
				c.Output = args[i+1]
			}
			c.Options = append(c.Options, a+" "+args[i+1])
			i++
		case strings.HasPrefix(a, "-") && len(a) > 1:
			c.Options = append(c.Options, a)
		default:
			c.Sources = append(c.Sources, a)
			p := a
			if !filepath.IsAbs(p) {
				p = filepath.Join(dir, p)
			}
			b, err := os.ReadFile(p)
			if a == "" || err != nil {
				c.Problem = fmt.Sprintf("pandoc: %q: cannot be read", a)
			}
			c.Content = append(c.Content, string(b))
			pictures(dir, string(b), c.Pictures)
		}
	}
	w.pandoc = append(w.pandoc, c)
	if c.Problem != "" {
		fmt.Fprintln(errOut, c.Problem)
		return fmt.Errorf("exit status 1")
	}
	if w.tool != nil {
		return w.tool("pandoc", "", c.Output, []byte("EPUB\n"+strings.Join(c.Content, "\n=====\n")))
	}
	return os.WriteFile(c.Output, []byte("EPUB\n"+strings.Join(c.Content, "\n=====\n")), 0644)
}

// runConvert is "convert IN OUT": it marks the picture as processed.
func (w *world) runConvert(name, dir string, args []string, out, errOut io.Writer) error {
	if len(args) < 2 {
		return fmt.Errorf("convert: arguments missing")
	}
	in, outf := args[0], args[len(args)-1]
	w.converts = append(w.converts, strings.Join(args, " "))
	if vsched.Active() {
		vsched.Point("convert " + in)
	}
	b, err := os.ReadFile(in)
	if err != nil {
		fmt.Fprintln(errOut, err)
		return fmt.Errorf("exit status 1")
	}
	s := string(b)
	if !strings.HasPrefix(s, "PROCESSED:") {
		s = "PROCESSED:" + s
	}
	if vsched.Active() {
		vsched.Point("converted " + in)
	}
	return os.WriteFile(outf, []byte(s), 0644)
}

func (w *world) writeConfig() string {
	p := filepath.Join(w.root, "config.json")
	b, _ := json.Marshal(w.cfg)
	put(p, string(b))
	return p
}

func (w *world) writeProject(proj map[string]any) string {
	p := filepath.Join(w.root, "project.json")
	b, _ := json.Marshal(proj)
	put(p, string(b))
	return p
}

// program runs main() with the given arguments.
func program(cwd string, args ...string) {
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}
	config.Current = config.NewDefaultConfig()
	resetGlobals()
	os.Args = append([]string{"wiki2book"}, args...)
	main()
}

// snapshot lists all files below dir with their content.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func diff(a, b map[string]string) string {
	var keys []string
	seen := map[string]bool{}
	for k := range a {
		keys = append(keys, k)
		seen[k] = true
	}
	for k := range b {
		if !seen[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		x, okx := a[k]
		y, oky := b[k]
		switch {
		case !okx:
			return "extra file " + k
		case !oky:
			return "missing file " + k
		case x != y:
			return fmt.Sprintf("file %s has content %.200q instead of %.200q", k, y, x)
		}
	}
	return ""
}

// marker is the text every article carries exactly once.
func marker(title string) string { return "Body" + title + "End" }

func TestZZVerif(t *testing.T) {
	theT = t
	vlib.Main(checkC01(), checkC02(), checkC03(), checkC04(), checkC06(), checkC10(), checkC22(), checkC23(), checkC24(), checkC25(), checkC26(), checkC28(), checkC29())
}
