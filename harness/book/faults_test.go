package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hauke96/sigolo/v2"
	"wiki2book/zz_verif/vlib"
	"wiki2book/zz_verif/vos"
)

// proc is one run of the program as a process that can die: from then on nothing of it has any effect.
type proc struct {
	root    string
	ops     []string // labels of all operations, in order
	faults  map[int]string
	seen    map[string]int
	dead    bool
	message string // fatal message
	crashed bool
	end     chan struct{}
	written map[string]bool     // files the run wrote to
	bodies  map[string][]string // cache relevant response bodies: every complete body that was served
}

// op announces operation label of the given class and returns the fault planned for it.
func (p *proc) op(class, label string) string {
	if p.dead {
		runtime.Goexit()
	}
	label = class + " " + strings.ReplaceAll(label, p.root+"/", "")
	p.seen[label]++
	p.ops = append(p.ops, fmt.Sprintf("%s#%d", label, p.seen[label]))
	return p.faults[len(p.ops)-1]
}

var (
	deadMu         sync.Mutex
	deadGoroutines = map[string]bool{}
)

func goroutine() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

// isDead tells whether the calling goroutine is only running its deferred calls on behalf of a dead process.
func isDead() bool {
	deadMu.Lock()
	defer deadMu.Unlock()
	return len(deadGoroutines) > 0 && deadGoroutines[goroutine()]
}

func (p *proc) die(crash bool, message string) {
	deadMu.Lock()
	deadGoroutines[goroutine()] = true
	deadMu.Unlock()
	if !p.dead {
		p.dead, p.crashed, p.message = true, crash, message
		close(p.end)
	}
	runtime.Goexit()
}

var errIO = errors.New("input/output error")

type tornWrite struct{ p *proc }

func (t tornWrite) Error() string { return "torn" }
func (t tornWrite) Then()         { t.p.die(true, "") }

// faultsFor lists the faults that make sense for an operation.
func faultsFor(op string) []string {
	class, _, _ := strings.Cut(op, " ")
	switch class {
	case "write":
		return []string{"crash", "error", "torn", "short"}
	case "http":
		return []string{"crash", "refused", "500", "404", "apierror", "429"}
	case "body":
		return []string{"crash", "error"}
	case "tool":
		return []string{"crash", "fail", "partial", "killed"}
	case "exit":
		return nil
	case "mutate":
		return []string{"crash", "error"}
	case "close":
		return []string{"error", "lost"}
	default:
		return []string{"error"}
	}
}

// run executes the program once with the given faults (operation index -> fault).
func (w *world) run(faults map[int]string, cwd string, args ...string) *proc {
	p := &proc{root: w.root, faults: faults, seen: map[string]int{}, written: map[string]bool{}, end: make(chan struct{}), bodies: map[string][]string{}}
	vos.Before = func(op, path string, mutates bool) error {
		if isDead() {
			return errIO
		}
		class := "read"
		if mutates {
			class = "mutate"
		}
		if op == "write" || op == "writefile-rest" {
			class = "write"
			op = "data"
		}
		if op == "close" {
			class = "close"
		}
		if class == "write" {
			p.written[path] = true
		}
		switch p.op(class, op+" "+stablePath(path)) {
		case "crash":
			p.die(true, "")
		case "error":
			return &os.PathError{Op: op, Path: path, Err: errIO}
		case "lost": // delayed writing fails: closing reports that part of the data was not stored
			if info, err := os.Stat(path); err == nil && p.written[path] {
				os.Truncate(path, info.Size()/2)
			}
			return &os.PathError{Op: op, Path: path, Err: errIO}
		}
		return nil
	}
	vos.Partial = func(path string, n int) (int, error) {
		switch p.faults[len(p.ops)-1] {
		case "torn":
			return n / 2, tornWrite{p}
		case "short":
			return n / 2, &os.PathError{Op: "write", Path: path, Err: errors.New("no space left on device")}
		}
		return n, nil
	}
	w.tool = func(name, in, out string, data []byte) error {
		switch p.op("tool", name+" "+stablePath(out)) {
		case "crash":
			p.die(true, "")
		case "fail":
			return errors.New("exit status 1")
		case "partial":
			os.WriteFile(out, data[:len(data)/2], 0644)
			return errors.New("exit status 1")
		case "killed":
			os.WriteFile(out, data[:len(data)/2], 0644)
			p.die(true, "")
		}
		return os.WriteFile(out, data, 0644)
	}
	hook := w.web.Hook
	defer func() { w.web.Hook = hook }()
	w.web.Hook = func(r *http.Request, body string) (*http.Response, error, bool) {
		what := r.Method + " " + shortURL(r.URL) + " " + body
		switch p.op("http", what) {
		case "crash":
			p.die(true, "")
		case "refused":
			return nil, errors.New("connection refused"), true
		case "500":
			return vlib.Response(r, 500, nil, strings.NewReader("internal server error page")), nil, true
		case "404":
			return vlib.Response(r, 404, nil, strings.NewReader("not found page")), nil, true
		case "apierror":
			return vlib.Response(r, 200, map[string]string{"mediawiki-api-error": "internal_api_error"}, strings.NewReader(`{"error":{}}`)), nil, true
		case "429":
			return vlib.Response(r, 429, map[string]string{"Retry-After": "0"}, strings.NewReader("slow down page")), nil, true
		}
		if hook != nil {
			return hook(r, body)
		}
		return nil, nil, false
	}
	w.web.WrapBody = func(what string, r io.Reader) io.Reader {
		b, _ := io.ReadAll(r)
		p.bodies[what] = append(p.bodies[what], string(b))
		return &chunks{p: p, what: what, data: b}
	}
	vos.OnExit = func(code int) { p.die(false, fmt.Sprintf("exit code %d", code)) }
	old := sigolo.VerifOnFatal
	sigolo.VerifOnFatal = func(msg string) { p.die(false, "fatal: "+msg) }
	defer func() {
		sigolo.VerifOnFatal = old
		vos.Before = func(op, path string, mutates bool) error {
			if isDead() {
				return errIO
			}
			return nil
		}
		vos.Partial, vos.OnExit = nil, nil
		w.tool = nil
		w.web.WrapBody = nil
	}()
	w.install()
	go func() {
		defer func() {
			if e := recover(); e != nil && !p.dead {
				p.dead, p.message = true, fmt.Sprintf("panic: %v", e)
				close(p.end)
				return
			}
			if !p.dead {
				p.dead = true
				close(p.end)
			}
		}()
		program(cwd, args...)
	}()
	select {
	case <-p.end:
	case <-time.After(20 * time.Second):
		p.dead, p.message = true, "the program hangs"
	}
	return p
}

// chunks delivers a response body in two pieces.
type chunks struct {
	p    *proc
	what string
	data []byte
	pos  int
}

func (c *chunks) Read(b []byte) (int, error) {
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	if c.pos > 0 {
		switch c.p.op("body", "rest "+c.what) {
		case "crash":
			c.p.die(true, "")
		case "error":
			return 0, io.ErrUnexpectedEOF
		}
	}
	end := len(c.data)
	if c.pos == 0 && len(c.data) > 1 {
		end = len(c.data) / 2
	}
	n := copy(b, c.data[c.pos:end])
	c.pos += n
	return n, nil
}

func stablePath(p string) string {
	if strings.Contains(p, "/.tmp/") {
		i := strings.Index(p, "/.tmp/")
		return p[:i] + "/.tmp/" + digits.ReplaceAllString(p[i+6:], "*")
	}
	return p
}

var digits = regexp.MustCompile(`[0-9]{3,}`)

func shortURL(u *url.URL) string { return u.Host + u.Path + "?" + u.RawQuery }

// setting is a world and a way to call the program.
type setting struct {
	Name  string
	Mode  string // project, article, standalone
	World string
	Type  string
	Cfg   map[string]any
}

func (s setting) build(dir string) (*world, []string, string) {
	w := newWorld(dir)
	pics := " [[File:Pic.png|thumb|cap]] [[File:Draw.svg|thumb|cap]] [[File:Paper.webp|thumb|cap]]"
	rich := s.World == "rich"
	text := func(t string) string {
		x := marker(t)
		if rich {
			x += pics + " {{T|x}} <math>a+b</math>"
			if t == "B" {
				x += " [[File:Pic.png|thumb|again]] [[File:Own B.png|10px]] {{T|y}} <math>c</math>"
			}
		}
		if s.World == "image" {
			x += " [[File:Pic.png|thumb|cap]]"
		}
		if s.World == "svg" || s.World == "viewbox" {
			x += " [[File:Draw.svg|thumb|cap]]"
		}
		if s.World == "math" {
			x += " <math>a+b</math>"
		}
		if s.World == "template" {
			x += " {{T|x}}"
		}
		return x
	}
	if s.World == "viewbox" {
		w.web.Images = map[string][]byte{"Draw.svg": []byte(`<svg xmlns="http://www.w3.org/2000/svg" width="100%" height="50%" viewBox="0 0 10 20"><rect width="100%"/></svg>`)}
		w.web.Articles["*|File:Draw.svg"] = ""
		w.cfg["svg-size-to-viewbox"] = true
	}
	for _, t := range []string{"A", "B"} {
		w.web.Articles["en.wikipedia.org|"+t] = text(t)
	}
	w.web.Expand = func(s string) string { return "Expanded(" + strings.Trim(s, "{}") + ")" }
	w.cfg["worker-threads"] = 1
	w.cfg["command-template-image-processing"] = "shrink {INPUT} {OUTPUT}"
	w.cfg["command-template-svg-to-png"] = "topng {INPUT} {OUTPUT}"
	w.cfg["command-template-webp-to-png"] = "topng {INPUT} {OUTPUT}"
	w.cfg["command-template-pdf-to-png"] = "topng {INPUT} {OUTPUT}"
	w.cfg["command-template-math-svg-to-png"] = "topng {INPUT} {OUTPUT}"
	w.cfg["cache-eviction-strategy"] = "none"
	if s.Type != "" {
		w.cfg["output-type"] = s.Type
		if strings.HasPrefix(s.Type, "stats") {
			w.cfg["output-driver"] = "internal"
		}
	}
	for k, v := range s.Cfg {
		w.cfg[k] = v
	}
	out := filepath.Join(dir, "out", "book.epub")
	if s.Type == "stats-json" {
		out = filepath.Join(dir, "out", "book.json")
	}
	if s.Type == "stats-txt" {
		out = filepath.Join(dir, "out", "book.txt")
	}
	args := []string{"-c", w.writeConfig(), "-o", out}
	switch s.Mode {
	case "article":
		args = append([]string{"article", "B"}, args...)
	case "standalone":
		put(filepath.Join(dir, "text.mediawiki"), text("B"))
		args = append([]string{"standalone", filepath.Join(dir, "text.mediawiki")}, args...)
	default:
		args = append([]string{"project", w.writeProject(map[string]any{"articles": []string{"A", "B"}, "metadata": map[string]any{"title": "X"}})}, args...)
	}
	return w, args, out
}

// book is what the reader gets: the chapters in order and the pictures they show.
func (w *world) book(p *proc, out string) string {
	if p.message != "" {
		return "failed: " + p.message
	}
	if p.crashed {
		return "crashed"
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return "no book: " + err.Error()
	}
	if strings.HasSuffix(out, ".epub") {
		if len(w.pandoc) == 0 {
			return "no book: pandoc was not called"
		}
		last := w.pandoc[len(w.pandoc)-1]
		s := strings.Join(last.Content, "\n=====\n") + "\n"
		var names []string
		for n := range last.Pictures {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			s += "PICTURE " + n + ": " + last.Pictures[n] + "\n"
		}
		if string(b) != "EPUB\n"+strings.Join(last.Content, "\n=====\n") {
			s += "OUTPUT FILE " + string(b)
		}
		return strings.ReplaceAll(s, w.root, "ROOT")
	}
	var v any
	if json.Unmarshal(b, &v) == nil {
		b, _ = json.Marshal(v)
	}
	return string(b)
}

// firstDiff describes where b differs from a.
func firstDiff(a, b string) string {
	if a == b {
		return ""
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %q is missing", x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%.150q instead of %.150q", y[i], x[i])
		}
	}
	return fmt.Sprintf("additional line %q", y[len(x)])
}

// reference is the undisturbed run of a setting.
type reference struct {
	ops   []string
	book  string
	files map[string]string
	ok    map[string]map[string]bool // file -> contents it may have at any moment
}

func (c *faultCtx) reference(s setting) *reference {
	if r, ok := c.refs[s.Name]; ok {
		return r
	}
	dir := filepath.Join(c.Scratch, "run")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	w, args, out := s.build(dir)
	p := w.run(nil, dir, args...)
	r := &reference{ops: p.ops, book: w.book(p, out), files: snapshot(w.cache), ok: map[string]map[string]bool{}}
	if p.message != "" {
		panic("undisturbed run of " + s.Name + " fails: " + p.message)
	}
	for f, content := range r.files {
		r.ok[f] = map[string]bool{content: true}
		if strings.HasPrefix(f, "images/") {
			name := strings.TrimPrefix(f, "images/")
			for _, bs := range p.bodies {
				for _, b := range bs { // the untouched or converted picture
					if s.World == "viewbox" && strings.HasPrefix(b, "<svg") {
						resized := strings.NewReplacer(`width="100%" height`, `width="10pt" height`, `"50%"`, `"20pt"`).Replace(b)
						r.ok[f][b] = !strings.HasSuffix(f, ".png")
						r.ok[f]["PNG("+resized+")"] = strings.HasSuffix(f, ".png")
					}
					if strings.Contains(content, b) && !strings.HasSuffix(name, ".json") {
						r.ok[f][b] = !strings.HasSuffix(f, ".svg.png") && !strings.HasSuffix(f, ".webp.png")
						r.ok[f]["PNG("+b+")"] = true
					}
				}
			}
		}
	}
	c.refs[s.Name] = r
	return r
}

type faultCtx struct {
	*vlib.Ctx
	refs map[string]*reference
}

var settings = []setting{
	{Name: "text", Mode: "project"},
	{Name: "image", Mode: "project", World: "image"},
	{Name: "svg", Mode: "project", World: "svg"},
	{Name: "viewbox", Mode: "project", World: "viewbox", Cfg: map[string]any{"command-template-svg-to-png": ""}},
	{Name: "viewbox-convert", Mode: "project", World: "viewbox"},
	{Name: "math", Mode: "project", World: "math"},
	{Name: "rich", Mode: "project", World: "rich"},
	{Name: "rich-lru", Mode: "project", World: "rich", Cfg: map[string]any{"cache-eviction-strategy": "lru"}},
	{Name: "rich-noprocessing", Mode: "project", World: "rich", Cfg: map[string]any{"command-template-image-processing": ""}},
	{Name: "rich-mathtemplate", Mode: "project", World: "rich", Cfg: map[string]any{"math-converter": "template"}},
	{Name: "rich-article", Mode: "article", World: "rich"},
	{Name: "rich-standalone", Mode: "standalone", World: "rich"},
	{Name: "stats", Mode: "project", World: "rich", Type: "stats-json"},
	{Name: "stats-txt", Mode: "article", World: "rich", Type: "stats-txt"},
}

// tornFile reports a file of the cache that is neither absent nor complete.
func tornFile(ref *reference, files map[string]string) string {
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		if strings.HasPrefix(f, ".tmp/") {
			continue
		}
		ok, known := ref.ok[f]
		if !known {
			return fmt.Sprintf("cache file %s appears, which an undisturbed run does not create (content %.100q)", f, files[f])
		}
		if !ok[files[f]] {
			return fmt.Sprintf("cache file %s holds %.100q, which is not its complete content %.100q", f, files[f], ref.files[f])
		}
	}
	return ""
}

// unprocessed lists the pictures that are in the cache but were not processed yet.
func unprocessed(ref *reference, files map[string]string) map[string]bool {
	out := map[string]bool{}
	for f, content := range files {
		if strings.HasPrefix(f, "images/") && content != ref.files[f] && ref.ok[f][content] {
			out[f] = true
		}
	}
	return out
}

// judgeC04 compares the books of an interrupted run and of the following undisturbed one with the reference.
func (w *world) judgeC04(ref *reference, before map[string]string, p *proc, book1 string, between map[string]string, rerun *proc, book2 string) (bad, finding string) {
	const stays = "a picture that was cached but not processed before the interruption stays unprocessed"
	const window = "interrupted between caching and processing a picture"
	repaired := func(book string, files map[string]string) bool {
		raw := unprocessed(ref, files)
		for f := range raw {
			book = strings.ReplaceAll(book, "PICTURE ./"+f+": "+files[f]+"\n", "PICTURE ./"+f+": "+ref.files[f]+"\n")
			// the conversion that the following run made of it
			book = strings.ReplaceAll(book, "PNG("+files[f]+")", "PNG("+ref.files[f]+")")
		}
		return len(raw) > 0 && book == ref.book
	}
	if p.message == "" && !p.crashed && book1 != ref.book {
		if repaired(book1, before) {
			return stays, window
		}
		return "the run reports success despite the fault, but the book differs: " + firstDiff(ref.book, book1), ""
	}
	if strings.HasPrefix(p.message, "panic") || strings.Contains(p.message, "hangs") {
		return "the fault makes the program end with " + p.message, ""
	}
	if book2 == ref.book {
		if _, err := os.Stat(filepath.Join(w.cache, ".tmp")); err == nil {
			return "temporary files are left behind after an undisturbed run", ""
		}
		return "", ""
	}
	if repaired(book2, between) {
		if !p.crashed && !repaired(book2, before) { // the program itself went on and could tidy up
			return "a picture whose processing failed stays unprocessed in the following runs", ""
		}
		return stays, window
	}
	return "the book after the interruption differs: " + firstDiff(ref.book, book2), ""
}

func exploreFaults(c *vlib.Ctx, property string) {
	fc := &faultCtx{Ctx: c, refs: map[string]*reference{}}
	for _, s := range settings {
		ref := fc.reference(s)
		usual := map[string]bool{}
		for _, label := range ref.ops {
			usual[label] = true
		}
		for i, label := range ref.ops {
			for _, f := range faultsFor(label) {
				key := s.Name + "|" + f + "|" + label
				c.Do(key, func() vlib.Outcome {
					dir := filepath.Join(c.Scratch, "run")
					os.RemoveAll(dir)
					os.MkdirAll(dir, 0755)
					w, args, out := s.build(dir)
					p := w.run(map[int]string{i: f}, dir, args...)
					o := vlib.Outcome{Steps: int64(len(p.ops))}
					if i >= len(p.ops) || p.ops[i] != label {
						o.Bad = "the run is not reproducible: operation " + label + " became " + fmt.Sprint(p.ops[min(i, len(p.ops)-1)])
						return o
					}
					between := snapshot(w.cache)
					bookA := w.book(p, out)
					if property == "C03" {
						o.Bad = tornFile(ref, between)
						o.Observed = fmt.Sprint(p.crashed, p.message, len(between), vlib.Hash64(fmt.Sprint(between)))
						o.Executions = 1
						// a second fault in what the program only does because of the first one
						for j := i + 1; j < len(p.ops) && o.Bad == ""; j++ {
							if usual[p.ops[j]] {
								continue
							}
							for _, f2 := range faultsFor(p.ops[j]) {
								os.RemoveAll(dir)
								os.MkdirAll(dir, 0755)
								w, args, _ := s.build(dir)
								p2 := w.run(map[int]string{i: f, j: f2}, dir, args...)
								o.Executions++
								o.Steps += int64(len(p2.ops))
								if o.Bad = tornFile(ref, snapshot(w.cache)); o.Bad != "" {
									o.Detail = "second fault " + f2 + " at " + p.ops[j]
									return o
								}
							}
						}
						return o
					}
					p2 := w.run(nil, dir, args...)
					bookB := w.book(p2, out)
					o.Steps += int64(len(p2.ops))
					o.Executions = 2
					o.Bad, o.Finding = w.judgeC04(ref, nil, p, bookA, between, p2, bookB)
					o.Observed = fmt.Sprint(p.crashed, p.message, len(between), len(p2.ops))
					return o
				})
			}
		}
		// a second fault in the run after the first one
		if !c.Thorough() && s.Name != "text" && s.Name != "image" {
			continue
		}
		for i, label := range ref.ops {
			for _, f := range []string{"crash", "torn", "killed"} {
				if !has(faultsFor(label), f) {
					continue
				}
				key := s.Name + "|" + f + "|" + label + "|then"
				c.Do(key, func() vlib.Outcome {
					o := vlib.Outcome{}
					n := 1
					for j := 0; j < n; j++ {
						for _, f2 := range []string{"crash", "torn", "error"} {
							dir := filepath.Join(c.Scratch, "run")
							os.RemoveAll(dir)
							os.MkdirAll(dir, 0755)
							w, args, out := s.build(dir)
							p := w.run(map[int]string{i: f}, dir, args...)
							first := snapshot(w.cache)
							p2 := w.run(map[int]string{j: f2}, dir, args...)
							if !p2.crashed && f2 == "crash" || j == 0 {
								n = len(p2.ops)
							} else {
								n = max(n, len(p2.ops)+1)
							}
							if j >= len(p2.ops) {
								n = j
								break
							}
							if !has(faultsFor(p2.ops[j]), f2) {
								continue
							}
							between := snapshot(w.cache)
							bookA := w.book(p2, out)
							o.Executions += 2
							o.Steps += int64(len(p.ops) + len(p2.ops))
							if property == "C03" {
								if bad := tornFile(ref, between); bad != "" {
									o.Bad, o.Detail = bad, "second fault "+f2+" at "+p2.ops[j]
									return o
								}
								continue
							}
							p3 := w.run(nil, dir, args...)
							bookB := w.book(p3, out)
							o.Executions++
							bad, finding := w.judgeC04(ref, first, p2, bookA, between, p3, bookB)
							if bad != "" && (o.Bad == "" || finding == "") {
								o.Bad, o.Finding, o.Detail = bad, finding, "second fault "+f2+" at "+p2.ops[j]
								if finding == "" {
									return o
								}
							}
						}
					}
					o.Observed = fmt.Sprint(n)
					return o
				})
			}
		}
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// pictures returns the content of every local picture the HTML text refers to.
func pictures(dir, html string, into map[string]string) {
	for _, m := range srcAttr.FindAllStringSubmatch(html, -1) {
		ref := m[1]
		parts := strings.Split(ref, "/")
		for i, p := range parts {
			if u, err := url.PathUnescape(p); err == nil {
				parts[i] = u
			}
		}
		b, err := os.ReadFile(filepath.Join(dir, strings.Join(parts, "/")))
		if err != nil {
			into[ref] = "MISSING"
			continue
		}
		into[ref] = string(b)
	}
}

var srcAttr = regexp.MustCompile(`src="([^"]*)"`)

// runTopng and runShrink are image tools: they read IN and write OUT in one step unless the fault injector says otherwise.
func (w *world) imageTool(kind string) func(name, dir string, args []string, out, errOut io.Writer) error {
	return func(name, dir string, args []string, out, errOut io.Writer) error {
		if len(args) != 2 {
			return fmt.Errorf("%s: expected IN OUT, got %q", name, args)
		}
		in, outf := args[0], args[1]
		b, err := os.ReadFile(in)
		if err != nil {
			fmt.Fprintln(errOut, err)
			return errors.New("exit status 1")
		}
		var data []byte
		if kind == "PNG" || !bytes.HasPrefix(b, []byte("SMALL(")) {
			data = []byte(kind + "(" + string(b) + ")")
		} else {
			data = b
		}
		w.converts = append(w.converts, name+" "+strings.Join(args, " "))
		if w.tool != nil {
			return w.tool(name, in, outf, data)
		}
		return os.WriteFile(outf, data, 0644)
	}
}

func checkC03() *vlib.Check {
	return &vlib.Check{ID: "C03", Level: "fault_enumeration", QuickS: 600, ThoroughS: 1500,
		Rule:        "the whole program is run once per (operation, fault): every file operation, write, response, response body part and external tool call of the undisturbed run, with process death, torn write, I/O error, short write, HTTP errors, failing and dying tools",
		Bounds:      map[string]string{"quick": "all single faults of 14 settings, all pairs of faults in consecutive runs of 2 settings", "thorough": "all single faults and all pairs (death, then death or error in the next run) of all settings"},
		Assumptions: []string{"a process that dies leaves exactly the effects of the operations it completed (no loss of completed writes: the machine keeps running)"},
		Run:         func(c *vlib.Ctx) { exploreFaults(c, "C03") }}
}

func checkC04() *vlib.Check {
	return &vlib.Check{ID: "C04", Level: "fault_enumeration", QuickS: 600, ThoroughS: 1500,
		Rule:        "as C03, followed by an undisturbed run whose book (chapters and pictures) is compared with that of a run in a fresh directory",
		Bounds:      map[string]string{"quick": "all single faults of 14 settings, all pairs of faults in consecutive runs of 2 settings", "thorough": "all single faults and all pairs of all settings"},
		Assumptions: []string{"a process that dies leaves exactly the effects of the operations it completed", "external tools are deterministic"},
		Run:         func(c *vlib.Ctx) { exploreFaults(c, "C04") }}
}
