# Changes for the properties C08 and up (see tools/mkseed.py).

STATS = '''
func configStats() {
	config.Current.OutputType = config.OutputTypeStatsJson
	config.Current.OutputDriver = config.OutputDriverInternal
}
'''

CHILD = '''
func zzChild(t *testing.T) string {
	cmd := exec.Command(os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZ_CHILD=1")
	out, _ := cmd.CombinedOutput()
	return string(out)
}

func zzContains(a, b string) bool { return strings.Contains(a, b) }
'''

seed("c02-walk-vanish", "C02", "the image processing of another worker removes its temporary files exactly while the size of the cache is determined",
     "a worker fails to store a downloaded file because temporary files of another worker vanish while the cache folder is walked",
     [("util/files.go", '''	readSize := func(path string, file os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				// It might happen, that files are deleted during file walk (concurrency etc.)
				return nil
			}
			return err
		}
		if !file.IsDir() {
			dirSizeBytes''', '''	readSize := func(path string, file os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !file.IsDir() {
			dirSizeBytes''')],
     "util", '''package util

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for i := 0; i < 200; i++ {
		os.WriteFile(filepath.Join(dir, fmt.Sprint("keep", i)), []byte("x"), 0644)
	}
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
			}
			for i := 0; i < 50; i++ {
				os.WriteFile(filepath.Join(dir, fmt.Sprint("zz", i)), []byte("x"), 0644)
			}
			for i := 49; i >= 0; i-- {
				os.Remove(filepath.Join(dir, fmt.Sprint("zz", i)))
			}
		}
	}()
	defer func() { close(stop); <-done }()
	fs := &OsFilesystem{}
	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); {
		if err, size := fs.DirSizeInBytes(dir); err != nil || size < 200 {
			t.Fatalf("size %d, error %v", size, err)
		}
	}
}
''')

seed("c08-give-up", "C08", "a server that answers many times with 'too many requests' before it answers the request",
     "after a number of 'too many requests' answers in a row the whole run fails",
     [("http/http.go", '''	for {
		if request.GetBody''', '''	for tries := 1; ; tries++ {
		if tries > 8 {
			return nil, errors.Errorf("%s request to url %s failed after too many tries", request.Method, url)
		}
		if request.GetBody''')] , "main", '''package main

import (
	"net/http"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "textA"
	n := 0
	w.hook = func(r *http.Request, body string) *http.Response {
		n++
		if n <= 12 {
			return demoResponse(429, map[string]string{"Retry-After": "0"}, "slow down")
		}
		return nil
	}
	if b := w.book("A"); !strings.Contains(b, "textA") {
		t.Fatalf("wrong book: %s", b)
	}
}
''')

seed("c08-error-header-get-only", "C08", "a formula whose check is answered with status 200 and an API error header",
     "the error header of the Wikipedia API is ignored for POST requests, so an erroneous answer counts as valid",
     [("http/http.go", '		if responseErrorHeader != "" {', '		if responseErrorHeader != "" && request.Method == http.MethodGet {')],
     "http", '''package http

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

type zzTransport struct{}

func (zzTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	h := http.Header{}
	h.Set("mediawiki-api-error", "broken")
	return &http.Response{StatusCode: 200, Header: h, Body: io.NopCloser(strings.NewReader("{}")), Request: r}, nil
}

func TestZZDemo(t *testing.T) {
	s := &DefaultHttpService{httpClient: &http.Client{Transport: zzTransport{}}}
	if _, err := s.PostFormEncoded("https://example.org/x", "q=x"); err == nil {
		t.Fatal("no error despite of the error header")
	}
}
''')

seed("c09-skip-failed-host", "C09", "a book with one picture that only exists on the last host and a later one that only exists on the first",
     "a host that could not deliver one picture is not asked for any later picture of the same article",
     [("wikipedia/wikipedia.go", '''	for _, image := range images {
		sigolo.Debugf("Download image %s", image)

		downloadErr := w.downloadImageUsingAllSources(image)
''', '''	unavailableHosts := map[string]bool{}
	for _, image := range images {
		sigolo.Debugf("Download image %s", image)

		downloadErr := w.downloadImageUsingAllSources(image, unavailableHosts)
'''), ("wikipedia/wikipedia.go", '''func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {''', '''func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string, unavailableHosts map[string]bool) error {'''),
      ("wikipedia/wikipedia.go", '''		isLastSource := i == len(w.wikipediaImageArticleHosts)-1
''', '''		isLastSource := i == len(w.wikipediaImageArticleHosts)-1
		if unavailableHosts[articleHost] && !isLastSource {
			// This host didn't answer before
			continue
		}
'''), ("wikipedia/wikipedia.go", '''		if downloadErr != nil {
			if isLastSource {''', '''		if downloadErr != nil {
			unavailableHosts[articleHost] = true
			if isLastSource {''')],
     "main", '''package main

import (
	"net/http"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "[[File:Last.jpg]] [[File:First.jpg]]"
	w.hook = func(r *http.Request, body string) *http.Response {
		page := r.URL.Query().Get("page")
		if page == "File:Last.jpg" && r.URL.Host == "commons.wikimedia.org" || page == "File:First.jpg" && r.URL.Host != "commons.wikimedia.org" {
			return demoResponse(200, map[string]string{"mediawiki-api-error": "missingtitle"}, "{}")
		}
		if strings.HasPrefix(page, "File:") {
			return demoResponse(200, nil, `{"parse":{"title":"` + page + `","wikitext":{"*":"x"}}}`)
		}
		return nil
	}
	if b := w.book("A"); !strings.Contains(b, "First.jpg") {
		t.Fatalf("wrong book: %s", b)
	}
}
''')

bookseed("c10-path-escape", "C10", "a picture with a '&' in its name whose next letters form an HTML entity (also '+' in names)",
         "the reference to a picture in the book does not lead to the file of that picture",
         [("generator/html.go", "		parts[i] = url.QueryEscape(part)", "		parts[i] = url.PathEscape(part)")],
         {"A": "[[File:P&copy.png]]"}, must=['src="./images/P%26copy.png"'])

seed("c11-key-lower-case", "C11", "two templates that only differ in the case of their parameters",
     "a template is replaced by the text of another one, whose wikitext only differs in upper and lower case",
     [("parser/template.go", "			key := util.Hash(templateText)", "			// The case of template names is not relevant\n			key := util.Hash(strings.ToLower(templateText))")],
     "main", '''package main

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "x {{foo|bar}} y {{foo|Bar}} z"
	if b := w.book("A"); !strings.Contains(b, "x Expanded(foo|bar) y Expanded(foo|Bar) z") {
		t.Fatalf("wrong book: %s", b)
	}
}
''')

bookseed("c17-short-section", "C17", "a section that consists of a single character", "sections with just a single character vanish from the book",
         [("parser/cleaner.go", "		sectionIsEmpty = sectionIsEmpty && len(line) == 0\n", "		sectionIsEmpty = sectionIsEmpty && len(line) <= 1\n")],
         {"A": "intro\n== One ==\n5\n== Two ==\ntext"}, must=["<h2>One</h2>"])

bookseed("c19-token-line", "C19", "a paragraph that ends with a link, a reference or any other element",
         "paragraphs that end with an element (e.g. a reference) are not separated from the next paragraph",
         [("parser/pattern.go", '	TOKEN_LINE_REGEX = "^" + TOKEN_REGEX + "$"', '	TOKEN_LINE_REGEX = TOKEN_REGEX + "$"')],
         {"A": "one [[link]]\n\ntwo"}, must=["one link\n<br><br>\ntwo"])

seed("c20-unclosed-table", "C20", "a table without end at the end of the text",
     "the whole run crashes because of an unclosed table",
     [("parser/table.go", """			if i+length+1 < len(lines) {
				newLines = append(newLines, lines[i+length+1:]...)
			}
""", """			newLines = append(newLines, lines[i+length+1:]...)
""")],
     "main", '''package main

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "x\\n{|\\n| cell"
	if b := w.book("A"); !strings.Contains(b, "cell") {
		t.Fatalf("wrong book: %s", b)
	}
}
''')

bookseed("c14-second-crossover", "C14", "a passage in which two styles overlap twice",
         "all marks of a passage stay in the text when styles overlap more than once",
         [("parser/formatting.go", """				if repairCrossovers {
					newStack = append(stack, BoldItalicStackItem{itemType: ITALIC_CLOSE""", """				if repairCrossovers && len(stack) < 6 {
					newStack = append(stack, BoldItalicStackItem{itemType: ITALIC_CLOSE""")],
         {"A": "x '''a ''b''' c'''d'' e ''f''' g'' y"}, mustnot=["''"])

seed("c21-number-words", "C21", "a text with characters that are numbers but no digits, like fractions",
     "words made of number characters like ½ or Ⅷ are not counted",
     [("generator/stats.go", "unicode.IsNumber(r)", "unicode.IsDigit(r)")],
     "main", '''package main

import (
	"encoding/json"
	"path/filepath"
	"testing"
	"wiki2book/config"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.out = filepath.Join(w.dir, "stats.json")
	w.config()
	configStats()
	w.articles["A"] = "a ½ \\u2167 b"
	var s map[string]any
	json.Unmarshal([]byte(w.book("A")), &s)
	if s["number-of-words"] != 4.0 {
		t.Fatalf("wrong statistics: %v", s)
	}
}
''' + STATS)

seed("c25-toc-depth-one", "C25", "a table of contents with just one level", "a book with toc-depth 1 has no table of contents",
     [("generator/epub.go", "	if config.Current.TocDepth > 0 {", "	if config.Current.TocDepth > 1 {")],
     "main", '''package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "text"
	w.config()
	config.Current.TocDepth = 1
	script := filepath.Join(w.dir, "args.sh")
	os.WriteFile(script, []byte("#!/bin/bash\\necho \\"$@\\" > "+w.out+"\\n"), 0755)
	config.Current.PandocExecutable = script
	if b := w.book("A"); !strings.Contains(b, "--toc-depth 1") {
		t.Fatalf("wrong arguments: %s", b)
	}
}
''')

bookseed("c27-inline-size", "C27", "an image without 'thumb' whose width is exactly the limit for inline images", "images with a width of exactly 100px are not shown as figures",
         [("parser/image.go", "xSizeInt >= 100", "xSizeInt > 100")],
         {"A": "[[File:a.jpg|100px]]"}, must=['<div class="figure">\n<img alt="image" src="./images/A.jpg"'])

seed("c28-namespace-greedy", "C28", "an SVG with at least two entities for namespaces and a size between them",
     "the size of an SVG formula or drawing with several namespace entities is lost",
     [("image/svg.go", "`&ns.*?;`", "`&ns.*;`")],
     "image", '''package image

import "testing"

func TestZZDemo(t *testing.T) {
	svg := `<svg xmlns="&ns_svg;" width="3ex" height="4ex" style="a: b" xmlns:xlink="&ns_xlink;"></svg>`
	a, err := parseSimpleSvgAttributes([]byte(svg), "x.svg")
	if err != nil || a.Width != "3ex" || a.Height != "4ex" || a.Style != "a: b" {
		t.Fatalf("%v %v", a, err)
	}
}
''')

seed("c22-toc-zero", "C22", "a command line or project setting of toc-depth 0 on top of a configuration file with another value",
     "an explicit 'no table of contents' is ignored",
     [("config/config.go", "	if c.TocDepth != defaultConfig.TocDepth {", "	if c.TocDepth != 0 && c.TocDepth != defaultConfig.TocDepth {")],
     "config", '''package config

import "testing"

func TestZZDemo(t *testing.T) {
	Current = NewDefaultConfig()
	Current.CommandTemplateMathSvgToPng = "x {INPUT} {OUTPUT}"
	Current.TocDepth = 4
	c := NewDefaultConfig()
	c.TocDepth = 0
	MergeIntoCurrentConfig(c)
	if Current.TocDepth != 0 {
		t.Fatalf("toc-depth is %d", Current.TocDepth)
	}
}
''')

seed("c23-prefer-cwd", "C23", "a file of the same name in the working directory and beside the configuration file",
     "a relative path of a configuration file leads to a file of the working directory",
     [("util/files.go", '''	var err error
	if path != "" && !filepath.IsAbs(path) {
		path, err = filepath.Abs(filepath.Join(basedir, path))''', '''	var err error
	if path != "" && !filepath.IsAbs(path) && !strings.HasPrefix(path, ".") {
		if _, statErr := os.Stat(path); statErr == nil {
			return filepath.Abs(path)
		}
	}
	if path != "" && !filepath.IsAbs(path) {
		path, err = filepath.Abs(filepath.Join(basedir, path))''')],
     "config", '''package config

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "conf"), 0755)
	os.MkdirAll(filepath.Join(dir, "work"), 0755)
	os.WriteFile(filepath.Join(dir, "conf", "c.json"), []byte(`{"style-file": "s.css", "command-template-math-svg-to-png": "x {INPUT} {OUTPUT}"}`), 0644)
	os.WriteFile(filepath.Join(dir, "conf", "s.css"), nil, 0644)
	os.WriteFile(filepath.Join(dir, "work", "s.css"), nil, 0644)
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Chdir(filepath.Join(dir, "work"))
	Current = NewDefaultConfig()
	if err := LoadConfig("../conf/c.json"); err != nil {
		t.Fatal(err)
	}
	if Current.StyleFile != filepath.Join(dir, "conf", "s.css") {
		t.Fatalf("style file is %s", Current.StyleFile)
	}
}
''')

seed("c24-first-font", "C24", "several font files of which a later one does not exist",
     "a missing font file is not reported before the work starts unless it's the first one",
     [("config/config.go", "	for _, f := range c.FontFiles {\n		util.AssertPathExists(f)\n	}", "	for _, f := range c.FontFiles {\n		util.AssertPathExists(f)\n		break\n	}")],
     "main", '''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
)

func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_CHILD") == "1" {
		w := newDemoWorld(t)
		w.articles["A"] = "text"
		w.config()
		font := filepath.Join(w.dir, "a.ttf")
		os.WriteFile(font, nil, 0644)
		config.Current.FontFiles = []string{font, filepath.Join(w.dir, "missing.ttf")}
		w.book("A")
		os.Stdout.WriteString("BOOK-WRITTEN\\n")
		return
	}
	out := zzChild(t)
	if zzContains(out, "BOOK-WRITTEN") {
		t.Fatalf("missing font not reported: %s", out)
	}
}
''' + CHILD)

seed("c26-create-truncates", "C26", "an output file of an earlier run and a run that fails",
     "the output file of an earlier run is lost before the new book is complete",
     [("main.go", '''		file, err = os.Open(outputFile)
		sigolo.FatalCheck(err)
''', '''		file, err = os.OpenFile(outputFile, os.O_RDONLY|os.O_TRUNC, os.ModePerm)
		if err != nil {
			file, err = os.Open(outputFile)
		}
		sigolo.FatalCheck(err)
''')],
     "main", '''package main

import (
	"os"
	"path/filepath"
	"testing"
	"wiki2book/config"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "book.epub")
	os.WriteFile(out, []byte("old book"), 0644)
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = filepath.Join(dir, "cache")
	ensurePathsAndClearTempDir(out)
	if b, _ := os.ReadFile(out); string(b) != "old book" {
		t.Fatalf("old book is gone: %q", b)
	}
}
''')
