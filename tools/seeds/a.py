seed("c01-adjacent-duplicates", "C01", "a project that lists the same article twice in a row",
     "the second of two equal neighbouring articles is dropped from the book",
     [("generator/epub.go", '	args = append(args, sourceFiles...)\n', '	for i, sourceFile := range sourceFiles {\n		if i > 0 && sourceFile == sourceFiles[i-1] {\n			continue\n		}\n		args = append(args, sourceFile)\n	}\n')],
     "main", '''package main

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"], w.articles["B"] = "textA", "textB"
	if b := w.book("A", "A", "B"); strings.Count(b, "textA") != 2 || strings.Count(b, "textB") != 1 {
		t.Fatalf("wrong book: %s", b)
	}
}
''')

seed("c02-remove-before-rename", "C02", "two workers using the same template: one reads the cached file exactly between the other's removal and renaming",
     "a worker can find a shared cache entry and then fail to read it, because another worker replaces the entry by deleting it first",
     [("cache/cache.go", '	err = util.CurrentFilesystem.Rename(tempFilepath, outputFilepath)\n', '	// Renaming to an existing file does not work on every platform.\n	_ = util.CurrentFilesystem.Remove(outputFilepath)\n	err = util.CurrentFilesystem.Rename(tempFilepath, outputFilepath)\n')],
     "cache", '''package cache

import (
	"os"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

type watchFs struct {
	util.OsFilesystem
	path string
	gone bool
}

func (w *watchFs) Rename(a, b string) error {
	if _, err := os.Stat(w.path); err != nil {
		w.gone = true
	}
	return w.OsFilesystem.Rename(a, b)
}

func TestZZDemo(t *testing.T) {
	config.Current.CacheDir = t.TempDir()
	config.Current.CacheEvictionStrategy = "none"
	os.MkdirAll(GetTempPath(), 0755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	p, err := CacheToFile("templates", "x", strings.NewReader("one"))
	if err != nil {
		t.Fatal(err)
	}
	w := &watchFs{path: p}
	util.CurrentFilesystem = w
	if _, err = CacheToFile("templates", "x", strings.NewReader("two")); err != nil {
		t.Fatal(err)
	}
	if w.gone {
		t.Fatal("another worker could see the cached file vanish")
	}
}
''')

seed("c03-early-end-of-body", "C03", "a connection that breaks off in the middle of a response body",
     "a response that was cut off is cached as if it were complete",
     [("cache/cache.go", '	_, err = io.Copy(tempFile, reader)\n	if err != nil {\n', '	_, err = io.Copy(tempFile, reader)\n	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {\n')],
     "cache", '''package cache

import (
	"io"
	"os"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

type cut struct{ r io.Reader }

func (c cut) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	config.Current.CacheDir = t.TempDir()
	os.MkdirAll(GetTempPath(), 0755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	p, err := CacheToFile("images", "x.png", cut{strings.NewReader("half of it")})
	if err == nil {
		t.Fatal("no error reported")
	}
	if _, err = os.Stat(p); err == nil {
		t.Fatal("incomplete file in the cache")
	}
}
''')

seed("c04-placeholder-png", "C04", "the conversion of an SVG to PNG failing or being interrupted, followed by another run",
     "after a failed conversion an empty PNG stays in the cache and the next run puts it into the book",
     [("wikipedia/wikipedia.go", '			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)\n', '			// Some tools only write to existing files\n			pngFile, err := os.Create(outputPngFilepath)\n			if err != nil {\n				return err\n			}\n			_ = pngFile.Close()\n\n			err = w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)\n'),
      ("wikipedia/wikipedia.go", '	"net/url"\n', '	"net/url"\n	"os"\n')],
     "wikipedia", '''package wikipedia

import (
	"errors"
	"os"
	"path/filepath"
	"testing"
	"wiki2book/config"
)

type failing struct{ fail bool }

func (f *failing) ResizeAndCompressImage(a, b string) error { return nil }
func (f *failing) ConvertToPng(in, out, template string) error {
	if f.fail {
		return errors.New("tool failed")
	}
	return os.WriteFile(out, []byte("picture"), 0644)
}

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	config.Current.CommandTemplateSvgToPng = "convert {INPUT} {OUTPUT}"
	config.Current.CommandTemplateImageProcessing = ""
	svg := filepath.Join(dir, "a.svg")
	os.WriteFile(svg, []byte("<svg/>"), 0644)
	f := &failing{fail: true}
	w := &DefaultWikipediaService{imageProcessingService: f}
	if w.postProcessImage(svg, true) == nil {
		t.Fatal("failure not reported")
	}
	f.fail = false
	if err := w.postProcessImage(svg, false); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(svg + ".png"); string(b) != "picture" {
		t.Fatalf("broken picture %q", b)
	}
}
''')

seed("c05-lazy-touch", "C05", "lru strategy: look-ups of a file within a minute after it was stored, then eviction",
     "files used again shortly after they were stored do not count as recently used and get evicted first",
     [("cache/cache.go", '	if config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLru {\n', '	if config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLru && fileNeedsTouch(filePath) {\n'),
      ("cache/cache.go", '// isOutdated returns whether', '// fileNeedsTouch returns false for very young files to prevent needless write operations.\nfunc fileNeedsTouch(filePath string) bool {\n	fileStat, err := util.CurrentFilesystem.Stat(filePath)\n	return err != nil || time.Since(fileStat.ModTime()) > time.Minute\n}\n\n// isOutdated returns whether')],
     "cache", '''package cache

import (
	"os"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

func TestZZDemo(t *testing.T) {
	config.Current.CacheDir = t.TempDir()
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyLru
	config.Current.CacheMaxSize = 101
	config.Current.CacheMaxAge = 1000
	os.MkdirAll(GetTempPath(), 0755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	pause := func() { time.Sleep(20 * time.Millisecond) }
	CacheToFile("images", "a", strings.NewReader(strings.Repeat("x", 40)))
	pause()
	CacheToFile("images", "b", strings.NewReader(strings.Repeat("x", 40)))
	pause()
	GetFile("images", "a")
	pause()
	CacheToFile("images", "c", strings.NewReader(strings.Repeat("x", 40)))
	if _, ok, _ := GetFile("images", "a"); !ok {
		t.Fatal("the recently used file was evicted")
	}
}
''')

seed("c05-hidden-cache-dir", "C05", "a cache directory whose own name starts with a dot, and a full cache",
     "nothing is ever evicted when the cache directory's name starts with a dot",
     [("util/files.go", '''		if !file.IsDir() {
			if currentLruFile == nil || file.ModTime().Before(currentLruFile.ModTime()) {
''', '''		if file.IsDir() && strings.HasPrefix(file.Name(), ".") {
			// Hidden directories hold no cache entries.
			return filepath.SkipDir
		}
		if !file.IsDir() {
			if currentLruFile == nil || file.ModTime().Before(currentLruFile.ModTime()) {
''')],
     "cache", '''package cache

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

func TestZZDemo(t *testing.T) {
	config.Current.CacheDir = filepath.Join(t.TempDir(), ".wiki2book")
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyLru
	config.Current.CacheMaxSize = 101
	os.MkdirAll(GetTempPath(), 0755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	for _, n := range []string{"a", "b", "c", "d"} {
		if _, err := CacheToFile("images", n, strings.NewReader(strings.Repeat("x", 40))); err != nil {
			t.Fatal(err)
		}
	}
	if _, size := util.CurrentFilesystem.DirSizeInBytes(config.Current.CacheDir); size > 101 {
		t.Fatalf("cache has %d bytes", size)
	}
}
''')

seed("c06-age-overflow", "C06", "a maximum age of more than 292 years, e.g. the largest number to say never",
     "every cached file is outdated at once, everything is downloaded again by every run",
     [("cache/cache.go", """	fileAgeInMinutes := int64(fileAgeDuration.Minutes())
	fileIsOutdated := fileAgeInMinutes > config.Current.CacheMaxAge
""", """	fileIsOutdated := fileAgeDuration > time.Duration(config.Current.CacheMaxAge)*time.Minute
""")],
     "cache", '''package cache

import (
	"math"
	"os"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

func TestZZDemo(t *testing.T) {
	config.Current.CacheDir = t.TempDir()
	config.Current.CacheEvictionStrategy = "none"
	config.Current.CacheMaxAge = math.MaxInt64
	os.MkdirAll(GetTempPath(), 0755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	_, err := CacheToFile("images", "a", strings.NewReader("x"))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok, err := GetFile("images", "a"); !ok || err != nil {
		t.Fatal("new file is not used", err)
	}
}
''')

seed("c07-keep-escapes", "C07", "two names of which one holds the escape sequence of a character of the other (a:b and a%3Ab)",
     "different names share one cache file",
     [("util/files.go", '	filename = strings.ReplaceAll(filename, "%", "%25")\n', '	// Names that are already escaped must not be escaped again.\n	if !IsSanitized(filename) {\n		filename = strings.ReplaceAll(filename, "%", "%25")\n	}\n')],
     "util", '''package util

import "testing"

func TestZZDemo(t *testing.T) {
	if SanitizeFilename("a:b") == SanitizeFilename("a%3Ab") {
		t.Fatal("both names use the same file")
	}
}
''')

seed("c12-term-with-nested-list", "C12", "a definition list whose term line is directly followed by a nested list of another kind and then by a description",
     "the description after a nested list below a term is lost or put into a separate list",
     [("parser/list.go", '''				if !belongsToListPrefix(listLines[j][1:], subListPrefix) {
					break
				}
''', '''				if listLines[j][0] != linePrefix[0] || !belongsToListPrefix(listLines[j][1:], subListPrefix) {
					break
				}
''')],
     "parser", '''package parser

import "testing"

func TestZZDemo(t *testing.T) {
	tok := NewTokenizer(nil)
	tok.parseLists("; term\\n;* one\\n:* two")
	for _, v := range tok.getTokenMap() {
		if d, ok := v.(DescriptionListToken); ok {
			if len(d.Items) != 1 || len(d.Items[0].SubLists) != 1 {
				t.Fatalf("nested list was split: %+v", d)
			}
		}
	}
}
''')
