# Further changes, for the properties about articles (see tools/mkseed.py).

bookseed("c12-three-sublists", "C12", "a list item with at least three lists of different kinds below it",
         "one of the lists below a list item vanishes when there are more than two of them",
         [("parser/list.go", """				previousListItem.SubLists = appendOrCreate(previousListItem.SubLists, subListToken)
""", """				// There are at most two lists, one for each kind
				if len(previousListItem.SubLists) > 1 {
					previousListItem.SubLists = previousListItem.SubLists[:1]
				}
				previousListItem.SubLists = appendOrCreate(previousListItem.SubLists, subListToken)
""")],
         {"A": "* a\n** one\n*# two\n** three\n* b"}, must=["one", "two", "three"])

bookseed("c13-caption-sign", "C13", "the caption of a table that begins with a sign, e.g. a plus",
         "leading characters of a table's caption are lost",
         [("parser/table.go", '	captionLines = strings.TrimPrefix(captionLines, "|+")', '	captionLines = strings.TrimLeft(captionLines, "|+ ")')],
         {"A": "{|\n|+ +5 degrees\n|-\n| cell\n|}"}, must=["+5 degrees"])

bookseed("c15-names-of-groups", "C15", "two groups of references which only differ in case and use the same name",
         "a reference leads to the note of another group",
         [("parser/reference.go", "			nameToRefNumberForCurrentGroup := nameToRefNumber[groupName]", """			// Names are valid independent of the way the group is written
			if nameToRefNumber[strings.ToLower(groupName)] == nil {
				nameToRefNumber[strings.ToLower(groupName)] = map[string]int{}
			}
			nameToRefNumberForCurrentGroup := nameToRefNumber[strings.ToLower(groupName)]""")],
         {"A": "u<ref group=\"N\">one</ref> v<ref group=\"N\" name=\"x\">two</ref> w<ref group=\"n\" name=\"x\">three</ref>\n<references group=\"N\" />\n<references group=\"n\" />"}, must=["w[1]", "[1] three"])

bookseed("c16-second-pipe", "C16", "a link whose text contains a vertical bar", "the text of links ends at the first vertical bar in it",
         [("parser/link.go", "			linkText = strings.Join(wikitextElements[1:], linkDelimiter)", """			linkText = wikitextElements[1]
			if delimiterRequired {
				linkText = strings.Join(wikitextElements[1:], linkDelimiter)
			}""")],
         {"A": "see [[P|absolute value |x| of x]]."}, must=["see absolute value |x| of x."])

seed("c18-formula-comment", "C18", "a formula with a percent sign",
     "formulas are cut off at percent signs, also at escaped ones",
     [("parser/math.go", "			Content: match[1],", "			Content: texCommentRegex.ReplaceAllString(match[1], \"\"),"),
      ("parser/math.go", "import \"strings\"\n", "import (\n\t\"regexp\"\n\t\"strings\"\n)\n\n// texCommentRegex finds comments of TeX, which are not part of the formula.\nvar texCommentRegex = regexp.MustCompile(`%[^\\n]*`)\n")],
     "main", '''package main

import (
	"net/url"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := newDemoWorld(t)
	w.articles["A"] = "x <math>a = 50\\\\% b</math> y"
	w.book("A")
	for _, r := range w.requests {
		if u, err := url.QueryUnescape(r); err == nil && strings.Contains(u, "50\\\\% b") || strings.Contains(r, "50\\\\% b") {
			return
		}
	}
	t.Fatalf("formula not requested: %q", w.requests)
}
''')

seed("c29-same-title", "C29", "two articles with the same title in a book of the internal driver",
     "an article is missing in the book when another one has the same title",
     [("generator/epub.go", """		// TODO Find a way to add subsections to TOC as well
""", """		// Titles have to be unique within the table of contents
		if titles[sectionTitle] {
			continue
		}
		titles[sectionTitle] = true

		// TODO Find a way to add subsections to TOC as well
"""), ("generator/epub.go", "	var fileBytes []byte\n", "	var fileBytes []byte\n	titles := map[string]bool{}\n")],
     "generator", '''package generator

import (
	"archive/zip"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	config.Current = config.NewDefaultConfig()
	config.Current.StyleFile, config.Current.CoverImage, config.Current.FontFiles = "", "", nil
	config.Current.CacheDir = dir
	var files []string
	for i, text := range []string{"first text", "second text", "third text"} {
		f := filepath.Join(dir, []string{"a.html", "b.html", "c.html"}[i])
		os.WriteFile(f, []byte("<html><body><h1>"+[]string{"Same", "Other", "Same"}[i]+"</h1><p>"+text+"</p></body></html>"), 0644)
		files = append(files, f)
	}
	config.Current.OutputType, config.Current.OutputDriver = config.OutputTypeEpub3, config.OutputDriverInternal
	out := filepath.Join(dir, "out.epub")
	// the style and cover of a book are optional only in some versions
	os.WriteFile(filepath.Join(dir, "c.png"), []byte("\\x89PNG\\r\\n\\x1a\\n"), 0644)
	os.WriteFile(filepath.Join(dir, "s.css"), []byte("b {}"), 0644)
	config.Current.CoverImage, config.Current.StyleFile = filepath.Join(dir, "c.png"), filepath.Join(dir, "s.css")
	if err := GenerateEpub(files, out, config.Metadata{Title: "T", Author: "A", Language: "en"}); err != nil {
		t.Fatal(err)
	}
	z, err := zip.OpenReader(out)
	if err != nil {
		t.Fatal(err)
	}
	all := ""
	for _, f := range z.File {
		r, _ := f.Open()
		b, _ := io.ReadAll(r)
		all += string(b)
	}
	for _, text := range []string{"first text", "second text", "third text"} {
		if !strings.Contains(all, text) {
			t.Fatalf("missing %s", text)
		}
	}
}
''')

seed('c17-railway-adjacent', 'C17', "two {{BS-table}} directly behind each other, each with its |}",
     "the search for further railway tables starts one character too late, so the end of the second one stays in the book",
     [('parser/hacks.go', 'content, err = t.hackGermanRailwayTemplates(content, i+slidingWindowSize)', 'content, err = t.hackGermanRailwayTemplates(content, i+slidingWindowSize+1)')],
     'parser', '''package parser

import (
	"strings"
	"testing"
	"wiki2book/wikipedia"
)

func TestZZDemo(t *testing.T) {
	tokenizer := NewTokenizer(wikipedia.NewMockWikipediaService())
	result, err := tokenizer.hackGermanRailwayTemplates("w{{BS-table}}{{BS-table}}a|} b|}v", 0)
	if err != nil || strings.Contains(result, "|}") || strings.Contains(result, "{{") {
		t.Fatal(result, err)
	}
}
''')
seed('c09-instance-segment', 'C09', "a source with a longer host name, as de.m.wikipedia.org",
     "the address of the picture names the third last part of the host instead of the first one",
     [('wikipedia/wikipedia.go', 'wikiInstancePathSegment = strings.SplitN(imageArticleHost, ".", 2)[0]', 'hostSegments := strings.Split(imageArticleHost, ".")\n\t\twikiInstancePathSegment = hostSegments[len(hostSegments)-3]')],
     'wikipedia', '''package wikipedia

import (
	"io"
	nethttp "net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/http"
	"wiki2book/image"
)

func TestZZDemo(t *testing.T) {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = t.TempDir()
	for _, d := range []string{".tmp", "articles", "images"} {
		os.MkdirAll(filepath.Join(config.Current.CacheDir, d), 0755)
	}
	var urls []string
	nethttp.DefaultTransport = transport(func(r *nethttp.Request) (*nethttp.Response, error) {
		urls = append(urls, r.URL.String())
		body := `{"parse":{"title":"File:A.png","wikitext":{"*":"x"}}}`
		return &nethttp.Response{StatusCode: 200, Status: "200 OK", Header: nethttp.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
	})
	svc := NewWikipediaService("de", "wikipedia.org", []string{"de.m.wikipedia.org"}, "upload.wikimedia.org", "https://x.org", image.NewImageProcessingService(), http.NewDefaultHttpService())
	config.Current.CommandTemplateImageProcessing = ""
	if err := svc.DownloadImages([]string{"File:A.png"}); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(strings.Join(urls, " "), "/wikipedia/de/") {
		t.Fatal(urls)
	}
}

type transport func(r *nethttp.Request) (*nethttp.Response, error)

func (f transport) RoundTrip(r *nethttp.Request) (*nethttp.Response, error) { return f(r) }
''')
