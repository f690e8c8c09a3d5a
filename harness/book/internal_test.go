package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// internalBook is a run with the internal driver.
type internalBook struct {
	Mode     string
	Articles []string
	Cover    string
	Style    bool
	Fonts    []string
	Metadata map[string]string
	Cwd      string
	Output   string // entry of an already existing output file
	Many     int    // so many further articles
}

// internalArticles are the articles of internal books, by title.
var internalArticles = map[string]string{
	"A":     "Text of A\n\n== H ==\nmore [[B|text]].",
	"B":     "[[File:p.png|thumb|c]] text [[File:p.png|20px]] text [[File:p.png|20px]] [[File:q.jpg|thumb|c]]",
	"C":     "* [[File:p.png|20px]]\n* [[File:Ä b+c 100%.png|20px]] & [[File:q.JPG|20px]]\n{|\n| [[File:x&y.svg|thumb]]\n|}",
	"D & E": "= First =\ntext <math>a_b</math> and <math>c</math>\n= Second =\ntext",
	"Ö (x)": "'''text'''<ref>x</ref> <nowiki><h1>no</h1></nowiki>\n<references />",
	"F's":   "text $1 ${name} %s \\1 text",
}

type packageFile struct {
	Title    []string `xml:"metadata>title"`
	Creator  []string `xml:"metadata>creator"`
	Language []string `xml:"metadata>language"`
	Items    []struct {
		ID         string `xml:"id,attr"`
		Href       string `xml:"href,attr"`
		Type       string `xml:"media-type,attr"`
		Properties string `xml:"properties,attr"`
	} `xml:"manifest>item"`
	Spine []struct {
		Ref string `xml:"idref,attr"`
	} `xml:"spine>itemref"`
}

// epub is what is in a book.
type epub struct {
	files    map[string]string
	pkg      packageFile
	cover    string   // content of the cover image
	styles   []string // contents
	fonts    []string
	sections []string // bodies without the page of the cover, references to pictures replaced by the content
	titles   []string // entries of the table of contents
}

var sourceAttr = regexp.MustCompile(`(<img [^>]*src=")([^"]*)"`)
var tocEntry = regexp.MustCompile(`(?s)<a href="([^"]*)"[^>]*>(.*?)</a>`)

func readEpub(file string) (e epub, problem string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return e, "no book"
	}
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return e, "not a book: " + err.Error()
	}
	e.files = map[string]string{}
	for i, f := range z.File {
		if i == 0 && f.Name != "mimetype" {
			return e, "the type is not the first file but " + f.Name
		}
		r, err := f.Open()
		if err != nil {
			return e, err.Error()
		}
		x, err := io.ReadAll(r)
		if _, ok := e.files[f.Name]; ok || err != nil {
			return e, fmt.Sprintf("file %s twice or not readable (%v)", f.Name, err)
		}
		e.files[f.Name] = string(x)
	}
	var container struct {
		Root []struct {
			Path string `xml:"full-path,attr"`
		} `xml:"rootfiles>rootfile"`
	}
	if err := xml.Unmarshal([]byte(e.files["META-INF/container.xml"]), &container); err != nil || len(container.Root) != 1 {
		return e, "bad container file"
	}
	opf := container.Root[0].Path
	if err := xml.Unmarshal([]byte(e.files[opf]), &e.pkg); err != nil {
		return e, "bad package file: " + err.Error()
	}
	resolve := func(from, ref string) (string, bool) {
		p, err := url.PathUnescape(html.UnescapeString(ref))
		x, ok := e.files[path.Join(path.Dir(from), p)]
		return x, ok && err == nil
	}
	byID := map[string]string{}
	cover := ""
	for _, it := range e.pkg.Items {
		x, ok := resolve(opf, it.Href)
		if _, dup := byID[it.ID]; dup || !ok {
			return e, fmt.Sprintf("item %s twice or missing", it.Href)
		}
		byID[it.ID] = path.Join(path.Dir(opf), it.Href)
		switch {
		case strings.Contains(it.Properties, "cover-image"):
			e.cover = x
			cover = path.Base(it.Href)
		case it.Type == "text/css":
			e.styles = append(e.styles, x)
		case strings.Contains(it.Properties, "nav"):
			for _, m := range tocEntry.FindAllStringSubmatch(x, -1) {
				if _, ok := resolve(byID[it.ID], m[1]); ok && !strings.Contains(x[:strings.Index(x, m[0])], `epub:type="landmarks"`) {
					e.titles = append(e.titles, html.UnescapeString(m[2]))
				}
			}
		case strings.HasPrefix(it.Href, "fonts/"):
			e.fonts = append(e.fonts, x)
		}
	}
	known := map[string]bool{opf: true, "mimetype": true, "META-INF/container.xml": true}
	for _, p := range byID {
		q, _ := url.PathUnescape(p)
		known[q] = true
	}
	for f := range e.files {
		if !known[f] && !strings.HasSuffix(f, "/") {
			return e, "file not listed: " + f
		}
	}
	for _, s := range e.pkg.Spine {
		x, ok := e.files[byID[s.Ref]]
		if !ok {
			return e, "missing part " + s.Ref
		}
		if i := strings.Index(x, "<body"); i >= 0 {
			x = x[i:]
			x = x[strings.Index(x, ">")+1:]
		}
		x = strings.TrimSpace(x[:max(strings.LastIndex(x, "</body>"), 0)])
		missing := ""
		text := sourceAttr.ReplaceAllStringFunc(x, func(tag string) string {
			m := sourceAttr.FindStringSubmatch(tag)
			y, ok := resolve(byID[s.Ref], m[2])
			if !ok {
				missing = m[2]
			}
			return m[1] + "[" + y + "]\""
		})
		if missing != "" {
			return e, "missing picture " + missing
		}
		if cover != "" && len(e.sections) == 0 && s.Ref == e.pkg.Spine[0].Ref && strings.Contains(x, cover) {
			continue
		}
		e.sections = append(e.sections, text)
	}
	return e, ""
}

func (t internalBook) do(dir string) (out vlib.Outcome) {
	out.Bad = t.run(dir, &out)
	out.Bad = strings.ReplaceAll(out.Bad, dir, "DIR")
	return
}

func (t internalBook) run(dir string, out *vlib.Outcome) string {
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, t.Cwd), 0755)
	w := newWorld(dir)
	w.web.Expand = func(string) string { return "x" }
	w.cfg["command-template-image-processing"], w.cfg["command-template-svg-to-png"] = "", ""
	w.cfg["style-file"], w.cfg["worker-threads"] = "", 1
	files := map[string]string{"c.png": "\x89PNG\r\n\x1a\ncover", "c.JPG": "\xff\xd8\xffcover", "s.css": "b { color: red }", "f.ttf": "\x00\x01\x00\x00font f", "x/f.ttf": "\x00\x01\x00\x00font x", "g h.otf": "OTTOfont g"}
	for k, v := range files {
		put(filepath.Join(dir, "in", k), v)
	}
	if t.Style {
		w.cfg["style-file"] = filepath.Join(dir, "in", "s.css")
	}
	if t.Cover != "" {
		w.cfg["cover-image"] = filepath.Join(dir, "in", t.Cover)
	}
	var fonts, wantFonts []string
	for _, f := range t.Fonts {
		fonts = append(fonts, filepath.Join(dir, "in", f))
		wantFonts = append(wantFonts, files[f])
	}
	if fonts != nil {
		w.cfg["font-files"] = fonts
	}
	book := filepath.Join(dir, "out", "b.epub")
	put(filepath.Join(dir, "out", "x"), "x")
	texts := map[string]string{}
	for i := 0; i < t.Many; i++ {
		title := fmt.Sprintf("Article %d", (i*7)%t.Many)
		t.Articles = append(t.Articles[:len(t.Articles):len(t.Articles)], title)
		texts[title] = fmt.Sprintf("text %d [[File:p.png|20px]]\n\n[[File:n%d.png|thumb|c]]\n\n%s", i, i, strings.Repeat("word ", i*i))
	}
	for title, text := range internalArticles {
		texts[title] = text
	}
	for title, text := range texts {
		w.web.Articles["*|"+strings.ReplaceAll(title, " ", "_")] = text
		put(filepath.Join(dir, t.Cwd, title+".mediawiki"), text)
	}
	args := []string{t.Mode, t.Articles[0], "-o", book}
	switch t.Mode {
	case "standalone":
		args[1] += ".mediawiki"
	case "project":
		args[1] = w.writeProject(map[string]any{"articles": t.Articles, "metadata": t.Metadata})
	}
	w.cfg["output-type"], w.cfg["output-driver"] = "epub3", "pandoc"
	args = append(args, "-c", w.writeConfig())
	if r := w.run(nil, filepath.Join(dir, t.Cwd), args...); r.message != "" || len(w.pandoc) != 1 {
		return "no book with pandoc: " + r.message
	}
	ref := w.pandoc[0]
	os.Remove(book)
	if t.Output != "" {
		put(book, t.Output)
	}
	w.cfg["output-driver"] = "internal"
	w.writeConfig()
	if r := w.run(nil, filepath.Join(dir, t.Cwd), args...); r.message != "" {
		return "no book with the internal driver: " + r.message
	}
	if len(w.pandoc) != 1 {
		return "pandoc has been used"
	}
	e, problem := readEpub(book)
	if problem != "" {
		return problem
	}
	out.Observed = fmt.Sprintf("%q %q", e.titles, e.sections)
	var styles []string
	for _, s := range e.styles {
		if t.Cover == "" || s == files["s.css"] { // the page of the cover has its own style
			styles = append(styles, s)
		}
	}
	wantStyles := []string(nil)
	if t.Style {
		wantStyles = []string{files["s.css"]}
	}
	meta := func(name string) string { return strings.TrimSpace(t.Metadata[name]) }
	one := func(xs []string) string { return strings.TrimSpace(strings.Join(xs, "|")) }
	if t.Cover != "" && e.cover != files[t.Cover] || t.Cover == "" && e.cover != "" {
		return fmt.Sprintf("cover is %q, must be %q", e.cover, files[t.Cover])
	}
	if fmt.Sprintf("%q", styles) != fmt.Sprintf("%q", wantStyles) {
		return fmt.Sprintf("styles are %q, must be %q", styles, wantStyles)
	}
	if fmt.Sprintf("%q", sorted(e.fonts)) != fmt.Sprintf("%q", sorted(wantFonts)) {
		return fmt.Sprintf("fonts are %q, must be %q", e.fonts, wantFonts)
	}
	if len(e.sections) != len(t.Articles) || len(ref.Content) != len(t.Articles) {
		return fmt.Sprintf("%d chapters for %d articles", len(e.sections), len(t.Articles))
	}
	for i, title := range t.Articles {
		want := sourceAttr.ReplaceAllStringFunc(ref.Content[i], func(tag string) string {
			m := sourceAttr.FindStringSubmatch(tag)
			return m[1] + "[" + readPicture(ref.Dir, m[2]) + "]\""
		})
		if strings.Contains(want, "[MISSING") || strings.Contains(want, "[REFERENCE") {
			return "missing picture with pandoc: " + want
		}
		if !strings.Contains(e.sections[i], strings.TrimSpace(vlib.BodyOf(want))) {
			return fmt.Sprintf("chapter %d is %q, must contain %q", i, e.sections[i], vlib.BodyOf(want))
		}
		if strings.Count(e.sections[i], "<h1>"+title+"</h1>") != 1 {
			return fmt.Sprintf("chapter %d is not the article %q: %q", i, title, e.sections[i])
		}
	}
	if fmt.Sprintf("%q", e.titles) != fmt.Sprintf("%q", t.Articles) {
		return fmt.Sprintf("the table of contents has %q, must have %q", e.titles, t.Articles)
	}
	if t.Mode == "project" {
		for _, x := range [][2]string{{one(e.pkg.Title), meta("title")}, {one(e.pkg.Creator), meta("author")}, {one(e.pkg.Language), meta("language")}} {
			if x[0] != x[1] {
				return fmt.Sprintf("metadata %q, must be %q", x[0], x[1])
			}
		}
	}
	if left, _ := filepath.Glob(filepath.Join(dir, "out", "*")); len(left) != 2 {
		return fmt.Sprintf("files next to the book: %q", left)
	}
	return ""
}

func sorted(xs []string) []string {
	out := append([]string{}, xs...)
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func checkC29() *vlib.Check {
	return &vlib.Check{ID: "C29", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "the book of the internal driver is a readable EPUB whose chapters are exactly the articles in order with the content (and pictures) which pandoc gets, listed by their titles in the table of contents, with the given cover, style, fonts, title, author and language",
		Bounds:      map[string]string{"quick": "all lists of up to 3 of 6 articles with every combination of 3 covers, style or none, 5 sets of fonts; 6 metadata; 3 modes; 2 working directories; existing and new output file; books of up to 122 articles", "thorough": "all lists of up to 4 of 6 articles"},
		Assumptions: []string{"the HTML which pandoc gets is right (C19, C20, C10)", "what readers make of HTML within the EPUB is not considered"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			one := func(t internalBook) bool {
				return c.Do(jsonOf(t), func() vlib.Outcome { return t.do(dir) })
			}
			titles := []string{"A", "B", "C", "D & E", "Ö (x)", "F's"}
			covers := []string{"", "c.png", "c.JPG"}
			fontSets := [][]string{nil, {"f.ttf"}, {"f.ttf", "g h.otf"}, {"f.ttf", "x/f.ttf"}, {"x/f.ttf", "g h.otf", "f.ttf"}}
			metas := []map[string]string{{"title": "T", "author": "Au", "language": "de"}, {"title": "T & <t> \"ä\"", "author": "X, Y & Z", "language": "en-GB"}, {"title": "漢 'x' "}, {"author": "only"}, {"title": "A", "license": "L", "date": "2020-01-02", "language": "fr", "author": "'"}, {}}
			cwds := []string{".", "sub dir"}
			for _, mode := range []string{"article", "standalone"} {
				for _, a := range titles {
					for _, cover := range covers {
						for _, style := range []bool{false, true} {
							for _, cwd := range cwds {
								if one(internalBook{Mode: mode, Articles: []string{a}, Cover: cover, Style: style, Cwd: cwd, Output: "OLD"}) {
									return
								}
							}
						}
					}
				}
			}
			for _, n := range []int{9, 10, 11, 30, 120} {
				for _, cover := range covers[:2] {
					if one(internalBook{Mode: "project", Articles: titles[:2], Cover: cover, Metadata: metas[0], Cwd: ".", Many: n}) {
						return
					}
				}
			}
			for _, m := range metas {
				for _, cover := range covers {
					if one(internalBook{Mode: "project", Articles: titles[:2], Cover: cover, Metadata: m, Cwd: "."}) {
						return
					}
				}
			}
			var rec func(n, k int, list []string) bool
			rec = func(n, k int, list []string) bool {
				for i, cover := range covers {
					for j, fonts := range fontSets {
						for _, style := range []bool{false, true} {
							if len(list) > 3 && (i+j)%3 > 0 || len(list) == 0 {
								continue
							}
							if one(internalBook{Mode: "project", Articles: list, Cover: cover, Style: style, Fonts: fonts, Metadata: metas[len(list)%2], Cwd: cwds[len(list)%2]}) {
								return true
							}
						}
					}
				}
				if n == 0 {
					return false
				}
				for _, t := range titles[:k] {
					if rec(n-1, k, append(list[:len(list):len(list)], t)) {
						return true
					}
				}
				return false
			}
			rec(c.Pick(3, 4), 6, nil)
		}}
}
