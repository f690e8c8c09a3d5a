package main

import (
	"fmt"
	"html"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// pictureBook is a project whose articles hold pictures and formulas.
type pictureBook struct {
	Articles [][]item // pictures of each article
	Convert  string   // set of svg, pdf, webp, image, e.g. "svg,image"
	Math     string
	Cache    string
	Place    string
}

type item struct{ Wiki, File string } // name in the wikitext, actual name; or a formula

// places put a picture into an article.
var places = map[string]string{
	"thumb":     "a [[File:%s|thumb|c]] b",
	"inline":    "a [[File:%s|20px]] b",
	"gallery":   "<gallery>\nFile:%s|c\n</gallery>",
	"list":      "* a [[File:%s|20px]]",
	"table":     "{|\n| [[File:%s|thumb|c]]\n|}",
	"reference": "a<ref>[[File:%s|20px]]</ref> b\n<references />",
	"heading":   "== a [[File:%s|20px]] ==\nb",
	"caption":   "[[File:Outer.png|thumb|a [[File:%s|20px]]]]",
	"bold":      "'''a [[File:%s|20px]]'''",
	"template":  "{{T|[[File:%s|20px]]}}",
	"imagemap":  "<imagemap>\nFile:%s|c\nrect 1 2 3 4 [[B]]\n</imagemap>",
}

var imgSrc = regexp.MustCompile(`<img[^>]*src="([^"]*)"`)

// readPicture resolves a reference of the HTML file the way pandoc does.
func readPicture(dir, ref string) string {
	ref = html.UnescapeString(ref)
	u, err := url.Parse(ref)
	if err != nil || u.Scheme != "" || u.Host != "" || u.RawQuery != "" || u.Fragment != "" || strings.Contains(ref, "?") || strings.Contains(ref, "#") {
		return "REFERENCE " + ref
	}
	b, err := os.ReadFile(filepath.Join(dir, u.Path))
	if err != nil {
		return "MISSING " + ref
	}
	return string(b)
}

func (p pictureBook) do(dir string) (out vlib.Outcome) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	w := newWorld(dir)
	w.cache = filepath.Join(dir, p.Cache)
	w.cfg["cache-dir"] = w.cache
	w.cfg["math-converter"] = p.Math
	w.cfg["worker-threads"] = 1
	w.cfg["ignored-media-types"] = []string{"gif", "ogg"}
	has := func(s string) bool { return strings.Contains(","+p.Convert+",", ","+s+",") }
	set := func(entry, kind string, on bool) {
		w.cfg["command-template-"+entry] = ""
		if on {
			w.cfg["command-template-"+entry] = "tool " + kind + " {INPUT} {OUTPUT}"
		}
	}
	set("svg-to-png", "svg", has("svg"))
	set("pdf-to-png", "pdf", has("pdf"))
	set("webp-to-png", "webp", has("webp"))
	set("image-processing", "image", has("image"))
	set("math-svg-to-png", "math", true)
	w.extra = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{"tool": func(name, wd string, args []string, o, e io.Writer) error {
		b, err := os.ReadFile(args[1])
		if err != nil {
			return err
		}
		return os.WriteFile(args[2], []byte(args[0]+"("+string(b)+")"), 0644)
	}}
	w.web.Expand = func(s string) string {
		return strings.TrimSuffix(strings.TrimPrefix(s, "{{T|"), "}}")
	}
	var titles []string
	var want [][]string
	for i, a := range p.Articles {
		title := fmt.Sprint("A", i)
		titles = append(titles, title)
		var parts []string
		var wants []string
		for _, x := range a {
			if x.File == "" {
				parts = append(parts, "x <math>"+x.Wiki+"</math> y")
				id := vlib.MathID("{\\displaystyle " + x.Wiki + "}")
				svg := vlib.MathSvg(id)
				wants = append(wants, map[string]string{"none": svg, "template": "math(" + svg + ")", "wikimedia": "PNG:" + id}[p.Math])
				continue
			}
			if p.Place == "caption" {
				wants = append(wants, processed("Outer.png", has))
			}
			parts = append(parts, fmt.Sprintf(places[p.Place], x.Wiki))
			wants = append(wants, processed(x.File, has))
		}
		w.web.Articles["*|"+title] = strings.Join(parts, "\n\n")
		want = append(want, wants)
	}
	r := w.run(nil, dir, "project", w.writeProject(map[string]any{"articles": titles, "output-file": "b.epub"}), "-c", w.writeConfig())
	if r.message != "" || len(w.pandoc) != 1 || len(w.pandoc[0].Content) != len(titles) {
		out.Bad = fmt.Sprintf("no book: %s", r.message)
		return
	}
	c := w.pandoc[0]
	for i, text := range c.Content {
		var got []string
		for _, m := range imgSrc.FindAllStringSubmatch(text, -1) {
			got = append(got, readPicture(c.Dir, m[1]))
		}
		out.Observed += fmt.Sprint(got)
		if strings.Join(got, "\n") != strings.Join(want[i], "\n") && out.Bad == "" {
			out.Bad = fmt.Sprintf("pictures of article %d are %q, must be %q", i, got, want[i])
		}
	}
	out.Bad = strings.ReplaceAll(out.Bad, dir, "DIR")
	return
}

// processed is the content of a picture in the book.
func processed(file string, has func(string) bool) string {
	x := string(vlib.ImageBytes(file))
	ext := strings.ToLower(strings.TrimPrefix(filepath.Ext(file), "."))
	isPng := ext != "svg" && ext != "pdf"
	if has(ext) && (ext == "svg" || ext == "pdf" || ext == "webp") {
		x = ext + "(" + x + ")"
		isPng = true
	}
	if has("image") && isPng {
		x = "image(" + x + ")"
	}
	return x
}

func checkC10() *vlib.Check {
	return &vlib.Check{ID: "C10", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "each picture and formula in the HTML given to pandoc refers to an existing file with the content of this picture, converted and processed as configured, whatever its name",
		Bounds:      map[string]string{"quick": "all names of up to 3 of 24 characters x 2 types, 14 types x 16 conversions x 3 math converters x 3 cache directories, 11 places x 42 names, all pairs of 42 names similar to each other in one and in two articles; all pairs of 57 formulas similar to each other x 3 math converters, in one and in two articles", "thorough": "names of up to 4 characters"},
		Assumptions: []string{"names without characters MediaWiki forbids in titles, without two apostrophes in a row"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			one := func(p pictureBook) bool {
				return c.Do(jsonOf(p), func() vlib.Outcome { return p.do(dir) })
			}
			actual := func(n string) string {
				n = strings.Trim(strings.ReplaceAll(n, " ", "_"), "_")
				r := []rune(n)
				return strings.ToUpper(string(r[0])) + string(r[1:])
			}
			it := func(n string) item { return item{n, actual(n)} }
			// Types and configurations.
			exts := []string{"png", "PNG", "jpg", "JPG", "jpeg", "svg", "SVG", "Svg", "pdf", "PDF", "webp", "WEBP", "tif", "xcf"}
			for set := 0; set < 16; set++ {
				var s []string
				for i, k := range []string{"svg", "pdf", "webp", "image"} {
					if set>>i&1 == 1 {
						s = append(s, k)
					}
				}
				conv := strings.Join(s, ",")
				for _, math := range []string{"none", "wikimedia", "template"} {
					for _, cache := range []string{"cache", "ca che", "c/a/é"} {
						for _, e := range exts {
							if one(pictureBook{[][]item{{it("P." + e), {"x", ""}, it("Q r." + e), it("Q." + e + ".png")}}, conv, math, cache, "thumb"}) {
								return
							}
							for _, e2 := range exts {
								if cache == "cache" && one(pictureBook{[][]item{{it("P." + e), it("P." + e2)}, {it("P." + e2), {"x", ""}}}, conv, math, cache, "inline"}) {
									return
								}
							}
						}
					}
				}
			}
			// Names in all places.
			names := []string{"P", "P q", "P_q", "p", "Pq", "PQ", "pq", "pQ", "É Q", "é", "É", "ß", "日本", "P'q", "P\"q", "P%q", "P%20q", "P%2Fq", "P?q", "P?", "P&q", "P&amp;q", "P=q", "P+q", "P;q", "P,q", "P(q)", "P!", "P$q", "P@q", "P~q", "P*q", "P\\q", "P/q", "P^q", "P.q", "..P", "-P", "P`q", "1", "$1", "P–q", "P\u00a0q", "Pe\u0301"}
			ok := func(n string) bool {
				return !strings.Contains(n, "%20") // a blank in this notation
			}
			for _, place := range []string{"thumb", "inline", "gallery", "list", "table", "reference", "heading", "caption", "bold", "template", "imagemap"} {
				for _, n := range names {
					for _, conv := range []string{"", "svg,pdf,webp,image"} {
						for _, e := range []string{"png", "svg"} {
							if ok(n) && one(pictureBook{[][]item{{it(n + "." + e)}}, conv, "none", "cache", place}) {
								return
							}
						}
					}
				}
			}
			// Several names.
			for _, a := range names {
				for _, b := range names {
					if !ok(a) || !ok(b) {
						continue
					}
					for _, place := range []string{"thumb", "inline"} {
						if one(pictureBook{[][]item{{it(a + ".png"), it(b + ".png")}}, "image", "none", "cache", place}) ||
							one(pictureBook{[][]item{{it(a + ".svg")}, {it(b + ".svg")}}, "svg", "none", "cache", place}) {
							return
						}
					}
				}
			}
			// Formulas.
			long := strings.Repeat("a+b ", 100)
			var formulas []string
			for _, n := range []int{1, 20, 40, 47, 48, 49, 50, 51, 52, 63, 64, 100, 128, 255, 256, 300, 400} {
				formulas = append(formulas, long[:n]+"x", long[:n]+"y")
			}
			formulas = append(formulas, "x", "X", "x y", "xy", "x  y", "x+y", "x%2By", "x&y", "x;y", "x=y", "\\alpha", "\\Alpha", "é", "x_y", "x/y", "x\ny", "1"+long, "2"+long, "1"+long+"1", "{x}", "q", "x'", "x''")
			for _, x := range formulas {
				for _, y := range formulas {
					for _, conv := range []string{"none", "wikimedia", "template"} {
						if one(pictureBook{[][]item{{{x, ""}, {y, ""}}}, "", conv, "cache", "thumb"}) || x != y && conv == "none" && one(pictureBook{[][]item{{{x, ""}}, {{y, ""}, {x, ""}}}, "", conv, "cache", "thumb"}) {
							return
						}
					}
				}
			}
			// All short names.
			alpha := []rune(" _ab%2F?&='\"+;,.!$@~*\\/é")
			n := 3
			if c.Thorough() {
				n = 4
			}
			stop := false
			var rec func(s string)
			rec = func(s string) {
				if stop {
					return
				}
				if s != "" && strings.Trim(s, " _") == s && !strings.Contains(s, "''") && !strings.Contains(s, "//") && !strings.Contains(s, "  ") && !strings.Contains(s, "__") && !strings.Contains(s, " _") && !strings.Contains(s, "_ ") {
					for _, e := range []string{"png", "svg"} {
						if stop = one(pictureBook{[][]item{{it(s + "." + e)}}, "svg", "none", "cache", "thumb"}); stop {
							return
						}
					}
				}
				if len([]rune(s)) < n {
					for _, r := range alpha {
						rec(s + string(r))
					}
				}
			}
			rec("")
		}}
}
