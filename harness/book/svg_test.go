package main

import (
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// drawing is an SVG picture.
type drawing struct {
	Before  string // before the root element
	Attrs   []string
	Quote   string
	W, H, V string // "-" = missing
	Body    string
	Type    string // svg, SVG
	Setting bool
	Convert bool
}

func (d drawing) write(w, h string) string {
	s := d.Before + "<svg"
	for _, a := range d.Attrs {
		v := ""
		switch a {
		case "w":
			a, v = "width", w
		case "h":
			a, v = "height", h
		case "v":
			a, v = "viewBox", d.V
		default:
			s += " " + a
			continue
		}
		if v != "-" {
			s += " " + a + strings.ReplaceAll(d.Quote, "X", v)
		}
	}
	return s + d.Body
}

var viewBoxNumbers = regexp.MustCompile(`^\s*(-?[\d.]+)[\s,]+(-?[\d.]+)[\s,]+([\d.]+)[\s,]+([\d.]+)\s*$`)

// want is the document the book is to hold.
func (d drawing) want() string {
	m := viewBoxNumbers.FindStringSubmatch(d.V)
	if !d.Setting || m == nil || !strings.HasSuffix(d.W, "%") && !strings.HasSuffix(d.H, "%") {
		return d.write(d.W, d.H)
	}
	w, h := d.W, d.H
	if w != "-" {
		w = m[3] + "pt"
	}
	if h != "-" {
		h = m[4] + "pt"
	}
	return d.write(w, h)
}

// sameSvg compares documents apart from the notation of the root element.
func sameSvg(a, b string) bool {
	if a == b {
		return true
	}
	parse := func(s string) (map[string]string, string, string) {
		d := xml.NewDecoder(strings.NewReader(s))
		d.Strict = false
		for {
			start := d.InputOffset()
			t, err := d.Token()
			if err != nil {
				return nil, s, ""
			}
			if e, ok := t.(xml.StartElement); ok {
				m := map[string]string{"name": e.Name.Local}
				for _, x := range e.Attr {
					m[x.Name.Space+":"+x.Name.Local] = x.Value
				}
				return m, s[:start], s[d.InputOffset():]
			}
		}
	}
	m1, p1, r1 := parse(a)
	m2, p2, r2 := parse(b)
	return fmt.Sprint(m1) == fmt.Sprint(m2) && p1 == p2 && r1 == r2
}

func (d drawing) do(dir string) (out vlib.Outcome) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	w := newWorld(dir)
	w.cfg["worker-threads"] = 1
	w.cfg["svg-size-to-viewbox"] = d.Setting
	w.cfg["command-template-svg-to-png"] = ""
	w.cfg["command-template-image-processing"] = ""
	if d.Convert {
		w.cfg["command-template-svg-to-png"] = "tool {INPUT} {OUTPUT}"
	}
	name := "P." + d.Type
	w.web.Images = map[string][]byte{name: []byte(d.write(d.W, d.H))}
	w.web.Articles["*|File:"+name] = "x"
	w.web.Articles["*|A"] = "[[File:" + name + "|thumb|c]]"
	w.extra = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{"tool": func(name, wd string, args []string, o, e io.Writer) error {
		b, err := os.ReadFile(args[0])
		if err != nil {
			return err
		}
		return os.WriteFile(args[1], append([]byte("CONVERTED"), b...), 0644)
	}}
	p := w.run(nil, dir, "article", "A", "-c", w.writeConfig(), "-o", filepath.Join(dir, "b.epub"))
	if p.message != "" || len(w.pandoc) != 1 {
		out.Bad = "no book: " + p.message
		return
	}
	var got string
	for _, x := range w.pandoc[0].Pictures {
		got = x
	}
	out.Observed = got
	if d.Convert {
		var ok bool
		if got, ok = strings.CutPrefix(got, "CONVERTED"); !ok {
			out.Bad = "not converted: " + got
			return
		}
	}
	if !sameSvg(got, d.want()) {
		out.Bad = fmt.Sprintf("the picture is %q, must be %q", got, d.want())
	}
	return
}

// formulaSvg is the drawing of a formula.
type formulaSvg struct {
	Before, Attrs string
	W, H, S       string
	Math          string
}

var formulaImg = regexp.MustCompile(`<img[^>]*>`)
var attribute = regexp.MustCompile(`([a-z]+)="([^"]*)"`)

func (f formulaSvg) do(dir string) (out vlib.Outcome) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	w := newWorld(dir)
	w.cfg["worker-threads"] = 1
	w.cfg["math-converter"] = f.Math
	w.cfg["command-template-math-svg-to-png"] = "tool {INPUT} {OUTPUT}"
	w.extra = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{"tool": func(name, wd string, args []string, o, e io.Writer) error {
		return os.WriteFile(args[1], []byte("PNG"), 0644)
	}}
	svg := f.Before + "<svg" + f.Attrs
	for _, x := range [][2]string{{"width", f.W}, {"height", f.H}, {"style", f.S}} {
		if x[1] != "-" {
			svg += " " + x[0] + `="` + x[1] + `"`
		}
	}
	svg += ` viewBox="0 0 1 2"><g width="7ex" style="x"/></svg>`
	w.web.Hook = func(r *http.Request, body string) (*http.Response, error, bool) {
		if strings.Contains(r.URL.Path, "/render/svg/") {
			return vlib.Response(r, 200, nil, strings.NewReader(svg)), nil, true
		}
		return nil, nil, false
	}
	w.web.Articles["*|A"] = "a <math>x</math> b"
	p := w.run(nil, dir, "article", "A", "-c", w.writeConfig(), "-o", filepath.Join(dir, "b.epub"))
	if p.message != "" || len(w.pandoc) != 1 {
		out.Bad = "no book: " + p.message
		return
	}
	imgs := formulaImg.FindAllString(w.pandoc[0].Content[0], -1)
	if len(imgs) != 1 {
		out.Bad = fmt.Sprintf("pictures %q", imgs)
		return
	}
	out.Observed = imgs[0]
	style := ""
	for _, m := range attribute.FindAllStringSubmatch(imgs[0], -1) {
		if m[1] == "style" {
			style = html.UnescapeString(m[2])
		}
	}
	decl := func(s string) map[string]string {
		m := map[string]string{}
		for _, d := range strings.Split(s, ";") {
			if k, v, ok := strings.Cut(d, ":"); ok && strings.TrimSpace(v) != "" {
				m[strings.TrimSpace(k)] = strings.TrimSpace(v)
			}
		}
		return m
	}
	want := decl(strings.Trim(f.S, "-"))
	if f.W != "-" {
		want["width"] = f.W
	}
	if f.H != "-" {
		want["height"] = f.H
	}
	if got := decl(style); fmt.Sprint(got) != fmt.Sprint(want) {
		out.Bad = fmt.Sprintf("style of the formula is %v, must be %v", got, want)
	}
	return
}

func checkC28() *vlib.Check {
	return &vlib.Check{ID: "C28", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 40,
		Rule:        "with svg-size-to-viewbox a drawing with a relative size gets the size of its viewBox and stays the same otherwise, all others stay byte for byte; formulas are shown in the size and alignment of their drawing",
		Bounds:      map[string]string{"quick": "6 widths x 6 heights x 13 viewBoxes x 6 beginnings x 13 orders of attributes x 4 notations, with setting, type and conversion; 7 widths x 7 heights x 6 styles x 6 beginnings x 3 converters of formulas", "thorough": "same"},
		Assumptions: []string{"missing width and height attributes stay missing"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "run")
			sizes := []string{"-", "100%", "50%", "10", "10.5mm", "2em"}
			boxes := []string{"-", "0 0 12 34", "0,0,12,34", "0, 0, 12, 34", "0  0  12  34", " 0 0 12 34 ", "0 0 12.5 34.25", "-5 -5.5 12 34", "0\n0\n12\n34", "0 0, 12 34", "", "0 0 12", "none"}
			befores := []string{"", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n", "<!-- width=\"100%\" height=\"50%\" viewBox=\"0 0 98 99\" <svg width=\"100%\"> -->\n",
				"<?xml version=\"1.0\"?>\n<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n",
				"<?xml version=\"1.0\" encoding=\"iso-8859-1\"?>\n<!-- Generator: x -->\n<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.0//EN\" \"http://www.w3.org/TR/2001/REC-SVG-20010904/DTD/svg10.dtd\" [\n\t<!ENTITY ns_svg \"http://www.w3.org/2000/svg\">\n\t<!ENTITY ns_xlink \"http://www.w3.org/1999/xlink\">\n]>\n", "\ufeff"}
			ns := `xmlns="http://www.w3.org/2000/svg"`
			orders := [][]string{{"w", "h", "v"}, {"v", "h", "w"}, {ns, "h", "w", "v"}, {"stroke-width=\"100%\"", "w", "h", "v"}, {"stroke-width=\"50%\"", "data-viewBox=\"0 0 5 6\"", "line-height=\"100%\"", "w", "h", "v"},
				{"title='width=\"100%\"'", "w", "v", "h"}, {"title='a width=\"100%\" b'", "w", "v", "h"}, {"style=\"width:100%\"", "h", "w", "v"}, {ns, "v", "w", "h", "xmlns:xlink=\"http://www.w3.org/1999/xlink\""}, {"\n", "w", "\n", "h", "\n", "v"}, {"id=\"a>b\"", "w", "h", "v"},
				{"xmlns=\"&ns_svg;\"", "w", "h", "v", "xmlns:xlink=\"&ns_xlink;\""}, {"xmlns:xlink=\"&ns_xlink;\"", "v", "\n", "xmlns=\"&ns_svg;\"", "h", "w"}}
			quotes := []string{`="X"`, `='X'`, ` = "X"`, "=\n\"X\""}
			bodies := []string{">\n <rect width=\"100%\" height=\"50%\" x=\"viewBox\"/><svg width=\"100%\" height=\"100%\" viewBox=\"0 0 1 2\"/>\n</svg>\n", "/>"}
			one := func(d drawing) bool {
				return c.Do(jsonOf(d), func() vlib.Outcome { return d.do(dir) })
			}
			for _, w := range sizes {
				for _, h := range sizes {
					for _, v := range boxes {
						for _, b := range befores {
							for _, o := range orders {
								for i, q := range quotes {
									body := bodies[i%2]
									if one(drawing{b, o, q, w, h, v, body, "svg", true, false}) {
										return
									}
								}
							}
							for _, typ := range []string{"svg", "SVG"} {
								for _, set := range []bool{false, true} {
									if one(drawing{b, orders[2], quotes[0], w, h, v, bodies[0], typ, set, true}) ||
										one(drawing{b, orders[2], quotes[0], w, h, v, bodies[0], typ, set, false}) {
										return
									}
								}
							}
						}
					}
				}
			}
			for _, w := range []string{"-", "2ex", "16.156ex", "1.5em", "20px", "100%", "3"} {
				for _, h := range []string{"-", "2ex", "16.156ex", "1.5em", "20px", "100%", "3"} {
					for _, s := range []string{"-", "", "vertical-align: -4.005ex;", "vertical-align:-1ex", "vertical-align: -1ex; margin: 2px 3px;", "color: red"} {
						for _, b := range befores {
							for _, m := range []string{"none", "wikimedia", "template"} {
								for _, a := range []string{" " + ns, " role=\"img\" focusable=\"false\""} {
									f := formulaSvg{b, a, w, h, s, m}
									if c.Do("formula "+jsonOf(f), func() vlib.Outcome { return f.do(dir) }) {
										return
									}
								}
							}
						}
					}
				}
			}
		}}
}
