package main

import (
	"fmt"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// option is one option of a picture.
type option struct {
	wiki    string
	kind    byte // 't'humb, 's'ize, 'i'gnored, 'c'aption
	caption inl
	x, y    int
}

// picture is the model of what a picture with these options becomes.
func picture(name string, opts []option, forceThumb bool) (inl, bool) {
	thumb, x, y, sizes, cap := forceThumb, -1, -1, 0, -1
	for i, o := range opts {
		switch o.kind {
		case 't':
			thumb = true
		case 's':
			x, y = o.x, o.y
			sizes++
		case 'c':
			cap = i // of several, the last one counts
		}
	}
	return inl{name, func(e *env) (string, nodes) {
		s, formulas := name, len(e.math)
		var capNodes nodes
		for i, o := range opts {
			w := o.wiki
			if o.kind == 'c' {
				var n nodes
				before := len(e.math)
				w, n = o.caption.write(e)
				if i == cap {
					capNodes = n
				} else {
					e.math = e.math[:before]
				}
			}
			s += "|" + w
		}
		file := strings.ReplaceAll(strings.ReplaceAll(strings.TrimSpace(name), "%20", "_"), " ", "_")
		r := []rune(file)
		file = strings.ToUpper(string(r[0])) + string(r[1:])
		e.images = append(e.images, "File:"+file)
		a := map[string]string{"alt": "image", "src": "./images/" + url.QueryEscape(file)}
		if x >= 0 || y >= 0 {
			px := func(n int) string {
				if n < 0 {
					return "auto"
				}
				return strconv.Itoa(n) + "px"
			}
			a["style"] = "vertical-align: middle; width: " + px(x) + "; height: " + px(y) + ";"
		}
		if !thumb {
			e.math = e.math[:formulas]
		}
		if !thumb && x < 100 && y < 50 {
			a["class"] = "inline"
			return s, nodes{vlib.ElA("img", a)}
		}
		if !thumb {
			capNodes = nil
		}
		return s, nodes{figure(vlib.ElA("img", a), caption(capNodes))}
	}}, sizes <= 1
}

func checkC27() *vlib.Check {
	return &vlib.Check{ID: "C27", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "each picture appears once, at its place, as the file of its name, with its size, its caption, as a figure or within the text; pictures of ignored types vanish; the text around stays",
		Bounds:      map[string]string{"quick": "all sequences of up to 4 of 42 options (one size; one caption, or two among three) in a line, up to 2 in 21 blocks, galleries and imagemaps; 28 names x 5 prefixes x 8 option lists; all galleries of up to 3 of 15 lines x 12 notations of the tags; 23 types x 8 conversions; 12, 101 and 501 pictures; 17 x 14 sizes of 1 to 6 digits; names of up to 230, captions of up to 70000 characters", "thorough": "sequences of up to 5 options, galleries of 4 lines"},
		Assumptions: []string{"several sizes, captions of pictures without thumb and empty options are not covered"},
		Run: func(c *vlib.Ctx) {
			cfg := setup(c)
			cfg.FilePrefixes = []string{"file", "image", "datei"}
			cfg.IgnoredImageParams = []string{"alt", "border", "class", "left", "links", "link", "none", "page", "right", "sub", "text-top", "top", "upright", "hochkant"}
			cfg.CommandTemplateSvgToPng, cfg.CommandTemplatePdfToPng, cfg.CommandTemplateWebpToPng = "", "", ""
			one := func(bs ...blk) bool {
				d := write("\n", bs...)
				d.loose = len(d.e.images) == 0
				return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
			}
			var opts []option
			for _, w := range []string{"thumb", "mini", " thumb ", "thumbnail", "miniatur"} {
				opts = append(opts, option{wiki: w, kind: 't'})
			}
			for _, w := range []string{"20px", "99px", "100px", "x49px", "x50px", "99x49px", "200x10px", "20x60px", " 120px ", "120 px"} {
				o := option{wiki: w, kind: 's', x: -1, y: -1}
				xs := strings.SplitN(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(w), "px")), "x", 2)
				if n, err := strconv.Atoi(xs[0]); err == nil {
					o.x = n
				}
				if len(xs) == 2 {
					o.y, _ = strconv.Atoi(xs[1])
				}
				opts = append(opts, o)
			}
			for _, w := range []string{"left", "alt=x y", "upright=1.2", "link=", "alt = a [x]", "page=3", " right ", "border", "upright 1.2"} {
				opts = append(opts, option{wiki: w, kind: 'i'})
			}
			for _, x := range []inl{word, spaced(bold(word), word), spaced(literal("left to right:"), word), literal("linksseitig"), literal("subway"), literal("miniature of x"), literal("thumbs up"), literal("altar"), literal("a = b"), literal("about 20px"), literal("top: a; b"),
				link(word), extLink(twoWords), literal("noneB"), spaced(word, mathAtom), literal("in [a, b)"), spaced(literal("in [a, b)"), extLink(word)), spaced(extLink(word), literal("(a, b] c"))} {
				opts = append(opts, option{kind: 'c', caption: x})
			}
			valid := func(os []option) bool {
				captions, sizes, thumb := 0, 0, false
				for _, o := range os {
					switch o.kind {
					case 'c':
						captions++
					case 's':
						sizes++
					case 't':
						thumb = true
					}
				}
				return (captions <= 1 || captions == 2 && len(os) <= 3) && sizes <= 1 && (thumb || captions == 0 || os[0].kind != 0)
			}
			wrapped := func(prefix string, x inl) inl {
				return inl{x.name, func(e *env) (string, nodes) {
					w, n := x.write(e)
					return "[[" + prefix + w + "]]", n
				}}
			}
			var names []string
			for _, b := range blockNames() {
				if b != "dl" && b != "dlline" && b != "bare" && b != "gallery" && b != "heading" && b != "heading4" && b != "imagemap" && !strings.HasPrefix(b, "ref") && !strings.HasPrefix(b, "thumb") && b != "tcaption" {
					names = append(names, b)
				}
			}
			var rec func(n int, os []option) bool
			rec = func(n int, os []option) bool {
				if !valid(os) {
					return false
				}
				if n == 0 {
					p, _ := picture("Pic.png", os, false)
					in := names
					if len(os) > 2 {
						in = []string{"para"}
					}
					for _, b := range in {
						if one(blocks[b](wrapped("File:", p))) {
							return true
						}
					}
					return false
				}
				for _, o := range opts {
					if rec(n-1, append(os[:len(os):len(os)], o)) {
						return true
					}
				}
				return false
			}
			for n := 0; n <= c.Pick(4, 5); n++ {
				if rec(n, nil) {
					return
				}
			}
			// pictures that are never closed do not hide others
			for _, broken := range []string{"[[File:", "[[File:x.png", "[[File:x.png|thumb", "[[File:x.png|thumb|a [b] c", "[[file:x.png|thumb|in [1, 2) a", "[[Datei:x.png|(1,2]"} {
				for _, os := range [][]option{nil, {opts[0]}, {opts[5]}, {opts[0], {kind: 'c', caption: word}}} {
					p, _ := picture("Pic.png", os, false)
					open := inl{broken, func(e *env) (string, nodes) { return broken, text(broken) }}
					for _, xs := range [][]blk{
						{blocks["para"](open), blocks["para"](wrapped("File:", p))},
						{blocks["para"](wrapped("File:", p)), blocks["para"](open), blocks["para"](wrapped("File:", p)), blocks["para"](wrapped("Image:", p))},
						{blocks["para"](seq(open, word, wrapped("File:", p), word, wrapped("File:", p)))},
					} {
						if one(xs...) {
							return
						}
					}
				}
			}
			thumb, cap, size := opts[0], option{kind: 'c', caption: word}, opts[5]
			lists := [][]option{nil, {thumb}, {thumb, cap}, {size}, {cap, thumb}, {thumb, opts[17], cap}, {thumb, cap, opts[16]}, {thumb, size, cap}}
			fileNames := []string{"Pic.png", "a.jpg", "A b c.jpg", "A_b.png", "A%20b.png", "ä.png", "漢.jpg", "X.PNG", "A's.jpg", "A (x).jpg", "a,b;c.jpg", "A&B.jpg", "A=b.jpg", "mini.jpg", "thumb-1.jpg", "Dominican.jpg", "100px.jpg", "A.b.jpg", " A.jpg ", "1.jpg", "alt.jpg", "left.jpg", "A-+!b.jpg", "A~@b.jpg", "$1.jpg", "a.tif", "A.JPEG", "é.webp"}
			for _, name := range fileNames {
				for _, os := range lists {
					p, _ := picture(name, os, false)
					for _, prefix := range []string{"File:", "file:", "FILE:", "Image:", "Datei:", "File: "} {
						if prefix != "File:" && len(os) > 2 {
							continue
						}
						for _, b := range names {
							if strings.Contains(name, ";") && b == "indent" {
								continue
							}
							if one(blocks[b](wrapped(prefix, p))) || prefix == "File:" && one(blocks[b](seq(word, wrapped(prefix, p), wrapped("File:", p), word))) {
								return
							}
						}
					}
					g, _ := picture(name, os, true)
					for _, prefix := range []string{"File:", "", "Image:", "datei:"} {
						if one(tagged("gallery", 0, prefix, []inl{g})) || one(tagged("gallery", 1, prefix, []inl{g, g})) || prefix != "" && one(tagged("imagemap", 0, prefix, []inl{p})) {
							return
						}
					}
				}
			}
			// many pictures, all numbers of digits, long names and captions
			for _, n := range []int{12, 101, 501} {
				for _, os := range lists {
					var line, names []inl
					for i := 0; i < n; i++ {
						p, _ := picture("Pic.png", os, false)
						line = append(line, wrapped("File:", p))
						g, _ := picture(fmt.Sprintf("Pic %d.png", i), os, true)
						names = append(names, g)
					}
					if one(blocks["para"](spaced(line...))) || one(tagged("gallery", 0, "File:", names)) || one(tagged("gallery", 5, "", names)) || one(blocks["ul"](spaced(append([]inl{word}, line...)...))) {
						return
					}
				}
			}
			for _, x := range []int{1, 2, 9, 10, 19, 98, 99, 100, 101, 999, 1000, 1001, 4096, 9999, 10000, 65536, 123456} {
				for _, y := range []int{-1, 1, 9, 10, 48, 49, 50, 51, 99, 100, 999, 1000, 9999, 65536} {
					o := option{wiki: fmt.Sprintf("%dx%dpx", x, y), kind: 's', x: x, y: y}
					if y < 0 {
						o.wiki = fmt.Sprintf("%dpx", x)
					}
					for _, os := range [][]option{{o}, {thumb, o}, {thumb, o, cap}, {o, opts[16]}} {
						p, _ := picture("Pic.png", os, false)
						g, _ := picture("Pic.png", os, true)
						if one(blocks["para"](spaced(word, wrapped("File:", p), word))) || one(tagged("gallery", 0, "File:", []inl{g})) {
							return
						}
						o.wiki = fmt.Sprintf("x%dpx", y)
						o.x = -1
					}
				}
			}
			for _, n := range []int{60, 150, 230} {
				for _, os := range lists {
					for _, name := range []string{strings.Repeat("n", n) + ".png", strings.Repeat("n ", n/2) + ".jpg"} {
						p, _ := picture(name, os, false)
						g, _ := picture(name, os, true)
						if one(blocks["para"](spaced(word, wrapped("File:", p), word))) || one(tagged("gallery", 0, "", []inl{g})) {
							return
						}
					}
				}
			}
			for _, n := range []int{255, 4100, 70000} {
				p, _ := picture("Pic.png", []option{thumb, {kind: 'c', caption: spaced(word, long(n), bold(word))}}, true)
				if one(blocks["para"](spaced(word, wrapped("File:", p), word))) || one(tagged("gallery", 0, "File:", []inl{p})) {
					return
				}
			}
			// galleries and imagemaps
			var lines []inl
			for _, os := range append(lists, []option{cap, opts[15]}, []option{opts[15], cap}, []option{{kind: 'c', caption: literal("Dominican thumb")}}, []option{{kind: 'c', caption: spaced(link(word), literal("mini"), bold(word))}}, []option{{kind: 'c', caption: seq(word, lineBreak)}}, []option{{kind: 'c', caption: seq(word, refAtom)}}) {
				if len(os) == 1 && os[0].kind == 'c' && os[0].caption.name == seq(word, refAtom).name {
					continue
				}
				p, _ := picture("Pic.png", os, true)
				lines = append(lines, p)
			}
			blank := inl{"", func(e *env) (string, nodes) { return "", nil }}
			lines = append(lines, blank)
			var walk func(n int, xs []inl) bool
			walk = func(n int, xs []inl) bool {
				if n == 0 {
					for style := range tagStyles {
						if one(tagged("gallery", style, "File:", xs)) {
							return true
						}
					}
					return false
				}
				for _, l := range lines {
					if walk(n-1, append(xs[:len(xs):len(xs)], l)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(3, 4); n++ {
				if walk(n, nil) {
					return
				}
			}
			for _, os := range lists {
				p, _ := picture("Pic.png", os, false)
				for style := range tagStyles {
					for _, rest := range []string{"", "\nrect 0 0 1 1 [[a]]", "\n# c\npoly 1 2 3 [[a|b: c]]\n\ndefault [[x]]\ndesc none"} {
						if one(tagged("imagemap", style, "File:", []inl{{p.name, func(e *env) (string, nodes) { w, n := p.write(e); return w + rest, n }}})) {
							return
						}
					}
				}
			}
			// types
			for k := 0; k < 8; k++ {
				cfg.CommandTemplateSvgToPng, cfg.CommandTemplatePdfToPng, cfg.CommandTemplateWebpToPng = "", "", ""
				if k&4 != 0 {
					cfg.CommandTemplateWebpToPng = "x {INPUT} {OUTPUT}"
				}
				if k&1 != 0 {
					cfg.CommandTemplateSvgToPng = "x {INPUT} {OUTPUT}"
				}
				if k&2 != 0 {
					cfg.CommandTemplatePdfToPng = "x {INPUT} {OUTPUT}"
				}
				for _, ignored := range [][]string{{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"}, {"svg", "pdf", "tar.gz", "png"}, {}} {
					cfg.IgnoredMediaTypes = ignored
					for _, ext := range []string{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm", "svg", "png", "PNG", "jpg", "Ogg", "GIF", "PDF", "Pdf", "SVG", "giff", "pn", "", "webp", "WebP"} {
						lower := strings.ToLower(ext)
						gone := slices.Contains(ignored, lower) && !(lower == "pdf" && k&2 != 0) && !(lower == "svg" && k&1 != 0)
						name := "Ab." + ext
						if ext == "" {
							name = "Ab"
						}
						for _, os := range lists {
							for _, where := range []string{"", "gallery", "imagemap"} {
								p, _ := picture(name, os, where == "gallery")
								for _, spaces := range []string{"", " "} {
									x := inl{name, func(e *env) (string, nodes) {
										n := len(e.images)
										m := len(e.math)
										w, ns := p.write(e)
										w = strings.Replace(w, name, spaces+name+spaces, 1)
										if gone {
											e.images, e.math, ns = e.images[:n], e.math[:m], nil
										} else if lower == "svg" && k&1 != 0 || lower == "pdf" && k&2 != 0 || lower == "webp" && k&4 != 0 {
											for _, i := range ns {
												png(i)
											}
										}
										return w, ns
									}}
									if where == "" && one(blocks["para"](wrapped("File:", x))) || where != "" && one(tagged(where, 0, "File:", []inl{x})) {
										return
									}
								}
							}
						}
					}
				}
			}
		}}
}

// png is what a converted picture is called.
func png(n *vlib.Node) {
	if n.Tag == "img" {
		n.Attr["src"] += ".png"
	}
	for _, k := range n.Kids {
		png(k)
	}
}

// How the tags may be written: start, line ends, end and what follows.
var tagStyles = [][2]string{
	{"<%s>\n", "\n</%s>\n"}, {"<%s>", "\n</%s>\n"}, {"<%s>\n", "</%s>\n"}, {"<%s>", "</%s>"}, {"<%s mode=\"packed\" heights=100px>\n", "\n</%s>\n"}, {" <%s> \n", "\n </%s> \n"}, {"<%s>\n\n", "\n\n</%s>\n"},
	{"<%s>\n", "\n</%s>"}, {" v <%s>\n", "\n</%s> "}, {" v <%s>", "</%s>\n\n"}, {"<%S>\n", "\n</%S>\n"}, {"<%s>\n", "\n</%s>\n* "},
}

// tagged writes a gallery or an imagemap between two words.
func tagged(tag string, style int, prefix string, xs []inl) blk {
	return blk{tag, tag, func(e *env) (string, nodes) {
		before, after := e.word(), e.word()
		var ws []string
		out := text(before)
		s := tagStyles[style]
		if strings.Contains(s[0], "v") {
			out = append(out, vlib.Txt(" v"))
		}
		out = append(out, vlib.Txt(" "))
		for _, x := range xs {
			w, n := x.write(e)
			if w != "" {
				w = prefix + w
			}
			ws = append(ws, w)
			out = append(append(out, n...), vlib.Txt(" "))
		}
		open := strings.NewReplacer("%s", tag, "%S", strings.ToUpper(tag)).Replace(s[0])
		end := strings.NewReplacer("%s", tag, "%S", strings.ToUpper(tag)).Replace(s[1])
		if strings.HasSuffix(end, "* ") {
			out = append(out, vlib.El("ul", vlib.El("li", text(after)...)))
		} else {
			out = append(out, vlib.Txt(" "+after))
		}
		if !strings.Contains(open, "v") {
			open = "\n" + open
		}
		return fmt.Sprint(before, open, strings.Join(ws, "\n"), end, after), out
	}}
}
