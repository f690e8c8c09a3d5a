package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"unicode"
	"wiki2book/zz_verif/vlib"
)

// Documents: pieces of wikitext together with the tree they have to become.

type nodes = []*vlib.Node

// env numbers words and references while a document is written down.
type env struct {
	n      int
	refs   []nodes        // contents by number
	names  map[string]int // named references
	images []string       // files, in order
	math   []string       // formulas, in order
	links  []string       // targets of internal links
	areas  []string       // verbatim areas as written
	passed []string       // the ones within templates
}

// inl is text within a line, blk one or more complete lines.
type inl struct {
	name  string
	write func(e *env) (string, nodes)
}
type blk struct {
	name  string
	kind  string
	write func(e *env) (string, nodes)
}

func (e *env) word() string { e.n++; return fmt.Sprintf("w%dü", e.n) }

func text(s string) nodes { return nodes{vlib.Txt(s)} }

func img(e *env, inline bool, style string) (string, *vlib.Node) {
	e.n++
	name := fmt.Sprintf("Pic%d.png", e.n)
	e.images = append(e.images, "File:"+name)
	a := map[string]string{"alt": "image", "src": "./images/" + name}
	if inline {
		a["class"] = "inline"
	}
	if style != "" {
		a["style"] = style
	}
	return name, vlib.ElA("img", a)
}

const mathStyle = "width: 2ex; height: 3ex; vertical-align: -1ex;"

func mathNode() *vlib.Node {
	return vlib.ElA("img", map[string]string{"alt": "image", "src": "./images/formula.png", "style": mathStyle})
}

// ---- inline atoms

var word = inl{"word", func(e *env) (string, nodes) { w := e.word(); return w, text(w) }}
var twoWords = inl{"words", func(e *env) (string, nodes) { w := e.word() + " " + e.word(); return w, text(w) }}
var punct = inl{"punctuation", func(e *env) (string, nodes) {
	w := e.word() + ", it's: (x-y) = 5 * 3 #1; a/b & \"c\" $ 5% "
	return w, text(w)
}}
var odd = inl{"odd", func(e *env) (string, nodes) {
	w := e.word()
	return w + " {a} [b] \\n ~ ^ ; * # = é 漢 🙂 e\u0301 \"q\" 'x' a=b $1 $$ %s %20 100% \\(x\\) x] }} &nbsp;&lt;i&gt; _u_ `c`",
		text(w + " {a} [b] \\n ~ ^ ; * # = é 漢 🙂 e\u0301 \"q\" 'x' a=b $1 $$ %s %20 100% \\(x\\) x] }} \u00a0<i> _u_ `c`")
}}
var lineBreak = inl{"br", func(e *env) (string, nodes) {
	v, w := e.word(), e.word()
	return v + "<br>" + w + "<br/>" + v, append(append(text(v), vlib.El("br")), append(text(w), vlib.El("br"), vlib.Txt(v))...)
}}
var plainLink = inl{"link", func(e *env) (string, nodes) { w := e.word(); return "[[" + w + "]]", text(w) }}
var catLink = inl{"category-link", func(e *env) (string, nodes) { w := e.word(); return "[[:Category:" + w + "]]", text(w) }}
var inlineImage = inl{"icon", func(e *env) (string, nodes) {
	name, n := img(e, true, "vertical-align: middle; width: 20px; height: auto;")
	return "[[File:" + name + "|20px]]", nodes{n}
}}
var mathAtom = inl{"math", func(e *env) (string, nodes) {
	f := "\\frac{" + e.word() + "}{2}"
	e.math = append(e.math, f)
	return "<math>" + f + "</math>", nodes{mathNode()}
}}
var nowikiAtom = inl{"nowiki", func(e *env) (string, nodes) {
	w := e.word()
	return "<nowiki>''" + w + "'' [[x]]</nowiki>", text("''" + w + "'' [[x]]")
}}
var refAtom = inl{"ref", func(e *env) (string, nodes) {
	w := e.word()
	e.refs = append(e.refs, text(w))
	return "<ref>" + w + "</ref>", text(fmt.Sprintf("[%d]", len(e.refs)))
}}
var templateAtom = inl{"template", func(e *env) (string, nodes) { w := e.word(); return "{{" + w + "}}", text("(" + w + ")") }}
var commentAtom = inl{"comment", func(e *env) (string, nodes) { return "<!-- " + e.word() + " -->", nil }}
var categoryAtom = inl{"category", func(e *env) (string, nodes) { return "[[Category:" + e.word() + "]]", nil }}
var htmlAtom = inl{"html", func(e *env) (string, nodes) {
	w := e.word()
	return "<sub>" + w + "</sub>", nodes{vlib.El("sub", vlib.Txt(w))}
}}

// ---- inline wrappers

func wrap(name string, f func(e *env, wiki string, n nodes) (string, nodes)) func(inl) inl {
	return func(x inl) inl {
		return inl{name + "(" + x.name + ")", func(e *env) (string, nodes) {
			wiki, n := x.write(e)
			return f(e, wiki, n)
		}}
	}
}

var bold = wrap("bold", func(e *env, w string, n nodes) (string, nodes) { return "'''" + w + "'''", nodes{vlib.El("b", n...)} })
var italic = wrap("italic", func(e *env, w string, n nodes) (string, nodes) { return "''" + w + "''", nodes{vlib.El("i", n...)} })
var boldItalic = wrap("bolditalic", func(e *env, w string, n nodes) (string, nodes) {
	return "'''''" + w + "'''''", nodes{vlib.El("i", vlib.El("b", n...))}
})
var link = wrap("link", func(e *env, w string, n nodes) (string, nodes) { return "[[Target#s|" + w + "]]", n })
var extLink = wrap("extlink", func(e *env, w string, n nodes) (string, nodes) {
	return "[https://h.org/p?a=1#f " + w + "]", nodes{vlib.ElA("a", map[string]string{"href": "https://h.org/p?a=1#f"}, n...)}
})
var span = wrap("span", func(e *env, w string, n nodes) (string, nodes) {
	return "<span class=\"x\" id='y'>" + w + "</span>", nodes{vlib.ElA("span", map[string]string{"class": "x", "id": "y"}, n...)}
})
var small = wrap("small", func(e *env, w string, n nodes) (string, nodes) {
	return "<small>" + w + "</small>", nodes{vlib.El("small", n...)}
})

func seq(xs ...inl) inl {
	var names []string
	for _, x := range xs {
		names = append(names, x.name)
	}
	return inl{strings.Join(names, "+"), func(e *env) (string, nodes) {
		wiki, n := "", nodes{}
		for _, x := range xs {
			w, m := x.write(e)
			wiki += w
			n = append(n, m...)
		}
		return wiki, n
	}}
}

func spaced(xs ...inl) inl {
	space := inl{"_", func(e *env) (string, nodes) { return " ", text(" ") }}
	var all []inl
	for i, x := range xs {
		if i > 0 {
			all = append(all, space)
		}
		all = append(all, x)
	}
	return seq(all...)
}

// ---- blocks

func block(name string, f func(e *env, x inl) (string, nodes)) func(inl) blk {
	return func(x inl) blk {
		return blk{name: name + "{" + x.name + "}", kind: name, write: func(e *env) (string, nodes) { return f(e, x) }}
	}
}

// around puts x between two words.
func around(e *env, x inl) (string, nodes) { return spaced(word, x, word).write(e) }

func dl(kids ...*vlib.Node) *vlib.Node {
	return vlib.ElA("div", map[string]string{"class": "description-list"}, kids...)
}
func dt(n nodes) *vlib.Node { return vlib.ElA("div", map[string]string{"class": "dt"}, n...) }
func dd(n nodes) *vlib.Node { return vlib.ElA("div", map[string]string{"class": "dd"}, n...) }
func figure(kids ...*vlib.Node) *vlib.Node {
	return vlib.ElA("div", map[string]string{"class": "figure"}, kids...)
}
func caption(n nodes) *vlib.Node { return vlib.ElA("div", map[string]string{"class": "caption"}, n...) }

func table(cap nodes, rows ...*vlib.Node) *vlib.Node {
	return figure(vlib.El("table", rows...), caption(cap))
}

var blocks = map[string]func(inl) blk{
	"para": block("para", func(e *env, x inl) (string, nodes) { return around(e, x) }),
	"bare": block("bare", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		v := e.word()
		return w + "\n== H ==\n" + v, append(n[:len(n):len(n)], vlib.El("h2", vlib.Txt("H")), vlib.Txt(v))
	}),
	"end": block("end", func(e *env, x inl) (string, nodes) {
		v := e.word()
		w, n := x.write(e)
		return v + " " + w, append(text(v+" "), n...)
	}),
	"heading": block("heading", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		v := e.word()
		return "== " + w + " ==\n" + v, append(nodes{vlib.El("h2", n...)}, text(v)...)
	}),
	"heading4": block("heading4", func(e *env, x inl) (string, nodes) {
		w, n := around(e, x)
		v := e.word()
		return "====" + w + "====\n\n" + v, append(nodes{vlib.El("h4", n...)}, text(v)...)
	}),
	"ul": block("ul", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		v := e.word()
		return "* " + w + "\n* " + v, nodes{vlib.El("ul", vlib.El("li", n...), vlib.El("li", text(v)...))}
	}),
	"ol": block("ol", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		v := e.word()
		return "#" + u + "\n##" + w + "\n# " + v, nodes{vlib.El("ol", vlib.El("li", append(text(u), vlib.El("ol", vlib.El("li", n...)))...), vlib.El("li", text(v)...))}
	}),
	"dl": block("dl", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		v := e.word()
		return "; " + w + "\n: " + v, nodes{dl(dt(n), dd(text(v)))}
	}),
	"dlline": block("dlline", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		return "; " + u + " : " + w, nodes{dl(dt(text(u)), dd(n))}
	}),
	"indent": block("indent", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		return ":" + w, nodes{dl(dd(n))}
	}),
	"td": block("td", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		v := e.word()
		return "{| class=\"wikitable\"\n|-\n| " + u + "\n| " + w + "\n|-\n| " + v + "\n|}", nodes{table(nil, vlib.El("tr", vlib.El("td", text(u)...), vlib.El("td", n...)), vlib.El("tr", vlib.El("td", text(v)...)))}
	}),
	"tdinline": block("tdinline", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		v := e.word()
		return "{|\n|" + u + "||" + w + "||colspan=\"2\" | " + v + "\n|}", nodes{table(nil, vlib.El("tr", vlib.El("td", text(u)...), vlib.El("td", n...), vlib.ElA("td", map[string]string{"colspan": "2"}, text(v)...)))}
	}),
	"th": block("th", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		u, v := e.word(), e.word()
		return "{|\n! rowspan=2 style=\"text-align:left; color:red;\" | " + w + " !! " + u + "\n|-\n| " + v + "\n|}",
			nodes{table(nil, vlib.El("tr", vlib.ElA("th", map[string]string{"rowspan": "2", "style": "text-align:left;"}, n...), vlib.El("th", text(u)...)), vlib.El("tr", vlib.El("td", text(v)...)))}
	}),
	"tcaption": block("tcaption", func(e *env, x inl) (string, nodes) {
		w, n := x.write(e)
		v := e.word()
		return "{|\n|+ " + w + "\n|-\n| " + v + "\n|}", nodes{table(n, vlib.El("tr", vlib.El("td", text(v)...)))}
	}),
	"lines-in-cell": block("lines-in-cell", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		v := e.word()
		return "{|\n|\n" + u + "\n* " + w + "\n|\n" + v + "\n|}", nodes{table(nil, vlib.El("tr", vlib.El("td", append(text(u), vlib.El("ul", vlib.El("li", n...)))...), vlib.El("td", text(v)...)))}
	}),
	"table-in-cell": block("table-in-cell", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		v := e.word()
		return "{|\n| " + u + "\n|\n{|\n| " + w + "\n|}\n|-\n| " + v + "\n|}", nodes{table(nil, vlib.El("tr", vlib.El("td", text(u)...), vlib.El("td", table(nil, vlib.El("tr", vlib.El("td", n...))))), vlib.El("tr", vlib.El("td", text(v)...)))}
	}),
	"thumb": block("thumb", func(e *env, x inl) (string, nodes) {
		name, i := img(e, false, "")
		w, n := x.write(e)
		return "[[File:" + name + "|thumb|" + w + "]]", nodes{figure(i, caption(n))}
	}),
	"thumbsize": block("thumbsize", func(e *env, x inl) (string, nodes) {
		name, i := img(e, false, "vertical-align: middle; width: 200px; height: 100px;")
		w, n := around(e, x)
		return "[[Image:" + name + "|mini|200x100px|" + w + "]]", nodes{figure(i, caption(n))}
	}),
	"gallery": block("gallery", func(e *env, x inl) (string, nodes) {
		name1, i1 := img(e, false, "")
		w, n := x.write(e)
		name2, i2 := img(e, false, "")
		v := e.word()
		return "<gallery>\nFile:" + name1 + "|" + w + "\nFile:" + name2 + "|" + v + "\n</gallery>", nodes{figure(i1, caption(n)), figure(i2, caption(text(v)))}
	}),
	"imagemap": block("imagemap", func(e *env, x inl) (string, nodes) {
		name, i := img(e, false, "")
		w, n := x.write(e)
		return "<imagemap>\nFile:" + name + "|thumb|" + w + "\nrect 0 0 1 1 [[a]]\n</imagemap>", nodes{figure(i, caption(n))}
	}),
	"ref": block("ref", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		e.refs = append(e.refs, n)
		v := e.word()
		e.refs = append(e.refs, text(v))
		k := len(e.refs)
		return u + "<ref>" + w + "</ref><ref>" + v + "</ref>\n<references/>", append(text(fmt.Sprintf("%s[%d][%d] ", u, k-1, k)), e.list()...)
	}),
	"references": block("references", func(e *env, x inl) (string, nodes) {
		u := e.word()
		w, n := x.write(e)
		e.refs = append(e.refs, n)
		s := u + "<ref name=\"n" + u + "\">" + w + "</ref>\n== Refs ==\n<references />"
		out := append(text(fmt.Sprintf("%s[%d]", u, len(e.refs))), vlib.El("h2", vlib.Txt("Refs")))
		return s, append(out, e.list()...)
	}),
}

// list is the list of the references so far, which starts anew afterwards (numbers go on).
func (e *env) list() nodes {
	var out nodes
	for i, n := range e.refs {
		if n == nil {
			continue
		}
		out = append(out, vlib.Txt(fmt.Sprintf("[%d] ", i+1)))
		out = append(out, n...)
		out = append(out, vlib.El("br"))
		e.refs[i] = nil
	}
	return out
}

// A blank line between two lines of text starts a new paragraph.
var startsWithText = map[string]bool{"bare": true, "end": true, "para": true, "ref": true, "references": true}
var endsWithText = map[string]bool{"para": true, "end": true, "bare": true, "heading": true, "heading4": true}

func blockNames() []string {
	var out []string
	for k := range blocks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- comparison

var blockTags = map[string]bool{"div": true, "table": true, "tr": true, "td": true, "th": true, "ul": true, "ol": true, "li": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "br": true, "body": true}

// canonical writes a tree down with white space normalized the way a browser does: runs collapse, none at the borders of
// blocks; spaces next to inline elements count.
func canonical(n *vlib.Node) string {
	var b flat
	b.walk(n, "")
	s := strings.Join(strings.Fields(b.String()), " ")
	for _, r := range []string{" \x01", "\x02 "} {
		s = strings.ReplaceAll(s, r, strings.TrimSpace(r))
	}
	for _, style := range []string{"b", "i", "ib"} {
		s = strings.ReplaceAll(s, "\x04"+style+":\x03"+style+":", "")
		s = strings.ReplaceAll(s, "\x03"+style+":", "{"+style+" ")
		s = strings.ReplaceAll(s, "\x04"+style+":", "}")
	}
	return strings.NewReplacer("\x01", "", "\x02", "").Replace(s)
}

// flat writes a tree as text; bold and italic become marks where the style changes (their nesting does not matter).
type flat struct{ strings.Builder }

// styled marks the text with its style, word by word.
func styled(text, style string) string {
	if style == "" {
		return text
	}
	var b strings.Builder
	inside := false
	for _, r := range text {
		if inside == unicode.IsSpace(r) {
			inside = !inside
			b.WriteString(map[bool]string{true: "\x03" + style + ":", false: "\x04" + style + ":"}[inside])
		}
		b.WriteRune(r)
	}
	if inside {
		b.WriteString("\x04" + style + ":")
	}
	return b.String()
}

func (b *flat) walk(n *vlib.Node, style string) {
	switch n.Tag {
	case "":
		b.WriteString(styled(n.Text, style))
		return
	case "b":
		style = strings.ReplaceAll(style, "b", "") + "b"
	case "i":
		style = "i" + strings.ReplaceAll(style, "i", "")
	}
	if n.Tag == "tbody" || n.Tag == "b" || n.Tag == "i" {
		for _, k := range n.Kids {
			b.walk(k, style)
		}
		return
	}
	if n.Tag == "tr" && !slices.ContainsFunc(n.Kids, func(k *vlib.Node) bool { return k.Tag != "" }) {
		return // nothing to see
	}
	open, closing := "", ""
	if blockTags[n.Tag] {
		open, closing = "\x01", "\x02"
	}
	b.WriteString(open + "<" + n.Tag)
	var keys []string
	for k := range n.Attr {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.WriteString("\u00a0" + k + "=" + strings.ReplaceAll(strings.TrimSpace(n.Attr[k]), " ", "_"))
	}
	b.WriteString(">" + closing)
	for _, k := range joinLists(n.Kids) {
		b.walk(k, style)
	}
	b.WriteString(open + "</" + n.Tag + ">" + closing)
}

// document writes blocks below each other and renders them.
type document struct {
	wiki string
	want string
	e    *env
	// loose is set when line breaks do not matter
	loose bool
}

func write(separator string, bs ...blk) document {
	e := &env{names: map[string]int{}}
	root := vlib.El("body", vlib.El("h1", vlib.Txt("T")))
	var parts []string
	for i, b := range bs {
		w, n := b.write(e)
		parts = append(parts, w)
		if i > 0 && startsWithText[b.kind] && endsWithText[bs[i-1].kind] && strings.Contains(separator, "\n\n") {
			root.Kids = append(root.Kids, vlib.El("br"), vlib.El("br"))
		}
		if last := len(root.Kids) - 1; separator == "\n" && isList(root.Kids[last]) && isList(n[0]) && root.Kids[last].Tag == n[0].Tag {
			root.Kids[last].Kids = append(root.Kids[last].Kids, n[0].Kids...) // one list
			n = n[1:]
		} else if i > 0 {
			root.Kids = append(root.Kids, vlib.Txt(" "))
		}
		root.Kids = append(root.Kids, n...)
	}
	return document{wiki: strings.Join(parts, separator), want: canonical(root), e: e}
}

// joinLists makes one description list of several that follow each other: that looks the same.
func joinLists(kids nodes) nodes {
	var out nodes
	for _, k := range kids {
		if last := len(out) - 1; last >= 0 && k.Tag == "div" && isList(k) && out[last].Tag == "div" && isList(out[last]) {
			out[last] = dl(append(out[last].Kids[:len(out[last].Kids):len(out[last].Kids)], k.Kids...)...)
			continue
		}
		if k.Tag == "" && strings.TrimSpace(k.Text) == "" && len(out) > 0 && isList(out[len(out)-1]) {
			continue
		}
		out = append(out, k)
	}
	return out
}

func isList(n *vlib.Node) bool {
	return n.Tag == "ul" || n.Tag == "ol" || n.Tag == "div" && n.Attr["class"] == "description-list"
}

// check renders the document and compares.
func (d document) check(svc *service) vlib.Outcome {
	r := render(d.wiki, svc)
	if r.err != nil {
		return vlib.Outcome{Bad: "error: " + r.err.Error()}
	}
	body, err := vlib.Body(r.html)
	if err != nil {
		return vlib.Outcome{Bad: "unparsable HTML: " + err.Error()}
	}
	body.Attr = nil
	got := canonical(body)
	if d.loose {
		got, d.want = withoutBreaks(got), withoutBreaks(d.want)
	}
	out := vlib.Outcome{Observed: got, Detail: r.html}
	switch {
	case got != d.want:
		out.Bad = "generated content differs: got " + got + " want " + d.want
	case vlib.TagBalance(vlib.BodyOf(r.html)) != "":
		out.Bad = "markup not balanced: " + vlib.TagBalance(vlib.BodyOf(r.html))
	case strings.Join(svc.math, "|") != strings.Join(d.e.math, "|"):
		out.Bad = fmt.Sprintf("formulas: rendered %q, the article has %q", svc.math, d.e.math)
	case strings.Join(sorted(files(r.article.Images)), "|") != strings.Join(sorted(files(d.e.images)), "|"):
		out.Bad = fmt.Sprintf("pictures of the article: %q, the article has %q", r.article.Images, d.e.images)
	}
	if f := os.Getenv("PARSE_DEBUG"); f != "" && out.Bad != "" {
		h, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		fmt.Fprintf(h, "=====\n%s\n-----\n%s\n", d.wiki, out.Bad)
		h.Close()
		out.Bad = ""
	}
	return out
}

func withoutBreaks(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, "<br></br>", " ")), " ")
}

// files returns the names without the prefix.
func files(images []string) (out []string) {
	for _, i := range images {
		_, name, _ := strings.Cut(i, ":")
		out = append(out, name)
	}
	return
}

// sorted returns the different elements.
func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return slices.Compact(s)
}
