package main

import (
	"fmt"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// cell is an entry of a table, rows contain entries.
type cell struct {
	head    bool   // header entry
	inline  bool   // behind the previous entry on the same line
	sep     string // between entries of the same line
	indent  string // in front of the mark
	attr    string // attributes as written
	want    map[string]string
	kind    string
	special int                          // 0 = plain content without attributes, 2 = other content and attributes
	body    func(e *env) (string, nodes) // content; a content starting with a line feed is on its own lines
}

type attribute struct {
	wiki string
	want map[string]string
}

var attributes = []attribute{
	{"", nil},
	{"colspan=2 | ", map[string]string{"colspan": "2"}},
	{"rowspan=\"3\"|", map[string]string{"rowspan": "3"}},
	{"style=\"color:red; text-align:right; width:10%;\" rowspan=2 colspan=\"12\" | ", map[string]string{"rowspan": "2", "colspan": "12", "style": "text-align:right;"}},
	{"class=\"x\" bgcolor=#ff0000 | ", nil},
	{"| ", nil}, // empty
	{"colspan='2' rowspan = 3 | ", map[string]string{"colspan": "2", "rowspan": "3"}},
	{"style=\"text-align:center\" | ", map[string]string{"style": "text-align:center"}},
	{"style='color:red; text-align: left' ROWSPAN=4|", map[string]string{"style": "text-align: left", "rowspan": "4"}},
}

func plain(name, wiki string) inl {
	return inl{name, func(e *env) (string, nodes) { w := e.word(); return wiki + w, text(wiki + w) }}
}

// lines makes a content that starts in the line behind the mark of the entry.
func lines(name string, f func(e *env) (string, nodes)) inl {
	return inl{"\n" + name, func(e *env) (string, nodes) { w, n := f(e); return "\n" + w, n }}
}

var cellContents = []inl{
	word,
	{"empty", func(e *env) (string, nodes) { return "", nil }},
	plain("minus", "-5 "), plain("plus", "+5 "), plain("exclamation", "a! b "), plain("exclamations", "a !! b!!c ! d "), plain("brace", "} "), plain("number", "# "), plain("list", "* "), plain("colon", ": "), plain("equal", "= "), literal("#"), literal("="), literal(";x"),
	bold(twoWords), link(word), inlineImage, mathOf("<math>", "|a|_{b}!!||"), refAtom, templateAtom, nowikiOf("|| !! |- |}"),
	lines("words", func(e *env) (string, nodes) { v, w := e.word(), e.word(); return v + "\n" + w, text(v + " " + w) }),
	lines("paragraphs", func(e *env) (string, nodes) {
		v, w := e.word(), e.word()
		return v + "\n\n" + w, nodes{vlib.Txt(v), vlib.El("br"), vlib.El("br"), vlib.Txt(w)}
	}),
	lines("bar", func(e *env) (string, nodes) {
		v, w := e.word(), e.word()
		return v + "\n" + w + " | x || y !! z", text(v + " " + w + " | x || y !! z")
	}),
	lines("list", func(e *env) (string, nodes) {
		v, w := e.word(), e.word()
		return "* " + v + "\n** " + w, nodes{vlib.El("ul", vlib.El("li", vlib.Txt(v), vlib.El("ul", vlib.El("li", vlib.Txt(w)))))}
	}),
	lines("picture", func(e *env) (string, nodes) { return blocks["thumb"](seq(word, nowikiOf("|"))).write(e) }),
	lines("table", func(e *env) (string, nodes) { return blocks["td"](word).write(e) }),
	lines("indented table", func(e *env) (string, nodes) {
		w, n := blocks["th"](word).write(e)
		return ":" + w, nodes{dl(dd(n))}
	}),
	{"first line", func(e *env) (string, nodes) { v, w := e.word(), e.word(); return v + "\n" + w, text(v + " " + w) }},
}

type row struct {
	start string // line(s) in front
	cells []cell
}

// table writes a table.
type tableModel struct {
	open, caption string
	captionAt     int // in front of this row
	captionBody   inl
	rows          []row
	end           string
	tail          bool // text directly behind the table
}

func (t tableModel) write(e *env) (string, nodes) {
	var b strings.Builder
	var rows, cap nodes
	b.WriteString(t.open + "\n")
	caption := func() {
		body := t.captionBody
		if body.write == nil {
			body = word
		}
		w, n := body.write(e)
		b.WriteString(t.caption + w + "\n")
		cap = n
	}
	for i, r := range t.rows {
		if t.caption != "" && t.captionAt == i {
			caption()
		}
		b.WriteString(r.start)
		tr := vlib.El("tr")
		for j, c := range r.cells {
			mark := map[bool]string{true: "!", false: "|"}[c.head]
			if c.inline {
				b.WriteString(" " + c.sep)
			} else {
				if j > 0 {
					b.WriteString("\n")
				}
				b.WriteString(c.indent + mark)
			}
			w, n := c.body(e)
			if c.attr != "" {
				b.WriteString(" " + c.attr)
			} else if !c.inline && !strings.HasPrefix(w, "\n") {
				b.WriteString(" ")
			}
			b.WriteString(w)
			tr.Kids = append(tr.Kids, vlib.ElA(map[bool]string{true: "th", false: "td"}[c.head], c.want, n...))
		}
		b.WriteString("\n")
		rows = append(rows, tr)
	}
	if t.caption != "" && t.captionAt == len(t.rows) {
		caption()
	}
	b.WriteString(t.end + "|}")
	out := nodes{table(cap, rows...)}
	for i := 0; i < len(t.open)-len(strings.TrimLeft(t.open, ":")); i++ {
		out = nodes{dl(dd(out))}
	}
	return b.String(), out
}

// tableLevels put a content into a table that is the content of an entry.
var tableLevels = func() (out []func(inl) inl) {
	add := func(f func(e *env, x inl) (string, nodes)) {
		out = append(out, func(x inl) inl { return lines("table", func(e *env) (string, nodes) { return f(e, x) }) })
	}
	entry := func(x inl) cell { return cell{body: x.write} }
	simple := func(x inl) tableModel {
		return tableModel{open: "{|", rows: []row{{"", []cell{entry(word), entry(x)}}, {"|-\n", []cell{entry(word)}}}}
	}
	add(func(e *env, x inl) (string, nodes) { return simple(x).write(e) })
	add(func(e *env, x inl) (string, nodes) { // between text
		v := e.word()
		w, n := simple(x).write(e)
		u := e.word()
		return v + "\n" + w + "\n" + u, append(append(text(v), n...), vlib.Txt(u))
	})
	add(func(e *env, x inl) (string, nodes) { // text behind
		w, n := simple(x).write(e)
		u := e.word()
		return w + " " + u, append(n, vlib.Txt(u))
	})
	add(func(e *env, x inl) (string, nodes) { // with caption, attributes and types
		c, d := entry(x), entry(word)
		c.head, c.attr, c.want = true, attributes[3].wiki, attributes[3].want
		d.head, d.inline, d.sep = true, true, "!!"
		t := tableModel{open: "{| class=\"x\"", caption: "|+ ", rows: []row{{"|-\n", []cell{entry(word), c}}, {"|-\n", []cell{c}}}}
		return t.write(e)
	})
	add(func(e *env, x inl) (string, nodes) { // indented
		t := simple(x)
		t.open = ":{|"
		return t.write(e)
	})
	add(func(e *env, x inl) (string, nodes) { // two tables
		v, m := simple(x).write(e)
		w, n := simple(x).write(e)
		return v + "\n" + w, append(m, n...)
	})
	add(func(e *env, x inl) (string, nodes) { // picture between tables
		w, n := simple(x).write(e)
		v, m := blocks["thumb"](word).write(e)
		return v + "\n" + w, append(m, n...)
	})
	return
}()

func checkC13() *vlib.Check {
	return &vlib.Check{ID: "C13", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "the generated table has exactly the rows and entries which were written, in order, each entry with its type (header or data), its spans and text alignment and its content, and the caption",
		Bounds:      map[string]string{"quick": "all pairs of neighbouring entries (2 types x 3 positions x 26 contents x 9 attributes, one of the two with a plain content or without attributes); all tables of up to 3 rows out of 9 kinds with 8 ways to start a row; captions of 5 kinds with 27 contents at every position with 6 ways to open, 4 ways to end a table and text behind it; all nestings of up to 3 tables in 7 ways, of 5, 7 and 10 tables in the same way; tables of 9 sizes up to 1001 entries and spans up to 302; entries of up to 70000 characters", "thorough": "every pair of entries; nestings of up to 4 tables"},
		Assumptions: []string{"spans and text alignment (within style) are the attributes which count"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			one := func(t tableModel) bool {
				x := inl{"table", t.write}
				b := blk{name: "table", kind: "table", write: func(e *env) (string, nodes) {
					v := e.word()
					w, n := x.write(e)
					u := e.word()
					sep := "\n"
					if t.tail {
						sep = " "
					}
					return v + "\n" + w + sep + u, append(append(text(v), n...), vlib.Txt(u))
				}}
				d := write("\n", b)
				return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
			}
			var cells []cell
			for _, head := range []bool{false, true} {
				for i, content := range cellContents {
					for j, a := range attributes {
						for _, inline := range []string{"", "||", "!!"} {
							if inline == "!!" && !head || head && (inline != "" && content.name == "exclamation" || content.name == "exclamations") {
								continue
							}
							cells = append(cells, cell{head: head, inline: inline != "", sep: inline, attr: a.wiki, want: a.want, kind: fmt.Sprint(i, j), special: min(i, 1) + min(j, 1), body: content.write})
						}
					}
				}
			}
			// every entry behind every entry
			for _, x := range cells {
				if x.inline {
					continue
				}
				if one(tableModel{open: "{|", rows: []row{{"", []cell{x}}}}) {
					return
				}
				for _, y := range cells {
					if y.inline && y.head != x.head || y.inline && multiline(x) {
						continue
					}
					if c.Pick(0, 1) == 0 && x.special == 2 && y.special == 2 {
						continue // special content and attributes in both entries
					}
					if one(tableModel{open: "{| class=\"wikitable\"", rows: []row{{"|-\n", []cell{x, y}}}}) {
						return
					}
				}
			}
			// large tables
			row1 := func(n int, f func(i int) cell) (out []cell) {
				for i := 0; i < n; i++ {
					out = append(out, f(i))
				}
				return
			}
			for _, size := range [][2]int{{1, 12}, {12, 1}, {1, 101}, {101, 1}, {12, 12}, {30, 30}, {300, 3}, {3, 300}, {1001, 1}} {
				for _, head := range []bool{false, true} {
					for style := 0; style < 3; style++ {
						var rows []row
						for i := 0; i < size[0]; i++ {
							rows = append(rows, row{"|-\n", row1(size[1], func(j int) cell {
								x := cell{head: head, body: word.write}
								if style == 1 && j > 0 {
									x.inline, x.sep = true, map[bool]string{true: "!!", false: "||"}[head]
								}
								if style == 2 {
									x.attr, x.want = fmt.Sprintf("rowspan=%d colspan=\"%d\" | ", i+2, j+2), map[string]string{"rowspan": fmt.Sprint(i + 2), "colspan": fmt.Sprint(j + 2)}
									x.body = cellContents[(i*7+j)%len(cellContents)].write
									if head && strings.Contains(cellContents[(i*7+j)%len(cellContents)].name, "exclamation") {
										x.body = word.write
									}
								}
								return x
							})})
						}
						for _, cap := range []string{"", "|+ "} {
							if one(tableModel{open: "{|", caption: cap, captionAt: size[0], rows: rows}) {
								return
							}
						}
					}
				}
			}
			for _, n := range []int{250, 4000, 70000} {
				for _, head := range []bool{false, true} {
					for _, a := range attributes {
						x := cell{head: head, attr: a.wiki, want: a.want, body: long(n).write}
						if one(tableModel{open: "{|", rows: []row{{"|-\n", []cell{x, x}}}}) || one(tableModel{open: "{|", caption: "|+ ", captionBody: long(n), rows: []row{{"|-\n", []cell{x, x}}}}) {
							return
						}
					}
				}
			}
			for _, l := range tableLevels { // deep
				for _, n := range []int{5, 7, 10} {
					x := word
					for i := 0; i < n; i++ {
						x = l(x)
						x.name = "\ntable"
					}
					if one(tableModel{open: "{|", rows: []row{{"", []cell{{body: x.write}}}}}) {
						return
					}
				}
			}
			// tables in tables
			var nest func(levels []func(inl) inl, depth int) bool
			nest = func(levels []func(inl) inl, depth int) bool {
				for _, inner := range []inl{word, cellContents[1], refAtom, nowikiOf("|}")} {
					x := inner
					for _, l := range levels {
						x = l(x)
					}
					if len(levels) > 0 && one(tableModel{open: "{|", rows: []row{{"", []cell{{body: x.write}, {body: word.write}}}, {"|-\n", []cell{{body: word.write}}}}}) {
						return true
					}
				}
				if depth == 0 {
					return false
				}
				for _, l := range tableLevels {
					if nest(append(levels[:len(levels):len(levels)], l), depth-1) {
						return true
					}
				}
				return false
			}
			if nest(nil, c.Pick(3, 4)) {
				return
			}
			// every row below every row
			data := func(head, inline bool, indent string, x inl) cell {
				sep := "||"
				if head {
					sep = "!!"
				}
				return cell{head: head, inline: inline, sep: sep, indent: indent, body: x.write}
			}
			empty, newLine := cellContents[1], lines("word", word.write)
			kinds := [][]cell{
				{data(false, false, "", word)},
				{data(false, false, "", empty)},
				{data(false, false, "", newLine)},
				{data(false, false, "  ", word)},
				{data(false, false, "", word), data(false, true, "", word)},
				{data(false, false, "", word), data(false, false, " ", word)},
				{data(true, false, "", word), data(true, true, "", word)},
				{data(true, false, " ", word), data(false, false, "", word)},
				{data(false, false, "", word), data(true, false, "", newLine)},
			}
			starts := []string{"|-\n", "|- style=\"color:red;\" | x\n", "|-----\n", "|-\n|-\n", "|-\n\n", "  |-  \n", "\n|-\n"}
			var rows []row
			for _, k := range kinds {
				for _, s := range starts {
					rows = append(rows, row{s, k})
				}
			}
			first := rows
			for _, k := range kinds {
				first = append(first, row{"", k}, row{"\n", k})
			}
			captions := []string{"", "|+ ", "|+", "|+ style=\"color:red;\" | ", "  |+class=x|", "|+\n"}
			opens := []string{"{|", ":{|", "::{|", " {| class=\"a\"", "{|border=1 style=\"color:red;\"\n", "{| {{x}}"}
			ends := []string{"", "  ", "\n", "|-\n"}
			for _, x := range first {
				for i, body := range cellContents {
					for _, cap := range captions[1:] {
						for at := 0; at <= 1; at++ {
							if strings.HasSuffix(cap, "\n") && i > 0 && i < 14 {
								continue // signs with a meaning at the begin of a line
							}
							if one(tableModel{open: "{|", caption: cap, captionBody: body, captionAt: at, rows: []row{x, {"|-\n", kinds[0]}}}) {
								return
							}
						}
					}
				}
				for _, cap := range captions {
					for _, o := range opens {
						for _, e := range ends {
							for at := 0; at <= 1 && (cap != "" || at == 0); at++ {
								for _, tail := range []bool{false, true} {
									if tail && strings.HasPrefix(o, ":") {
										continue
									}
									if one(tableModel{open: o, caption: cap, captionAt: at, rows: []row{x}, end: e, tail: tail}) {
										return
									}
								}
							}
						}
					}
				}
				for _, y := range rows {
					for _, cap := range captions {
						for at := 0; at <= 2 && (cap != "" || at == 0); at++ {
							if one(tableModel{open: opens[0], caption: cap, captionAt: at, rows: []row{x, y}}) {
								return
							}
						}
					}
					for _, z := range rows {
						if one(tableModel{open: opens[0], rows: []row{x, y, z}}) {
							return
						}
					}
				}
			}
		}}
}

func multiline(c cell) bool { w, _ := c.body(&env{}); return strings.Contains(w, "\n") }
