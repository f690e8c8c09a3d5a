package main

import (
	"fmt"
	"strings"
	"wiki2book/zz_verif/vlib"
)

var atoms = []inl{word, twoWords, punct, odd, lineBreak, plainLink, catLink, inlineImage, mathAtom, nowikiAtom, refAtom, templateAtom, commentAtom, categoryAtom, htmlAtom}
var wrappers = map[string]func(inl) inl{"bold": bold, "italic": italic, "bolditalic": boldItalic, "link": link, "extlink": extLink, "small": small, "span": span}
var wrapperNames = []string{"bold", "italic", "bolditalic", "link", "extlink", "small", "span"}

func checkC19() *vlib.Check {
	return &vlib.Check{ID: "C19", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "the HTML generated by the real tokenizer and generator has exactly the text, the inline markup and the block structure (in order) which the document was written with, its markup is balanced, and exactly its formulas and pictures are requested",
		Bounds:      map[string]string{"quick": "all nestings of up to 2 inline wrappers (7) around 15 inline elements in 22 blocks; 16 texts that look like lists or headings in the middle of lines; headings of all levels; 3 paragraphs out of 11 short ones; all sequences of 2 inline elements (22, joined directly or by blanks) in all blocks and of up to 4 in table cells and paragraphs; all sequences of 2 and 3 blocks, joined by one or two line feeds, with 5 assignments of contents", "thorough": "nestings of up to 3 wrappers, sequences of up to 5 inline elements and up to 4 blocks"},
		Assumptions: []string{"well-formed wikitext without combinations whose meaning is ambiguous (neighbouring apostrophe marks, colons in terms, links in links)", "templates and formulas are evaluated by a stand-in"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			one := func(sep string, bs ...blk) bool {
				d := write(sep, bs...)
				return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
			}
			names := blockNames()
			// every pair of wrappers around every atom in every block
			level := []inl{}
			for _, a := range atoms {
				if a.name == "comment" || a.name == "category" {
					a = spaced(word, a)
				}
				level = append(level, a)
			}
			for depth := 0; depth <= c.Pick(2, 3); depth++ {
				for _, x := range level {
					for _, b := range names {
						if !allowed(b, x.name) {
							continue
						}
						if one("\n", blocks[b](x)) {
							return
						}
					}
				}
				var next []inl
				for _, x := range level {
					for _, w := range wrapperNames {
						if allowed(w, x.name) {
							next = append(next, wrappers[w](x))
						}
					}
				}
				level = next
			}
			// short paragraphs
			solo := block("para", func(e *env, x inl) (string, nodes) { return x.write(e) })
			short := []inl{literal("x"), literal("é"), literal("1"), literal("."), literal("xy"), literal("&"), seq(literal("x"), bold(literal("b"))), italic(literal("i")), seq(link(literal("l")), literal(".")), spaced(literal("-"), mathAtom), word}
			for _, sep := range []string{"\n\n", "\n"} {
				for _, x := range short {
					for _, y := range short {
						for _, z := range short {
							if one(sep, blocks["para"](word), solo(x), solo(y), solo(z), blocks["para"](word)) || one(sep, solo(x), solo(y), blocks["ul"](z), solo(x), solo(y)) {
								return
							}
						}
					}
				}
			}
			// characters which start a list or heading, but not in the middle of a line
			for _, start := range []string{"#MeToo", "#", "* x", "*", "# 1", ": x", ":x", ";", "; x : y", "= x =", "=", "==", "== x ==", "=x", "*#:;x", "=0"} {
				for _, b := range names {
					if b == "bare" || b == "ol" || b == "indent" || b == "dl" && strings.Contains(start, ":") {
						continue
					}
					xs := []inl{literal(start), seq(literal(start+" "), word), spaced(literal(start), bold(word))}
					for _, w := range wrapperNames {
						xs = append(xs, wrappers[w](literal(start)), spaced(wrappers[w](literal(start)), word))
					}
					for _, x := range xs {
						if one("\n", blocks[b](x)) {
							return
						}
					}
				}
			}
			// headings of all levels
			for level := 1; level <= 6; level++ {
				for next := 1; next <= 6; next++ {
					for _, form := range []string{"%s x %s", "%sx%s", "%s  x %s  ", "  %s x %s"} {
						for _, x := range []inl{word, literal("A"), literal("漢"), literal("a=b"), literal("a = b"), literal("a == b"), literal("a === b"), literal("#1"), bold(word), spaced(word, refAtom), link(word), mathOf("<math>", "a=b")} {
							if strings.Contains(form, "%sx") && strings.HasPrefix(x.name, "=") || level == 1 && x.name == "" {
								continue
							}
							b := blk{"heading", "heading", func(e *env) (string, nodes) {
								w, n := x.write(e)
								v := e.word()
								u := e.word()
								mark, mark2 := strings.Repeat("=", level), strings.Repeat("=", next)
								s := strings.Replace(fmt.Sprintf(form, mark, mark), "x", w, 1)
								return s + "\n" + v + "\n" + mark2 + u + mark2 + "\n" + v, nodes{vlib.El(fmt.Sprintf("h%d", level), n...), vlib.Txt(v), vlib.El(fmt.Sprintf("h%d", next), vlib.Txt(u)), vlib.Txt(v)}
							}}
							if one("\n", b) {
								return
							}
						}
					}
				}
			}
			elements := append([]inl{}, atoms...)
			for _, w := range wrapperNames {
				elements = append(elements, wrappers[w](twoWords))
			}
			if largeDocuments(c, elements) {
				return
			}
			// sequences of inline elements
			var sequence func(n int, xs []inl) bool
			sequence = func(n int, xs []inl) bool {
				if n == 0 {
					quotes := false // neighbouring quotes have many meanings
					for i, x := range xs[1:] {
						quotes = quotes || isQuoted(x) && isQuoted(xs[i])
					}
					for i, join := range []func(...inl) inl{seq, spaced} {
						if quotes && i == 0 {
							continue
						}
						x := join(xs...)
						if allowed("bare", x.name) && one("\n", blocks["bare"](x)) {
							return true
						}
						in := names
						if len(xs) > 2 {
							in = []string{[]string{"td", "para"}[i]}
						}
						for _, b := range in {
							if allowed(b, x.name) && one("\n", blocks[b](seq(word, x))) {
								return true
							}
						}
					}
					return false
				}
				for _, x := range elements {
					if sequence(n-1, append(xs[:len(xs):len(xs)], x)) {
						return true
					}
				}
				return false
			}
			for n := 2; n <= c.Pick(4, 5); n++ {
				if sequence(n, nil) {
					return
				}
			}
			// sequences of blocks
			contents := []inl{word, bold(word), spaced(word, link(twoWords), refAtom), inlineImage, seq(word, nowikiAtom)}
			var chapters func(n, turn int, bs []blk) bool
			chapters = func(n, turn int, bs []blk) bool {
				if n == 0 {
					for _, sep := range []string{"\n", "\n\n"} {
						if one(sep, bs...) {
							return true
						}
					}
					return false
				}
				for i, b := range names {
					x := contents[(i+len(bs)+turn)%len(contents)]
					if b == "bare" || !allowed(b, x.name) {
						x = contents[0]
					}
					if chapters(n-1, turn, append(bs[:len(bs):len(bs)], blocks[b](x))) {
						return true
					}
				}
				return false
			}
			for turn := range contents {
				for n := 2; n <= c.Pick(3, 4); n++ {
					if chapters(n, turn, nil) {
						return
					}
				}
			}
		}}
}

// allowed: what wikitext permits inside of what.
func allowed(outer, inner string) bool {
	in := func(s string) bool { return strings.Contains(inner, s) }
	switch outer {
	case "bare":
		// a line that's completely bold is like a heading
		var parts []string
		for _, p := range topLevel(inner) {
			if p != "_" && p != "comment" && p != "category" {
				parts = append(parts, p)
			}
		}
		return len(parts) > 1 || len(parts) == 1 && !strings.HasPrefix(parts[0], "italic(bold") && !strings.HasPrefix(parts[0], "bold")
	case "dl":
		return !in("punctuation") // a colon ends the term
	case "bold", "italic", "bolditalic":
		return !in("bold") && !in("italic") || (outer == "bold" && !in("bold")) || (outer == "italic" && !in("italic") && !in("bolditalic"))
	case "link", "extlink":
		return !in("link") && !(outer == "link" && in("icon")) && !(outer == "extlink" && in("odd")) // no links and no pictures within links, no "]" within external ones
	case "ref", "references":
		return !in("ref")
	}
	return true
}

// topLevel splits the name of a sequence.
func topLevel(name string) (parts []string) {
	depth, start := 0, 0
	for i, r := range name {
		switch {
		case r == '(':
			depth++
		case r == ')':
			depth--
		case r == '+' && depth == 0:
			parts = append(parts, name[start:i])
			start = i + 1
		}
	}
	return append(parts, name[start:])
}

func isQuoted(x inl) bool {
	return strings.HasPrefix(x.name, "bold") || strings.HasPrefix(x.name, "italic")
}
