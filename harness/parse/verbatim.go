package main

import (
	"fmt"
	"html"
	"slices"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// nowikiOf and mathOf are the verbatim pieces with the given content.
func nowikiOf(content string) inl {
	return inl{"nowiki", func(e *env) (string, nodes) {
		e.areas = append(e.areas, "<nowiki>"+content+"</nowiki>")
		return "<nowiki>" + content + "</nowiki>", text(html.UnescapeString(content))
	}}
}

func mathOf(tag, content string) inl {
	return inl{"math", func(e *env) (string, nodes) {
		e.math = append(e.math, content)
		e.areas = append(e.areas, tag+content+"</math>")
		return tag + content + "</math>", nodes{mathNode()}
	}}
}

// inTemplate passes x to a template, which shows it in parentheses.
func inTemplate(x inl) inl {
	return inl{"{{" + x.name + "}}", func(e *env) (string, nodes) {
		before := len(e.areas)
		w, n := x.write(e)
		e.passed = append(e.passed, e.areas[before:]...)
		return "{{t|" + w + "|end}}", append(append(text("(t "), n...), vlib.Txt(" end)"))
	}}
}

// parentheses evaluates a template of inTemplate.
func parentheses(t string) string {
	t = strings.TrimSuffix(strings.TrimPrefix(t, "{{t|"), "|end}}")
	return "(t " + t + " end)"
}

func checkC18() *vlib.Check {
	return &vlib.Check{ID: "C18", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "every sequence of wikitext fragments appears literally in the generated HTML when written in a nowiki area and reaches the formula service unchanged when written in a formula, in every context; the text around it is not affected; a template gets its parameters unchanged",
		Bounds:      map[string]string{"quick": "all sequences of up to 2 of 93 fragments in 22 blocks; of 3 of 23 fragments in 4 blocks; the tag in 3 other notations with up to 2 fragments; as parameter of a template, alone and next to other templates, with and without characters of several bytes; hidden in comments; pairs of areas with all fragments around text and templates; 12, 101 and 1001 equal and different areas; areas of up to 1100000 characters that differ at one place", "thorough": "sequences of 3 of 93 fragments in 4 blocks, of 4 of 23"},
		Assumptions: []string{"the text contains neither the end of its area nor the program's internal placeholders"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			var all, few []string
			for _, f := range append(append([]string{}, fragments...), words...) {
				if !strings.ContainsAny(f, "\x00\xff\r") && !strings.Contains(f, "nowiki>") && !strings.Contains(f, "NoWiki>") && !strings.Contains(f, "$$T") && !strings.Contains(f, "math>") {
					all = append(all, f)
				}
			}
			for _, f := range structural {
				if !strings.Contains(f, "nowiki>") {
					few = append(few, f)
				}
			}
			one := func(block string, x inl) bool {
				d := write("\n", blocks[block](x))
				return c.Do(d.wiki, func() vlib.Outcome {
					svc := newService()
					svc.expand = parentheses
					out := d.check(svc)
					for _, p := range d.e.passed {
						if out.Bad == "" && !slices.ContainsFunc(svc.evaluated, func(t string) bool { return strings.Contains(normal(t), normal(p)) }) {
							out.Bad = fmt.Sprintf("the parameter %q of a template was not passed: %q", p, svc.evaluated)
						}
					}
					return out
				})
			}
			in := func(blocks []string, content string) bool {
				for _, b := range blocks {
					for _, x := range []inl{nowikiOf(content), mathOf("<math>", content), mathOf("<math display=\"block\">", content)} {
						if one(b, x) {
							return true
						}
					}
				}
				return false
			}
			var rec func(alphabet []string, n int, text string, f func(string) bool) bool
			rec = func(alphabet []string, n int, text string, f func(string) bool) bool {
				if n == 0 {
					return f(text)
				}
				for _, a := range alphabet {
					if rec(alphabet, n-1, text+a, f) {
						return true
					}
				}
				return false
			}
			everywhere, some := blockNames(), []string{"para", "ul", "td", "thumb"}
			for n := 0; n <= 2; n++ {
				if rec(all, n, "", func(s string) bool { return in(everywhere, s) }) {
					return
				}
			}
			if rec(few, c.Pick(3, 4), "", func(s string) bool { return in(some, s) }) {
				return
			}
			if c.Thorough() && rec(all, 3, "", func(s string) bool { return in(some, s) }) {
				return
			}
			// other notations of the tag
			for _, tag := range []string{"NOWIKI", "NoWiki", "nowikI"} {
				for n := 0; n <= 2; n++ {
					alphabet, blocks := all, some
					if n == 2 {
						alphabet = few
					}
					if n < 2 {
						blocks = everywhere
					}
					if rec(alphabet, n, "", func(s string) bool {
						x := inl{"nowiki", func(e *env) (string, nodes) {
							return "<" + tag + ">" + s + "</" + tag + ">", text(html.UnescapeString(s))
						}}
						for _, b := range blocks {
							if one(b, x) || n < 2 && one(b, seq(nowikiOf("''"), word, x, bold(word), x, mathOf("<math>", "a<b"))) {
								return true
							}
						}
						return false
					}) {
						return
					}
				}
			}
			// as parameter: templates are evaluated by Wikipedia before, where comments, categories and lists are cleaned up as well
			var inner []string
			for _, f := range few {
				if !strings.ContainsAny(f, "*:\n") && f != "<!--" && f != "[[" {
					inner = append(inner, f)
				}
			}
			for n := 0; n <= 3; n++ {
				if rec(inner, n, "", func(s string) bool {
					for _, b := range some {
						for _, x := range []inl{nowikiOf(s), mathOf("<math>", s), nowikiOf("ü" + s + "€"), mathOf("<math>", s+"ß")} {
							if one(b, inTemplate(x)) || one(b, inTemplate(spaced(word, x, word, inTemplate(word)))) || one(b, inTemplate(spaced(inTemplate(word), x, word))) || one(b, seq(x, inTemplate(seq(inTemplate(seq(word, x)), word, x)), x)) {
								return true
							}
						}
					}
					return false
				}) {
					return
				}
			}
			// hidden in comments
			for n := 0; n <= 2; n++ {
				if rec(few, n, "", func(s string) bool {
					if strings.Contains(s, "-->") {
						return false
					}
					for _, area := range []string{"<nowiki>" + s + "</nowiki>", "<math>" + s + "</math>", "</math>" + s + "<math>", "<nowiki>" + s} {
						hidden := inl{"comment", func(e *env) (string, nodes) { return "<!-- " + area + " -->", nil }}
						for _, b := range some {
							if one(b, seq(word, hidden, nowikiOf("'' -->"), hidden, mathOf("<math>", "<!--"), word, hidden)) {
								return true
							}
						}
					}
					return false
				}) {
					return
				}
			}
			// many areas, long ones that differ at one place
			for _, n := range []int{12, 101, 1001} {
				for _, b := range some {
					same, different := []inl{word}, []inl{word}
					for i := 0; i < n; i++ {
						same = append(same, nowikiOf("''a''"), mathOf("<math>", "\\frac{a}{b}"))
						different = append(different, nowikiOf(fmt.Sprintf("[[x%d]]", i)), word, mathOf("<math>", fmt.Sprintf("x_{%d}<y", i)), literal(" "))
					}
					for _, xs := range [][]inl{same, different} {
						if n < 1000 && one(b, seq(xs...)) || one(b, spaced(xs...)) {
							return
						}
					}
					if n < 1000 && one(b, spaced(different[0], inTemplate(seq(different[1:]...)), word)) {
						return
					}
				}
			}
			for _, n := range []int{20, 60, 64, 100, 128, 250, 256, 1000, 1024, 5000, 70000, 1100000} {
				s := strings.Repeat("a", n)
				for _, b := range some {
					for _, f := range []func(string) inl{nowikiOf, func(s string) inl { return mathOf("<math>", s) }, func(s string) inl { return mathOf("<math display=\"block\">", s) }} {
						if one(b, spaced(f(s+"1"), f(s+"2"), word, f("1"+s), f("2"+s), f(s+"1"+s), f(s+"2"+s), f(s+"1"))) || n <= 5000 && one(b, inTemplate(spaced(word, f(s+"1"), f(s+"2"), f("1"+s), f("2"+s)))) {
							return
						}
					}
				}
			}
			// neighbours
			for _, v := range all {
				for _, w := range all {
					for _, b := range some {
						if one(b, seq(nowikiOf(v), bold(word), mathOf("<math>", w), italic(word), nowikiOf(w))) ||
							one(b, seq(nowikiOf(v+"ü"), inTemplate(word), mathOf("<math>", w+"é"), word, inTemplate(spaced(word, nowikiOf("''x"), word)), word)) {
							return
						}
					}
				}
			}
		}}
}
