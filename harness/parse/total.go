package main

import (
	"strings"
	"wiki2book/generator"
	"wiki2book/zz_verif/vlib"
)

var fragments = []string{"a", " ", "\n", "[[", "]]", "[", "]", "|", "{{", "}}", "{|", "|}", "|-", "|+", "!", "=", "''", "'", "<ref>", "</ref>", "<ref name=a/>", "<ref name=a>", "<references/>", "<references>", "</references>",
	"<nowiki>", "</nowiki>", "<math>", "</math>", "<gallery>", "</gallery>", "<imagemap>", "</imagemap>", "File:", "Category:", "*", "#", ":", ";", "<!--", "-->", "http://x", "ftp://x", "$$", "$$TEMPLATE_PLACEHOLDER_", "px", "mini", "<ref", "name=\"", "ä"}

// more words with a meaning somewhere
var words = []string{"200px", "x50px", "1x2x3px", "px", "x", "colspan=2", "rowspan=\"", "style=\"text-align:left;", "name=", "group=a", "/>", ">", "<", "<li", "<li value=2>", "</li>", "__NOTOC__", "{{BS-table}}", "{{!}}", "<math", "<gallery",
	"<imagemap", "a.svg", "a.pdf", "a.webp", "Datei:", "de:", "arxiv:", "[[:", "#a", "thumb", "alt=", "\t", "\r", "\u00a0", "😀", "\"", "==a==", "'''a'''", "%20", "_", "-", "+", "&amp;", "<br>", "{|a", "{{a|", "</re", "<references group=a>", "{|\n|", "|-\n", "\n\n",
	"<REF>", "<NoWiki>", "</GALLERY>", "mailto:", "https://", "//", "$$TOKEN_", "_0$$", "\x00", "\xff"}

var contexts = []string{"%", "[[File:%]]", "[[File:a.png|thumb|%]]", "[[%]]", "[[a|%]]", "[http://a %]", "[%]", "<ref>%</ref>", "<ref name=%>b</ref>", "<ref %/>", "* %", "** %", "; %", ":%", "{|\n|%\n|}", "{|\n!%\n|-\n|}", "{|\n|+%\n|}", "{|\n|a=1|%\n|}",
	"{|\n%\n|}", ":{|\n%\n|}", "{|%\n|}", "<gallery>\n%\n</gallery>", "<gallery>%</gallery>", "<imagemap>\n%\n</imagemap>", "== % ==", "===%", "'''%'''", "''%''", "<nowiki>%</nowiki>", "<math>%</math>", "<!--%-->", "{{%}}", "{{a|%}}", "<references>%</references>", "a\n\n%\n\nb"}

// the ones with counterparts
var structural = []string{"a", "\n", "[[", "]]", "|", "{|", "|}", "=", "''", "'", "<ref>", "</ref>", "<references/>", "<nowiki>", "<gallery>", "</gallery>", "<imagemap>", "File:", "*", ":", "<!--", "$$", "<ref", "[", "{{", "}}"}

func run(text string, svc *service) vlib.Outcome {
	r := render(text, svc)
	if r.err != nil {
		return vlib.Outcome{Trivial: true, Observed: "error"}
	}
	g := generator.NewStatsGenerator(r.article.TokenMap)
	if _, err := g.Generate(r.article); err != nil {
		return vlib.Outcome{Trivial: true, Observed: "error"}
	}
	return vlib.Outcome{Observed: r.html}
}

func checkC20() *vlib.Check {
	return &vlib.Check{ID: "C20", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule: "every sequence of wikitext fragments up to the bound is tokenized and turned into HTML and statistics; panics, fatal errors and endless loops are violations, ordinary errors are not; non-trivial when an article came out",
		Bounds: map[string]string{"quick": "all sequences of up to 3 of 50 fragments, of 4 of 26, of up to 5 of 8 pieces of apostrophes; all pairs of 107 fragments in 35 contexts; all triples of contexts with 11 fragments; repetitions; all pairs of fragments as result of a template between all pairs of 12 fragments",
			"thorough": "all sequences of 4 of 50 fragments, of 5 of 26, of 7 pieces of apostrophes; all triples of 107 fragments in 35 contexts; all triples of contexts with 107 fragments"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			one := func(text string) bool {
				return c.Do(text, func() vlib.Outcome { return run(text, newService()) })
			}
			var rec func(alphabet []string, n int, text []string) bool
			rec = func(alphabet []string, n int, text []string) bool {
				if n == 0 {
					return one(strings.Join(text, ""))
				}
				for _, a := range alphabet {
					if rec(alphabet, n-1, append(text[:len(text):len(text)], a)) {
						return true
					}
				}
				return false
			}
			var repeat func(alphabet []string, n int, text []string) bool
			repeat = func(alphabet []string, n int, text []string) bool {
				if n == 0 {
					return one(strings.Repeat(strings.Join(text, ""), 41))
				}
				for _, a := range alphabet {
					if repeat(alphabet, n-1, append(text[:len(text):len(text)], a)) {
						return true
					}
				}
				return false
			}
			var pump func(n int, text []string) bool
			pump = func(n int, text []string) bool {
				if n == 0 {
					for _, times := range []int{7, 60} {
						if one(strings.Repeat(strings.Join(text, ""), times)) {
							return true
						}
					}
					return false
				}
				for _, a := range fragments {
					if pump(n-1, append(text[:len(text):len(text)], a)) {
						return true
					}
				}
				return false
			}
			for n := 0; n <= c.Pick(3, 4); n++ {
				if rec(fragments, n, nil) {
					return
				}
			}
			if rec(structural, c.Pick(4, 5), nil) {
				return
			}
			// everything within everything
			all := append(append([]string{}, fragments...), words...)
			var within func(n int, text string) bool
			within = func(n int, text string) bool {
				if n == 0 {
					for _, context := range contexts {
						if one(strings.ReplaceAll(context, "%", text)) {
							return true
						}
					}
					return false
				}
				for _, a := range all {
					if within(n-1, text+a) {
						return true
					}
				}
				return false
			}
			for n := 0; n <= c.Pick(2, 3); n++ {
				if within(n, "") {
					return
				}
			}
			inside := []string{"", "a", "|", "\n", "]", "[[", "]]", "<ref", "|}", "$$", "''"}
			if c.Thorough() {
				inside = all
			}
			for _, outer := range contexts {
				for _, middle := range contexts {
					for _, inner := range contexts {
						for _, a := range inside {
							if one(strings.ReplaceAll(outer, "%", strings.ReplaceAll(middle, "%", strings.ReplaceAll(inner, "%", a)))) {
								return
							}
						}
					}
				}
			}
			// apostrophes of all lengths
			quotes := []string{"'", "''", "'''", "''''", "'''''", "a", "\n", "''''''a"}
			for n := 1; n <= c.Pick(5, 7); n++ {
				if rec(quotes, n, nil) || n <= c.Pick(3, 5) && repeat(quotes, n, nil) {
					return
				}
			}
			// templates expanding to anything
			around := []string{"a", "\n", "[[", "|", "{|\n|", "*", "''", "<ref>", "{{", "File:", "<nowiki>", "}}"}
			if c.Thorough() {
				around = structural
			}
			for _, before := range around {
				for _, a := range fragments {
					for _, b := range fragments {
						for _, after := range around {
							if c.Do(before+"{{t}}"+after+" with t = "+a+b, func() vlib.Outcome {
								svc := newService()
								svc.expand = func(string) string { return a + b }
								return run(before+"{{t}}"+after, svc)
							}) {
								return
							}
						}
					}
				}
			}
			// the same again and again
			for n := 1; n <= c.Pick(2, 3); n++ {
				if pump(n, nil) {
					return
				}
			}
		}}
}
