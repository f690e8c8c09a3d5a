package main

import (
	"fmt"
	"regexp"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// markers: § stands where nothing but comments may be inserted, ¦ where anything may.
var cleanupDocs = []string{
	"¦a¦ b¦\n¦c¦\n\n¦d '''¦e¦''' f¦",
	"¦== h¦ i ==\n¦a¦\n¦=== j ===\n¦b",
	"¦* a¦\n¦* b¦\n** ¦c¦\n¦# d¦\n¦# ¦e",
	"¦; a¦\n: b¦\n¦c",
	"a¦\n\n¦{|\n! h¦\n! i ¦\n|-\n| c¦\n| ¦d\n* e¦\n|-\n|+ f¦\n|}¦\n¦g",
	"a¦<ref>¦b¦ c¦</ref>¦ d¦\n¦<references/>¦",
	"¦[[File:A.png|thumb|¦b¦ c¦]]¦\nd¦",
	"a [[B|¦c¦ d¦]]¦ [[E]]¦ [https://h.org ¦f¦]¦",
	"<gallery>\nA.png|¦b¦\nC.png|d¦\n</gallery>¦",
	"a {{e|¦b¦ c|d=¦}}¦ {{E}}¦e",
	"a <math>x</math>¦ <nowiki>''</nowiki>¦ <small>¦b¦</small>¦<br>¦",
	"'''a¦ ''b¦''' c''¦ d\n¦e",
}

// ownLine is a comment standing alone on its line (or lines), which vanishes together with the line.
var ownLine = regexp.MustCompile(`(?s)\n[ ]*<!--.*?-->[ ]*(\n)`)

func checkC17() *vlib.Check {
	comments := []string{"<!-- c -->", "<!---->", "<!--\n-->", "<!-- a\n\nb -->", "<!--== x ==-->", "<!-- {{ -->", "<!-- [[ -->", "<!-- ]] }} |} ''' -->", "<!-- </ref> -- - <b> -->", "<!-- <!-- -->", "<!--> -->", "<!-- c --><!-- d -->", "<!--\n* x\n-->"}
	things := []string{"[[Category:X]]", "[[category:X y|z]]", "[[KATEGORIE:ä]]", "[[de:X]]", "{{ign}}", "{{IGN|a|b}}", "{{ign\n|a = [[b|c]]\n|d\n}}", "{{ Ign |{{e|x}}}}", "{{two words|x={{ign|y}}}}", "{{Two words}}", "__NOTOC__", "[[Category:X]][[Category:Y]]", "{{ign}}<!-- x -->", "{{ign|<!-- }} -->}}", "{{ign|<nowiki>}}</nowiki>}}"}
	trailing := []string{"{{after}}", "{{After}}", "{{after|a}}", "{{ AFTER |a=b|{{e|c}}}}", "{{after|{{ign}}x}}", "{{after two|x}}", "{{after\n| a = b\n}}"}
	return &vlib.Check{ID: "C17", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "an article with comments, categories, foreign links, ignored templates or __NOTOC__ gives the same book as the article without them; trailing templates count as if they stood at the end; empty list entries and empty sections vanish and everything with text stays",
		Bounds:      map[string]string{"quick": "12 articles, each position, 13 comments, 15 other things, 7 trailing templates, all pairs of positions with 4 x 5 things; all sequences of up to 4 of 13 pieces with railway tables; all sequences of up to 5 of 16 lines", "thorough": "all pairs of things, sequences of up to 6 lines"},
		Assumptions: []string{"template names that only start with an ignored one are not covered", "sections without text but with subsections may stay or vanish"},
		Run: func(c *vlib.Ctx) {
			cfg := setup(c)
			cfg.CategoryPrefixes = []string{"category", "kategorie"}
			cfg.IgnoredTemplates = []string{"ign", "two words"}
			cfg.TrailingTemplates = []string{"after", "after two"}
			same := func(noisy, plain string) bool {
				return c.Do(noisy, func() (out vlib.Outcome) {
					svc, svc2 := newService(), newService()
					svc.expand, svc2.expand = evaluateCall, evaluateCall
					got, err := seen(noisy, svc)
					defer func(ignored, trailing []string) { cfg.IgnoredTemplates, cfg.TrailingTemplates = ignored, trailing }(cfg.IgnoredTemplates, cfg.TrailingTemplates)
					cfg.IgnoredTemplates, cfg.TrailingTemplates = nil, nil
					want, err2 := seen(plain, svc2)
					out.Observed = got
					a, b := normal(strings.Join(svc.evaluated, "|")), normal(strings.Join(svc2.evaluated, "|"))
					switch {
					case err != nil || err2 != nil:
						out.Bad = fmt.Sprintf("error %v, without it %v", err, err2)
					case got != want:
						out.Bad = "the result is " + got + " but without the removed parts " + want
					case a != b:
						out.Bad = "templates " + a + " but without the removed parts " + b
					}
					return
				})
			}
			// heads and ends of railway tables, which have no counterpart
			railway := []string{"«a {{b|x}}»", "«\n{{e|x}}\n»\n", "«»", "««a» b»", "«a«b»c»", "«\na «\n{{e|y}}\n» c\n»\n", "w", " ", "\n\n", "\n{|\n| w {{b|x}}\n|}\n", "\n* w\n* v\n", "\n== h ==\nw\n", "[[A|b]]"}
			var rail func(n int, text string) bool
			rail = func(n int, text string) bool {
				if n == 0 {
					return strings.Contains(text, "«") && same("w"+strings.NewReplacer("«", "{{BS-table}}", "»", "|}").Replace(text)+"v", "w"+strings.NewReplacer("«", "", "»", "").Replace(text)+"v")
				}
				for _, p := range railway {
					if rail(n-1, text+p) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(4, 5); n++ {
				if rail(n, "") {
					return
				}
			}
			clean := func(s string) string { return strings.ReplaceAll(s, "¦", "") }
			for _, doc := range cleanupDocs {
				parts := strings.Split(doc, "¦")
				at := func(s string, from, to int) string { return strings.Join(parts[from:to], "") + s }
				n := len(parts)
				base := clean(doc)
				// anything at each position between words
				for i := 1; i < n; i++ {
					for _, t := range things {
						if strings.HasPrefix(t, "{{") && strings.Contains(doc, "{{e|") && strings.HasSuffix(parts[i-1], "{{e|") {
							continue
						}
						if same(at(t, 0, i)+at("", i, n), base) {
							return
						}
					}
					for _, t := range trailing {
						if strings.Count(at("", 0, i), "{{") > strings.Count(at("", 0, i), "}}") {
							continue
						}
						end := strings.ReplaceAll(t, "{{ign}}", "")
						if same(at(t, 0, i)+at("", i, n), base+"\n"+end) {
							return
						}
						for _, t2 := range trailing[:4] {
							for j := i; j < n; j++ {
								if strings.Count(at("", 0, j), "{{") > strings.Count(at("", 0, j), "}}") {
									continue
								}
								if same(at(t, 0, i)+at(t2, i, j)+at("", j, n), base+"\n"+end+"\n"+t2) {
									return
								}
							}
						}
					}
				}
				// pairs
				pair := append([]string{"<!-- c -->", "<!--\n[[-->"}, "[[Category:X]]", "{{ign|a}}", "__NOTOC__")
				if c.Thorough() {
					pair = append(things, "<!-- c -->", "<!--\n[[-->")
				}
				for i := 1; i < n; i++ {
					for j := i; j < n; j++ {
						for _, t := range pair {
							for _, u := range pair {
								noisy := at(t, 0, i) + at(u, i, j) + at("", j, n)
								if ownLine.MatchString("\n" + noisy + "\n") {
									continue
								}
								if same(noisy, base) {
									return
								}
							}
						}
					}
				}
				// comments at each position
				for i := 0; i <= len(base); i++ {
					if i < len(base) && base[i]&0xC0 == 0x80 || strings.Count(base[:i], "<math>") > strings.Count(base[:i], "</math>") || strings.Count(base[:i], "<nowiki>") > strings.Count(base[:i], "</nowiki>") || inTag(base, i, "math") || inTag(base, i, "nowiki") {
						continue
					}
					for _, t := range comments {
						noisy := base[:i] + t + base[i:]
						if ownLine.MatchString("\n" + noisy + "\n") {
							continue
						}
						if same(noisy, base) {
							return
						}
					}
					// on lines of their own
					if i == 0 || base[i-1] == '\n' {
						for _, t := range comments {
							for _, s := range []string{t + "\n", " " + t + " \n", t + "\n" + t + "\n"} {
								if same(base[:i]+s+base[i:], base) {
									return
								}
							}
						}
					}
				}
				for _, t := range comments {
					if same(base+"\n"+t, base) || same(base+"\n"+t+"\n", base) {
						return
					}
				}
			}
			// sections and lists
			lines := []string{"=", "==", "===", "text", "", "*", "* item", "#:", "[[Category:X]]", "{{n}}", "<!-- c -->", "{{after|x}}", "letter", "* letter", "picture", "bold"}
			var rec func(n int, ls []int) bool
			rec = func(n int, ls []int) bool {
				if n == 0 {
					return c.Do(fmt.Sprint("lines", ls), func() vlib.Outcome { return sections(lines, ls) })
				}
				for l := range lines {
					if rec(n-1, append(ls[:len(ls):len(ls)], l)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(5, 6); n++ {
				if rec(n, nil) {
					return
				}
			}
		}}
}

// inTag tells whether the position is inside of a tag of that name.
func inTag(s string, i int, name string) bool {
	for _, t := range []string{"<" + name + ">", "</" + name + ">"} {
		for k := 0; ; {
			j := strings.Index(s[k:], t)
			if j < 0 {
				break
			}
			if k+j < i && i < k+j+len(t) {
				return true
			}
			k += j + len(t)
		}
	}
	return false
}

// sections writes an article of lines with numbered texts and checks which of the texts are in the book.
func sections(lines []string, ls []int) (out vlib.Outcome) {
	type entry struct {
		word  string
		level int // of headings
		semi  int // lines of only bold text are like headings: 1 when there's more behind it, 2 for the last line
	}
	var wiki []string
	var model, end []entry
	for i, l := range ls {
		w := fmt.Sprintf("w%d", i)
		switch s := lines[l]; {
		case strings.HasPrefix(s, "="):
			mark := s + "="
			wiki = append(wiki, mark+" "+w+" "+mark)
			model = append(model, entry{w, len(mark), 0})
		case s == "text":
			wiki = append(wiki, w)
			model = append(model, entry{w, 0, 0})
		case s == "* item":
			wiki = append(wiki, "* "+w)
			model = append(model, entry{w, 0, 0})
		case strings.HasSuffix(s, "letter"): // shortest text there is
			w = string(rune('A' + i))
			wiki = append(wiki, strings.TrimSuffix(s, "letter")+w)
			model = append(model, entry{w, 0, 0})
		case s == "bold":
			wiki = append(wiki, "'''"+w+"'''")
			semi := 1
			if i == len(ls)-1 {
				semi = 2
			}
			model = append(model, entry{w, 0, semi})
		case s == "picture":
			wiki = append(wiki, "[[File:P"+fmt.Sprint(i)+".png]]")
			model = append(model, entry{"P" + fmt.Sprint(i), 0, 0})
		case strings.HasPrefix(s, "{{after"):
			wiki = append(wiki, "{{after|"+w+"}}")
			end = append(end, entry{w, 0, 0})
		default:
			wiki = append(wiki, s)
		}
	}
	model = append(model, end...)
	svc := newService()
	svc.expand = evaluateCall
	r := render(strings.Join(wiki, "\n"), svc)
	if r.err != nil {
		out.Bad = "error: " + r.err.Error()
		return
	}
	body := vlib.BodyOf(r.html)
	out.Observed = body
	var got []entry
	for _, m := range regexp.MustCompile(`<h([1-6])>\s*(w\d)\s*</h|\b(w\d|[A-H]|P\d)\b`).FindAllStringSubmatch(body, -1) {
		level := 0
		if m[1] != "" {
			level = int(m[1][0] - '0')
		}
		got = append(got, entry{m[2] + m[3], level, 0})
	}
	// stays tells whether a text has to stay: one that's like a heading has to have text below it.
	stays := func(i int) bool {
		next := i + 1
		return model[i].semi == 0 || model[i].semi == 2 && next == len(model) || next < len(model) && model[next].level == 0 && model[next].semi == 0
	}
	k := 0
	for i, e := range model {
		may, must := true, stays(i)
		if e.level > 0 {
			must, may = false, false
			for j := i + 1; j < len(model); j++ {
				f := model[j]
				if f.level > 0 && f.level <= e.level {
					break
				}
				may = true
				if f.level == 0 && stays(j) {
					must = true
					break
				}
			}
		}
		switch found := k < len(got) && got[k].word == e.word && got[k].level == e.level; {
		case found && !may:
			out.Bad = fmt.Sprintf("the empty section %s is in the book: %s", e.word, body)
			return
		case !found && must:
			out.Bad = fmt.Sprintf("%s is missing, changed or at the wrong place: %s", e.word, body)
			return
		case found:
			k++
		}
	}
	if k < len(got) {
		out.Bad = fmt.Sprintf("%s is too much or at the wrong place: %s", got[k].word, body)
	} else if strings.Contains(body, "<li>\n</li>") || regexp.MustCompile(`<(li|div class="d[dt]")>\s*</`).MatchString(body) {
		out.Bad = "empty list entry: " + body
	}
	return
}
