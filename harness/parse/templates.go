package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// evaluateCall is the stand-in for Wikipedia: what a call without further calls inside becomes. The first letter of the name
// decides.
func evaluateCall(call string) string {
	body := strings.TrimSuffix(strings.TrimPrefix(call, "{{"), "}}")
	params := splitParams(body)
	name := params[0]
	params = params[1:]
	last := ""
	if len(params) > 0 {
		last = params[len(params)-1]
	}
	kind := "e"
	if n := strings.TrimSpace(name); n != "" {
		kind = strings.ToLower(n[:1])
	}
	switch kind {
	case "b":
		return "'''" + last + "'''"
	case "n":
		return ""
	case "k":
		return "[[Target|" + last + "]]"
	case "d":
		return last + " " + last
	case "l":
		return "\n* " + strings.Join(params, "\n* ") + "\n"
	case "h":
		return "\n== " + last + " ==\n" + last
	case "t":
		return "\n{|\n| " + strings.Join(params, "\n| ") + "\n|}\n"
	case "c":
		return last + "<!-- " + last + " -->[[Category:" + last + "]]"
	case "m":
		return "<math>" + last + "</math>"
	case "w":
		return "<nowiki>''" + last + "</nowiki>"
	case "y": // depends on each blank
		return strings.ReplaceAll(last, " ", "_")
	case "r":
		return "<ref>" + last + "</ref>"
	}
	if name != "" { // the case of the first letter has no meaning
		name = strings.ToLower(name[:1]) + name[1:]
	}
	return "(" + name + ":" + strings.Join(params, "/") + ")"
}

// splitParams splits at bars outside of links.
func splitParams(s string) (out []string) {
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case strings.HasPrefix(s[i:], "[["):
			depth++
		case strings.HasPrefix(s[i:], "]]"):
			depth--
		case s[i] == '|' && depth <= 0:
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

// expandAll is the model: every call is replaced by its result, inner calls first.
func expandAll(s string) (text string, innermost []string, calls int) {
	var b strings.Builder
	for i := 0; i < len(s); {
		if !strings.HasPrefix(s[i:], "{{") {
			b.WriteByte(s[i])
			i++
			continue
		}
		depth, j := 0, i
		for {
			if strings.HasPrefix(s[j:], "{{") {
				depth++
				j += 2
			} else if strings.HasPrefix(s[j:], "}}") {
				depth--
				j += 2
				if depth == 0 {
					break
				}
			} else {
				j++
			}
		}
		inner, in, n := expandAll(s[i+2 : j-2])
		innermost = append(innermost, in...)
		calls += n + 1
		if n == 0 {
			innermost = append(innermost, normal(s[i:j]))
		}
		b.WriteString(evaluateCall("{{" + inner + "}}"))
		i = j
	}
	return b.String(), innermost, calls
}

func normal(s string) string { return strings.Join(strings.Fields(s), " ") }

// seen is what a rendered text looks like.
func seen(wiki string, svc *service) (string, error) {
	r := render(wiki, svc)
	if r.err != nil {
		return "", r.err
	}
	body, err := vlib.Body(r.html)
	if err != nil {
		return "", err
	}
	body.Attr = nil
	return canonical(body) + " formulas " + strings.Join(svc.math, "|") + " pictures " + strings.Join(sorted(r.article.Images), "|"), nil
}

func checkC11() *vlib.Check {
	return &vlib.Check{ID: "C11", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "the book shows what it shows for the article in which each call is replaced by its result, inner calls first, also when every answer is kept under its cache key; calls without calls inside are requested as written; a failing request fails the article",
		Bounds:      map[string]string{"quick": "all sequences of up to 4 of 27 pieces (text and calls) in a paragraph, up to 2 in 21 blocks; all nestings of 27 pieces in 2 levels of 9 outer calls in 21 blocks; every single request failing in all nestings; all pairs of 42 almost equal calls in one article, nested, and in articles sharing the cache; 40 results through the real service at 18 places, first fetched, then cached; up to 600 calls or parameters, parameters of up to 300000 characters, nesting of up to 25 levels", "thorough": "sequences of up to 5, nestings of 3 levels in all blocks"},
		Assumptions: []string{"balanced braces, no calls in the prefixes of link targets", "white space within calls counts as one blank"},
		Run: func(c *vlib.Ctx) {
			cfg := setup(c)
			cfg.CategoryPrefixes = []string{"category"}
			check := func(wiki string, failing bool) bool {
				return c.Do(wiki+fmt.Sprintf("|failing=%v", failing), func() (out vlib.Outcome) {
					plain, innermost, calls := expandAll(wiki)
					if failing {
						for k := 0; k < calls; k++ {
							n := 0
							svc := newService()
							svc.EvaluateTemplateFunc = func(t, key string) (string, error) {
								n++
								if n == k+1 {
									return "", fmt.Errorf("no answer")
								}
								return evaluateCall(t), nil
							}
							if r := render(wiki, svc); r.err == nil && n > k {
								out.Bad = fmt.Sprintf("request %d failed, but the article was generated: %s", k+1, vlib.BodyOf(r.html))
							}
						}
						return
					}
					svc := newService()
					svc.expand = evaluateCall
					got, err := seen(wiki, svc)
					want, err2 := seen(plain, newService())
					out.Observed = got
					requests := map[string]bool{}
					for _, t := range svc.evaluated {
						requests[normal(t)] = true
					}
					i := slices.IndexFunc(innermost, func(s string) bool { return !requests[s] })
					switch {
					case err != nil || err2 != nil:
						out.Bad = fmt.Sprintf("error %v, without calls %v", err, err2)
					case got != want:
						out.Bad = "with calls " + got + " but with their results in place " + want
					case i >= 0 && !strings.Contains(wiki, "=="): // empty sections are removed before
						out.Bad = fmt.Sprintf("%q was not requested, but %q", innermost[i], svc.evaluated)
					case len(svc.evaluated) > calls:
						out.Bad = fmt.Sprintf("%d requests for %d calls", len(svc.evaluated), calls)
					}
					return
				})
			}
			in := func(block, content string) string {
				return write("\n", blocks[block](literal(content))).wiki
			}
			pieces := []string{"w", " ", "{{e}}", "{{e|x}}", "{{E x|x|y=1}}", "{{ e\n| x = 1\n| y\n}}", "{{b|x}}", "{{n}}", "{{n|x}}", "{{k|x}}", "{{d|x}}", "{{e|[[A|b]]}}", "{{e|''i''}}", "{{e|a=b|[https://h.org x]}}", "{{e|{x} y}}", "{{c|x}}", "{{m|x^2}}", "{{w|x}}", "{{r|x}}", "{{#e:x|y}}", "{{e|<br>}}", "{{e:ä/x y}}", "{{e|$1 \\2 %s}}", "{x}", "[x]", "'''f'''", "{{e|}}"}
			outer := []string{"{{e|%s}}", "{{e|p %s q|r}}", "{{b|%s}}", "{{d|%s}}", "{{k|%s}}", "{{e%s|x}}", "{{e\n| a = %s\n| b = {{d|z}}\n}}", "{{n|%s}}", "{{c|%s}}"}
			var names []string
			for _, b := range blockNames() {
				if b != "dl" && b != "dlline" { // colons
					names = append(names, b)
				}
			}
			var rec func(n int, blocks []string, s string) bool
			rec = func(n int, blocks []string, s string) bool {
				if n == 0 {
					for _, b := range blocks {
						if check(in(b, s), false) {
							return true
						}
					}
					return false
				}
				for _, p := range pieces {
					if rec(n-1, blocks, s+p) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(4, 5); n++ {
				bs := names
				if n > 2 {
					bs = []string{"para"}
				}
				if rec(n, bs, "") {
					return
				}
			}
			level := pieces[2:]
			for depth := 1; depth <= c.Pick(2, 3); depth++ {
				var next []string
				for _, x := range level {
					for _, o := range outer {
						next = append(next, strings.Replace(o, "%s", x, 1))
					}
				}
				level = next
				for _, x := range level {
					if check(in("para", x+" {{e|x}}"+x), true) {
						return
					}
					for _, b := range names {
						for _, s := range []string{x, "{{e|x}}" + x + "{{d|y}}"} {
							if check(in(b, s), false) {
								return
							}
						}
					}
				}
			}
			// calls which are almost the same, in one article and in two articles sharing the cache
			long := strings.Repeat("long text ", 60)
			alike := []string{"{{e|x}}", "{{e|X}}", "{{e|x|y}}", "{{e|y|x}}", "{{e|xy}}", "{{e|x y}}", "{{e|x_y}}", "{{e|x|}}", "{{e|x }}", "{{e| x}}", "{{ e|x}}", "{{e||x}}", "{{e|1=x}}", "{{ex}}", "{{eX}}", "{{e|x=y}}", "{{e|x-y}}", "{{e|x/y}}", "{{e|x.y}}", "{{e|ä}}", "{{e|a}}", "{{e|Ä}}", "{{e|x1}}", "{{e|x2}}", "{{e|x:y}}", "{{e|x?y}}", "{{e|x%y}}", "{{e:x}}", "{{e|" + long + "1}}", "{{e|" + long + "2}}", "{{e|1" + long + "}}", "{{e|2" + long + "}}", "{{e|" + long + "1" + long + "}}", "{{e|" + long + "2" + long + "}}", "{{e|[[x]]}}", "{{e|[[y|x]]}}", "{{b|x}}", "{{d|x}}", "{{y|a b}}", "{{y|a  b}}", "{{y| a   b }}", "{{y|ab}}"}
			for _, x := range alike {
				for _, y := range alike {
					if check("w "+x+" v "+y+" u", false) || check("w {{e|"+x+"}} v {{e|"+y+"}} u", false) {
						return
					}
					if c.Do("two articles|"+x+"|"+y, func() (out vlib.Outcome) {
						answers := map[string]string{}
						for _, wiki := range []string{"w " + x, "v " + y + " {{e|z" + y + "}}", x + y} {
							svc := newService()
							svc.expand = evaluateCall
							svc.answers = answers
							plain, _, _ := expandAll(wiki)
							got, err := seen(wiki, svc)
							want, err2 := seen(plain, newService())
							out.Observed += got
							if err != nil || err2 != nil || got != want {
								out.Bad = fmt.Sprintf("%q: with calls %s (%v), but with their results in place %s (%v)", wiki, got, err, want, err2)
								return
							}
						}
						return
					}) {
						return
					}
				}
			}
			// results as they come from Wikipedia through the real service, first fetched, then from the cache
			results := []string{"", " ", "x", " x", "x ", " x ", "x y ", "\nx", "x\n", "\n\nx\n\n", "\tx\t", "\u00a0x\u00a0", "\u2003x", "\u200bx\u200b", "\U0001f600 x", "a\"b\\c", "<b>x</b>", "<b> x </b>", "a &amp; b &lt; c", "a & b", "\\n\\u0041", "null", "{\"a\":{}}", "* x", "\n* x\n* y\n", "\n\n* x\n\n", "'''x", "''' x '''", "[[A|x]] ", " [[A]]", "\n{|\n| x\n|}\n", "=x=", "\n== x ==\n", "|x", "x|", "x||y", "%s %d", "$1", "x\r\ny", strings.Repeat("x ", 100000)}
			for _, result := range results {
				for _, wiki := range []string{"w{{q}}v", "w {{q}} v", "{{q}}", "{{q}}w", "w{{q}}", "{{q}}\n\nv", "w\n{{q}}\nv", "w\n{{q}}v", "w{{q}}\nv", "* {{q}}\n* v", "* w{{q}}v", "w{{q}}{{q}}v", "w {{p|{{q}}}} v", "w {{p|a{{q}}b|c}} v", "[[A|b{{q}}c]]", "{|\n|w{{q}}v||y\n|}", "w<ref>a{{q}}b</ref>", "== w{{q}}v ==\nx"} {
					if strings.ContainsAny(result, "\n|=[]'*") && (strings.Contains(wiki, "[[") || strings.Contains(wiki, "==") || strings.Contains(wiki, "{|")) || strings.Contains(wiki, "p|") && strings.ContainsAny(result, "|") || len(result) > 1000 && strings.Contains(wiki, "{{p") {
						continue // the result would change the markup around it
					}
					if c.Do("service|"+wiki+"|"+result[:min(len(result), 100)], func() (out vlib.Outcome) {
						dir := filepath.Join(cfg.CacheDir, "templates")
						os.RemoveAll(dir)
						os.MkdirAll(dir, 0755)
						requests := 0
						http.DefaultTransport = &vlib.Web{Expand: func(t string) string {
							requests++
							if t == "{{q}}" {
								return result
							}
							return "(" + strings.TrimSuffix(strings.TrimPrefix(t, "{{p|"), "}}") + ")"
						}}
						plain := strings.ReplaceAll(wiki, "{{q}}", result)
						if i := strings.Index(plain, "{{p|"); i >= 0 {
							j := strings.LastIndex(plain, "}}")
							plain = plain[:i] + "(" + plain[i+4:j] + ")" + plain[j+2:]
						}
						want, err2 := seen(plain, newService())
						for i := 0; i < 2; i++ {
							svc := newService()
							svc.EvaluateTemplateFunc = vlib.NewService().EvaluateTemplate
							got, err := seen(wiki, svc)
							out.Observed += got
							if err != nil || err2 != nil || got != want {
								out.Bad = fmt.Sprintf("run %d: with calls %.300s (%v), but with their results in place %.300s (%v)", i+1, got, err, want, err2)
								return
							}
						}
						if n := strings.Count(wiki, "{{"); requests > n {
							out.Bad = fmt.Sprintf("%d requests for %d calls in two runs", requests, n)
						}
						return
					}) {
						return
					}
				}
			}
			// many calls, long parameters, many parameters, deep nesting
			for _, n := range []int{12, 40, 150, 600} {
				for _, f := range []string{"{{e|x%d}} ", "{{e%d|x}} ", "{{d|{{b|x%d}}}} ", "{{e|x%d}}", "{{e|x}} %d", "{{c|x%d}} ", "{{n|x%d}} ", "{{e|a|{{e|%d}}|b}}\n\n", "\n* {{k|x%d}}"} {
					wiki := "w "
					for i := 0; i < n; i++ {
						wiki += fmt.Sprintf(f, i)
					}
					if check(wiki, n == 12) {
						return
					}
				}
				wiki, named := "w {{e", "w {{e"
				for i := 0; i < n; i++ {
					wiki += fmt.Sprintf("|p%d", i)
					named += fmt.Sprintf("\n| n%d = {{b|%d}} v", i, i%5)
				}
				if check(wiki+"}}", false) || check(named+"\n}} u", n == 12) {
					return
				}
			}
			for _, n := range []int{200, 255, 256, 1000, 2048, 4096, 8192, 65536, 300000} {
				p := strings.Repeat("a", n)
				for _, wiki := range []string{"w {{e|" + p + "}}", "w {{d|" + p + "}} {{b|" + p + "}}", "{{e|{{e|" + p + "}}|" + p + "}} u", "{{" + "e" + p + "|x}} {{e" + p + "|y}}", "{{e|" + p + "1}} {{e|" + p + "2}}", "{{e|1" + p + "}} {{e|2" + p + "}}", "{{l|" + p + "|" + p + "}}", "{{e|" + strings.Repeat("ä ", n/2) + "}}"} {
					if check(wiki, false) {
						return
					}
				}
			}
			for _, x := range []string{"x", "{{e|x}}", "{{k|x}}"} {
				for _, o := range outer {
					for _, n := range []int{4, 5, 7, 10, 15, 25} {
						if strings.HasPrefix(o, "{{d|%s") && n > 10 || strings.HasPrefix(o, "{{c") {
							continue // doubles each time, comments in comments
						}
						s := x
						for i := 0; i < n; i++ {
							s = strings.Replace(o, "%s", s, 1)
						}
						if check(s, n < 8) || check("w "+s+" {{e|x}} "+s, false) {
							return
						}
					}
				}
			}
			// calls that stand for blocks or parts of markup, on lines of their own
			lines := []string{"a", "{{l|x|y}}", "{{t|x|{{b|y}}}}", "{{h|x}}", "* a{{e|x}}", "== {{e|x}} ==", "", "{{n}}", "{{d|{{l|x|y}}}}", "{|\n| a {{e|x}}\n| {{l|x|y}}\n|}", "[[File:A.png|thumb|{{e|x}}]]", "* {{n}}", "<gallery>\nA.png|{{b|x}}\n</gallery>", "{{l|{{d|x}}|{{k|y}}}}", "<ref>{{d|x}}</ref>", "<math>x{{e}}</math>a", "[[{{e}}|b {{b|x}}]]"}
			lines = lines[:len(lines)-2] // formulas: see C18
			lines = append(lines, "[[A|b {{b|x}}]]", "[https://h.org {{b|x}}]")
			var walk func(n int, ls []string) bool
			walk = func(n int, ls []string) bool {
				if n == 0 {
					return check(strings.Join(ls, "\n"), false)
				}
				for _, l := range lines {
					if walk(n-1, append(ls[:len(ls):len(ls)], l)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(4, 5); n++ {
				if walk(n, nil) {
					return
				}
			}
		}}
}
