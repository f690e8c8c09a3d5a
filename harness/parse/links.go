package main

import (
	"strings"
	"wiki2book/zz_verif/vlib"
)

func external(url string, x inl) inl {
	return inl{"[" + url, func(e *env) (string, nodes) {
		w, n := x.write(e)
		return "[" + url + " " + w + "]", nodes{vlib.ElA("a", map[string]string{"href": url}, n...)}
	}}
}

// literal is text that stays as it is.
func literal(s string) inl { return inl{s, func(e *env) (string, nodes) { return s, text(s) }} }

// gone is something that leaves no trace.
func gone(s string) inl { return inl{s, func(e *env) (string, nodes) { return s, nil }} }

// piped writes a link with a text, with the text only.
func piped(target string, x inl) inl {
	return inl{"[[" + target, func(e *env) (string, nodes) { w, n := x.write(e); return "[[" + target + "|" + w + "]]", n }}
}

// shown writes a link without text.
func shown(target, shown string) inl {
	return inl{target, func(e *env) (string, nodes) { return "[[" + target + "]]", text(shown) }}
}

func checkC16() *vlib.Check {
	return &vlib.Check{ID: "C16", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "every link shows exactly its text, external links with exactly their address; links with a foreign prefix and categories vanish, everything else stays",
		Bounds:      map[string]string{"quick": "all sequences of up to 4 of 27 pieces in 2 blocks, up to 3 in 21; all combinations of 32 targets or 24 addresses with 20 texts in 21 blocks; 12 of all pairs, 101 and 1001 of all pieces; targets, addresses and texts of up to 70000 characters", "thorough": "sequences of up to 5"},
		Assumptions: []string{"titles without the part in front of a colon being no allowed prefix (such links are removed by design)"},
		Run: func(c *vlib.Ctx) {
			cfg := setup(c)
			cfg.AllowedLinkPrefixes = []string{"arxiv", "doi"}
			cfg.CategoryPrefixes = []string{"category", "kategorie"}
			one := func(block string, x inl) bool {
				d := write("\n", blocks[block](x))
				return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
			}
			var everywhere []string
			for _, b := range blockNames() {
				if b != "bare" && b != "dl" && b != "dlline" { // colons
					everywhere = append(everywhere, b)
				}
			}
			pieces := []inl{
				word, literal(" "), plainLink, link(word), external("https://h.org/", word), literal("[x]"), shown("#s t", "#s t"), shown("W#s", "W"), piped("#s", word),
				literal("https://h.org/x"), literal("[https://h.org]"), inl{"ftp", func(e *env) (string, nodes) { w := e.word(); return "[ftp://h.org " + w + "]", text(w) }},
				catLink, gone("[[de:Word]]"), gone("[[Category:Word|sort]]"), shown("arxiv:12", "arxiv:12"), piped(":fr:Wort", word), literal("]"), literal("[x y]"), external("http://h.org", plainLink),
				piped("W", bold(word)), literal("|"), literal("[httpd x]"), shown("DOI:1", "DOI:1"), literal("in [a, b)"), literal("[[a b"), literal("[https://h.org a"),
			}
			// Pieces whose meaning depends on their neighbours.
			valid := func(xs []inl) bool {
				for i, x := range xs {
					if i == 0 {
						continue
					}
					p := xs[i-1].name
					for _, y := range xs[:i] { // not closed before, but now
						if y.name == "in [a, b)" || y.name == "[[a b" || y.name == "[https://h.org a" {
							if x.name == "]" || x.name == "[x]" || strings.HasPrefix(x.name, "[http") || x.name == "ftp" || x.name == "[x y]" {
								return false
							}
						}
					}
					if strings.HasPrefix(p, "https://") && x.name != " " || x.name == "]" && strings.HasPrefix(p, "[") {
						return false
					}
				}
				return true
			}
			var rec func(n int, in []string, xs []inl) bool
			rec = func(n int, in []string, xs []inl) bool {
				if n == 0 {
					if !valid(xs) {
						return false
					}
					for _, b := range in {
						if one(b, seq(append(append([]inl{word}, xs...), literal(" "), word)...)) {
							return true
						}
					}
					return false
				}
				for _, p := range pieces {
					if (p.name == "|" || strings.HasPrefix(p.name, "[https://h.org a") || p.name == "[[a b" || p.name == "]" || p.name == "[x]" || p.name == "[x y]") && (len(in) > 2) {
						continue
					}
					if rec(n-1, in, append(xs[:len(xs):len(xs)], p)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= 3; n++ {
				if rec(n, everywhere, nil) {
					return
				}
			}
			// nothing around the pieces
			var alone func(n int, xs []inl) bool
			alone = func(n int, xs []inl) bool {
				if n == 0 {
					if !valid(xs) {
						return false
					}
					for _, b := range []string{"td", "th", "tcaption", "bare"} {
						if one(b, seq(xs...)) {
							return true
						}
					}
					return false
				}
				for _, p := range pieces {
					if p.name == "|" || p.name == "[[a b" || p.name == "in [a, b)" || strings.HasPrefix(p.name, "[https://h.org a") {
						continue
					}
					if alone(n-1, append(xs[:len(xs):len(xs)], p)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= 3; n++ {
				if alone(n, nil) {
					return
				}
			}
			if rec(c.Pick(4, 5), []string{"para", "ul"}, nil) {
				return
			}
			texts := []inl{word, punct, twoWords, bold(word), italic(twoWords), spaced(word, bold(word), word), mathAtom, nowikiOf("|]]"), nowikiOf("''"), small(word), templateAtom, htmlAtom, refAtom,
				literal("a|b"), literal("a/b:c#d"), literal("é 漢 &amp; &lt;"), literal("x = y"), literal("https://h.org"), literal("#MeToo"), literal("* x"), literal("="), literal("(a) 'b'")}
			for _, t := range texts {
				for _, b := range everywhere {
					if t.name == "ref" && strings.HasPrefix(b, "ref") {
						continue
					}
					if strings.ContainsAny(t.name, "|") && (strings.HasPrefix(b, "td") || strings.HasPrefix(b, "th") || b == "imagemap" || b == "gallery" || b == "tcaption") {
						continue
					}
					amp := strings.NewReplacer("&amp;", "&", "&lt;", "<")
					shows := t
					if strings.Contains(t.name, "&amp;") {
						shows = inl{t.name, func(e *env) (string, nodes) { return t.name, text(amp.Replace(t.name)) }}
					}
					for _, target := range []string{"A", "A b", "A_b", " A ", "A (x)", "A's", "Äé漢", "A & B", "A/B", "A#s", "A#s:t", "#s", "a,b.c-d", "C++", "100%", "A=B", "A*", "1;2", "arxiv:1/2", "Arxiv:1", "DOI:1/x", "doi:10.1/x(1)", ":Category:A", ":de:A b", ":category:A", "A%20b", "A&nbsp;b", "A~b", "$1", "A?", "A!", "A\"b\""} {
						if one(b, spaced(word, piped(target, shows), word)) {
							return
						}
					}
					if t.name == "ref" || strings.Contains(t.name, "|]]") {
						continue
					}
					for _, url := range []string{"https://h.org", "http://h.org/", "https://h.org:80/a/b.html", "https://h.org/?a=b&c=d", "https://h.org/#x", "https://h.org/a(b)", "https://h.org/a,b;c", "https://h.org/%20%C3%A4", "https://h.org/ä", "https://h.org/a_b__c", "https://h.org/~a", "https://h.org/a:b", "https://h.org/*", "https://h.org/a=b", "https://h.org/$1", "https://user@h.org", "https://h.org/a+b", "https://h.org/!", "https://h.org/a'b", "http://[::1]/"[:7] + "1.2.3.4/x", "https://h.org/a--b", "https://h.org/File:a.jpg", "https://h.org/https://g.org/", "https://h.org/a;b#c:d"} {
						if one(b, spaced(word, external(url, shows), word)) {
							return
						}
					}
				}
			}
			// brackets that are no link although an address stands in them
			for _, t := range []string{"[x https://h.org]", "[see http://h.org]", "[1 ftp://h.org y]", "[x (https://h.org) y]", "[x, https://h.org/a]", "[a:b https://h.org]", "[a/b https://h.org]", "[x //h.org]", "[- https://h.org -]", "[x a://b]"} {
				for _, b := range everywhere {
					if one(b, spaced(word, literal(t), word)) || one(b, seq(word, literal(t), punct, literal(" "), plainLink)) {
						return
					}
				}
			}
			// many links, long ones
			for _, n := range []int{12, 101, 1001} {
				for i, p := range pieces {
					for j, q := range pieces {
						x := times(n, spaced(p, word, q))
						if n > 12 && j != (i+9)%len(pieces) || !valid([]inl{word, p, literal(" "), word, literal(" "), q, literal(" "), p, literal(" "), word, literal(" "), q}) {
							continue
						}
						if one("para", spaced(word, x, word)) || one("ul", spaced(word, x, word)) {
							return
						}
					}
				}
			}
			for _, n := range []int{100, 255, 256, 1024, 2048, 4096, 70000} {
				s := strings.Repeat("ab", n/2)
				for _, b := range everywhere {
					for _, x := range []inl{piped(s, word), piped(s+" (x)#y", bold(word)), shown(s, s), piped("A", long(n)), external("https://h.org/"+s, word), external("https://h.org/?"+s+"=1&b=2#"+s, long(n)), gone("[[de:" + s + "]]"), gone("[[Category:" + s + "|" + s + "]]"), external("https://h.org/", bold(long(n)))} {
						if one(b, spaced(word, x, word)) {
							return
						}
					}
				}
			}
			// links that vanish: prefixes in all notations
			for _, prefix := range []string{"de", "DE", "fr", "Category", "category", "CATEGORY", "Kategorie", "s", "wikt", "w:de", "commons", "Special"} {
				for _, rest := range []string{"A", "A b", "A#s", "A|b", "A|b:c", "", "ä (x)", "A|''b''", "A|[b]"} {
					for _, b := range everywhere {
						for _, x := range []inl{spaced(word, gone("[["+prefix+":"+rest+"]]"), word), seq(word, gone("[["+prefix+":"+rest+"]]"), gone("[["+prefix+":"+rest+"]]"), plainLink)} {
							if one(b, x) {
								return
							}
						}
					}
				}
			}
		}}
}
