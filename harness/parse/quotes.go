package main

import (
	"strings"
	"wiki2book/zz_verif/vlib"
)

// quotes writes text whose style is switched by apostrophes: two switch italic, three bold, five both.
func quotes(parts []string) (inl, bool) {
	bold, italic := false, false
	valid := true
	for i, p := range parts {
		switch p {
		case "''":
			italic = !italic
		case "'''":
			bold = !bold
		case "'''''":
			bold, italic = !bold, !italic
		case "\n":
			valid = valid && !bold && !italic
		}
		if i > 0 && p[0] == '\'' && parts[i-1][0] == '\'' {
			valid = false
		}
	}
	if bold || italic || !valid || strings.TrimSpace(strings.Join(parts, "")) == "" {
		return inl{}, false
	}
	return inl{"quotes", func(e *env) (string, nodes) {
		wiki := ""
		var out nodes
		bold, italic := false, false
		for _, p := range parts {
			w := p
			switch p {
			case "''":
				italic = !italic
			case "'''":
				bold = !bold
			case "'''''":
				bold, italic = !bold, !italic
			default:
				var n nodes
				if p == "a" {
					w = e.word()
					n = text(w)
				} else if p == "\n" {
					w = "\n" + e.word()
					n = text(w)
				} else if p == "'" || p == " " {
					n = text(p)
				} else if p == "[" {
					w, n = plainLink.write(e)
				}
				if italic {
					n = nodes{vlib.El("i", n...)}
				}
				if bold {
					n = nodes{vlib.El("b", n...)}
				}
				out = append(out, n...)
			}
			wiki += w
		}
		return wiki, out
	}}, true
}

func checkC14() *vlib.Check {
	return &vlib.Check{ID: "C14", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "every word has exactly the style given by the apostrophes in front of it",
		Bounds:      map[string]string{"quick": "all sequences of up to 6 of 7 pieces (words, blanks, links, single apostrophes, the three marks) in 21 blocks, up to 8 in paragraphs with several lines, up to 11 of words and marks; all sequences of up to 5 words and marks repeated 12, 101 and 501 times on one line and on as many lines; words of up to 1100000 characters", "thorough": "7 pieces in all blocks, 9 in paragraphs, 13 of words and marks"},
		Assumptions: []string{"marks are closed on their line and separated by text"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			var rec func(alphabet []string, n int, parts, blockNames []string) bool
			rec = func(alphabet []string, n int, parts, in []string) bool {
				if n == 0 {
					x, ok := quotes(parts)
					if !ok {
						return false
					}
					for _, b := range in {
						d := write("\n", blocks[b](x))
						if c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) }) {
							return true
						}
					}
					return false
				}
				for _, a := range alphabet {
					if rec(alphabet, n-1, append(parts[:len(parts):len(parts)], a), in) {
						return true
					}
				}
				return false
			}
			// many marks on one line and on many lines, long words
			scale := func(p []string) bool {
				x, ok := quotes(p)
				if !ok {
					return false
				}
				for _, n := range []int{12, 101, 501} {
					for _, b := range []string{"para", "ul", "td", "thumb"} {
						if n == 501 && b != "para" {
							continue
						}
						d := write("\n", blocks[b](times(n, spaced(word, x, word))))
						if c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) }) {
							return true
						}
						var bs []blk
						for i := 0; i < n; i++ {
							bs = append(bs, blocks[b](spaced(word, x)))
						}
						d = write("\n", bs...)
						if c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) }) {
							return true
						}
					}
				}
				return false
			}
			var short func(n int, p []string) bool
			short = func(n int, p []string) bool {
				if n == 0 {
					return scale(p)
				}
				for _, a := range []string{"a", "''", "'''", "'''''"} {
					if short(n-1, append(p[:len(p):len(p)], a)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(5, 7); n++ {
				if short(n, nil) {
					return
				}
			}
			for _, n := range []int{255, 4100, 70000, 1100000} {
				for _, x := range []inl{bold(long(n)), italic(long(n)), bold(italic(long(n))), spaced(bold(long(n)), italic(long(n)), word), bold(spaced(word, italic(long(n)), word))} {
					for _, b := range []string{"para", "ul", "td", "thumb"} {
						d := write("\n", blocks[b](x))
						if c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) }) {
							return
						}
					}
				}
			}
			alphabet := []string{"a", " ", "''", "'''", "'''''", "[", "'"}
			everywhere := []string{}
			for _, b := range blockNames() {
				if b != "bare" {
					everywhere = append(everywhere, b)
				}
			}
			for n := 1; n <= c.Pick(6, 7); n++ {
				if rec(alphabet, n, nil, everywhere) {
					return
				}
			}
			alphabet[len(alphabet)-1] = "\n"
			for n := 1; n <= c.Pick(8, 9); n++ {
				if rec(alphabet, n, nil, []string{"para"}) {
					return
				}
			}
			alphabet = []string{"a", "''", "'''", "'''''"}
			for n := 9; n <= c.Pick(11, 13); n++ {
				if rec(alphabet, n, nil, []string{"para"}) {
					return
				}
			}
		}}
}
