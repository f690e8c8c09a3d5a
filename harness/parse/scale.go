package main

import (
	"fmt"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// times repeats x, separated by blanks.
func times(n int, x inl) inl {
	xs := make([]inl, n)
	for i := range xs {
		xs[i] = x
	}
	out := spaced(xs...)
	out.name = fmt.Sprintf("%s*%d", x.name, n)
	return out
}

// long is a word of n characters.
func long(n int) inl {
	return inl{fmt.Sprintf("long%d", n), func(e *env) (string, nodes) {
		w := e.word() + strings.Repeat("ab", n/2)
		return w, text(w)
	}}
}

// largeDocuments: many elements, many blocks, long words, deep nesting, line ends of other systems.
func largeDocuments(c *vlib.Ctx, elements []inl) bool {
	names := blockNames()
	one := func(sep string, bs ...blk) bool {
		d := write(sep, bs...)
		return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
	}
	for _, n := range []int{12, 101, 1001} {
		for _, x := range elements {
			if x.name == "comment" || x.name == "category" {
				x = spaced(word, x)
			}
			many := times(n, x)
			many.name = x.name + "+" + x.name
			for _, b := range names {
				if allowed(b, many.name) && (n < 1000 || b == "td" || b == "para" || b == "ul") {
					if one("\n", blocks[b](seq(word, many))) {
						return true
					}
				}
			}
		}
		for _, b := range names {
			for _, sep := range []string{"\n", "\n\n"} {
				if n > 1000 && sep == "\n\n" {
					continue
				}
				var bs []blk
				for i := 0; i < n; i++ {
					bs = append(bs, blocks[b](spaced(word, link(word))))
				}
				if one(sep, bs...) {
					return true
				}
			}
		}
	}
	// long words
	for _, n := range []int{255, 4100, 70000, 1100000} {
		for _, b := range names {
			for _, x := range []inl{long(n), bold(long(n)), link(long(n)), spaced(word, long(n), word)} {
				if n > 100000 && x.name != "long1100000" || !allowed(b, x.name) {
					continue
				}
				if one("\n", blocks[b](x)) {
					return true
				}
			}
		}
	}
	// deep nesting
	for _, b := range names {
		for n := 4; n <= 40; n += 9 {
			x := word
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					x = small(x)
				} else {
					x = span(x)
				}
			}
			for _, y := range []inl{x, bold(x), italic(link(bold(x)))} {
				if allowed(b, y.name) && one("\n", blocks[b](spaced(word, y))) {
					return true
				}
			}
		}
	}
	// line ends of other systems, indented lines and blanks at the ends of lines
	for _, b := range names {
		for _, x := range elements {
			if x.name == "comment" || x.name == "category" {
				x = spaced(word, x)
			}
			if !allowed(b, x.name) {
				continue
			}
			for _, end := range []string{"\r\n", "\t\n", " \n", "\n \t", "\u00a0\n"} {
				d := write("\n", blocks[b](x), blocks["heading"](word), blocks["ul"](word))
				if strings.HasSuffix(end, "\u00a0\n") && b != "ul" {
					continue
				}
				d.wiki = strings.ReplaceAll(d.wiki, "\n", end)
				if c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) }) {
					return true
				}
			}
		}
	}
	return false
}
