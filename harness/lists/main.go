// Lists: every sequence of list lines up to a bound, compared with an independent prefix-stack model.
package main

import (
	"fmt"
	"regexp"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// model follows the MediaWiki rule: a list line continues the lists of the previous line as far as the prefixes agree
// (see accepts), a line that is only deeper nests below the previous item.
type open struct {
	kind byte // '*' '#' ':'
	list *vlib.Node
	item *vlib.Node
}

// accepts: a definition list opened by a term (";") goes on with descriptions and terms, one opened by ":" (indentation)
// only with further indented lines.
func (o open) accepts(ch byte) bool { return o.kind == ch || (o.kind == ';' && ch == ':') }

func newList(kind byte) *vlib.Node {
	switch kind {
	case '*':
		return vlib.El("ul")
	case '#':
		return vlib.El("ol")
	}
	return vlib.ElA("div", map[string]string{"class": "description-list"})
}

func newItem(c byte) *vlib.Node {
	switch c {
	case '*', '#':
		return vlib.El("li")
	case ';':
		return vlib.ElA("div", map[string]string{"class": "dt"})
	}
	return vlib.ElA("div", map[string]string{"class": "dd"})
}

// contents of items apart from simple words.
var contents = []string{"w", "a : b", "a : b : c", "a: b; c # d * e", "x:", "'''b : c'''", "[[L|x : y]]", "[http://x.y/z:1 u : v]", "<li value=4> x", "<li value=\"4\">x</li>", "- x", "=x=", "-", "x ''y''"}

var brackets = regexp.MustCompile(`\[.*\]`)

// content returns what a content looks like.
func content(s string) []*vlib.Node {
	var out []*vlib.Node
	rest := s
	cut := func(mark, end string, f func(string) *vlib.Node) bool {
		before, inner, ok := strings.Cut(rest, mark)
		if !ok {
			return false
		}
		inner, after, ok := strings.Cut(inner, end)
		out = append(out, vlib.Txt(before), f(inner))
		rest = after
		return ok
	}
	switch {
	case cut("'''", "'''", func(x string) *vlib.Node { return vlib.El("b", vlib.Txt(x)) }):
	case cut("''", "''", func(x string) *vlib.Node { return vlib.El("i", vlib.Txt(x)) }):
	case cut("[[L|", "]]", func(x string) *vlib.Node { return vlib.Txt(x) }):
	case cut("[http://x.y/z:1", "]", func(x string) *vlib.Node {
		return vlib.ElA("a", map[string]string{"href": "http://x.y/z:1"}, vlib.Txt(strings.TrimSpace(x)))
	}):
	case cut("<li", ">", func(x string) *vlib.Node { return vlib.Txt("") }):
		rest = strings.TrimSuffix(rest, "</li>")
	}
	return append(out, vlib.Txt(rest))
}

func reference(lines []string) (*vlib.Node, []string) {
	root := vlib.El("body", vlib.El("h1", vlib.Txt("T")))
	var stack []open
	var states []string
	for _, line := range lines {
		n := 0
		for n < len(line) && strings.IndexByte("*#:;", line[n]) >= 0 {
			n++
		}
		prefix, text := line[:n], line[n:]
		if n == 0 {
			stack = nil
			if text != "" {
				root.Kids = append(root.Kids, vlib.Txt(" "+text+" "))
			}
			states = append(states, "-")
			continue
		}
		common := 0
		for common < n && common < len(stack) && stack[common].accepts(prefix[common]) {
			common++
		}
		stack = stack[:common]
		for i := common; i < n; i++ {
			l := newList(prefix[i])
			it := newItem(prefix[i])
			l.Kids = append(l.Kids, it)
			if i == 0 {
				root.Kids = append(root.Kids, l)
			} else {
				stack[i-1].item.Kids = append(stack[i-1].item.Kids, l)
			}
			stack = append(stack, open{prefix[i], l, it})
		}
		if common == n {
			it := newItem(prefix[n-1])
			stack[n-1].list.Kids = append(stack[n-1].list.Kids, it)
			stack[n-1].item = it
		}
		top := &stack[n-1]
		if prefix[n-1] == ';' {
			if k := strings.IndexByte(brackets.ReplaceAllStringFunc(text, func(s string) string { return strings.Repeat("-", len(s)) }), ':'); k >= 0 {
				top.item.Kids = append(top.item.Kids, content(text[:k])...)
				dd := newItem(':')
				top.list.Kids = append(top.list.Kids, dd)
				top.item = dd
				text = text[k+1:]
			}
		}
		if strings.HasPrefix(text, " <li value=") {
			top.item.Attr = map[string]string{"value": "4"}
		}
		top.item.Kids = append(top.item.Kids, content(text)...)
		s := ""
		for _, o := range stack {
			s += string(o.kind)
		}
		states = append(states, s+"|"+prefix)
	}
	return root, states
}

// mergeDl joins neighbouring description lists: one list or two following each other look the same.
func mergeDl(n *vlib.Node) *vlib.Node {
	if n.Tag == "" {
		return n
	}
	out := &vlib.Node{Tag: n.Tag, Attr: n.Attr}
	lastDl := (*vlib.Node)(nil)
	for _, k := range n.Kids {
		if k.Tag == "" && strings.TrimSpace(k.Text) == "" {
			continue
		}
		if k.Tag == "br" {
			lastDl = nil
			continue
		}
		k = mergeDl(k)
		if k.Attr["class"] == "description-list" {
			if lastDl != nil {
				lastDl.Kids = append(lastDl.Kids, k.Kids...)
				continue
			}
			lastDl = k
		} else {
			lastDl = nil
		}
		out.Kids = append(out.Kids, k)
	}
	return out
}

func run(c *vlib.Ctx) {
	vlib.NewWeb().Install()
	vlib.FreshConfig(c.Dir()).CacheEvictionStrategy = "none"
	gen := func(depth int) []string {
		out := []string{"", "P"}
		level := []string{""}
		for d := 0; d < depth; d++ {
			var next []string
			for _, p := range level {
				for _, ch := range "*#:;" {
					next = append(next, p+string(ch))
				}
			}
			out = append(out, next...)
			level = next
		}
		return append(out, ";!") // head and description on one line
	}
	check := func(lines []string) bool {
		text := strings.Join(lines, "\n")
		return c.Do(text, func() vlib.Outcome {
			ref, states := reference(lines)
			r := vlib.RenderArticle("T", text)
			if r.Err != nil {
				return vlib.Outcome{Bad: "error: " + r.Err.Error()}
			}
			body, err := vlib.Body(r.Html)
			if err != nil {
				return vlib.Outcome{Bad: "unparsable HTML: " + err.Error()}
			}
			opts := vlib.CanonOpts{DropTags: map[string]bool{}}
			body.Attr = nil
			got := vlib.Canon(mergeDl(body), opts)
			want := vlib.Canon(mergeDl(ref), opts)
			out := vlib.Outcome{Observed: got, States: states, Steps: int64(len(lines)), Trivial: !strings.ContainsAny(text, "*#:;")}
			if got != want {
				out.Bad = "list structure differs from the prefix rules: got " + got + " want " + want
				out.Detail = r.Html
			} else if b := vlib.TagBalance(vlib.BodyOf(r.Html)); b != "" {
				out.Bad = "markup not balanced: " + b
			}
			return out
		})
	}
	one := func(seq []string) bool {
		var lines []string
		for i, p := range seq {
			switch {
			case p == "":
				lines = append(lines, "")
			case p == "P":
				lines = append(lines, fmt.Sprintf("plain%d", i))
			case strings.HasSuffix(p, "!"):
				lines = append(lines, fmt.Sprintf("%s head%d : tail%d", p[:len(p)-1], i, i))
			default:
				lines = append(lines, fmt.Sprintf("%s w%d", p, i))
			}
		}
		return check(lines)
	}
	enumerate := func(alpha []string, n int) bool {
		seq := make([]string, n)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				return one(seq)
			}
			for _, a := range alpha {
				seq[i] = a
				if rec(i + 1) {
					return true
				}
			}
			return false
		}
		return rec(0)
	}
	for n := 1; n <= 3; n++ {
		if enumerate(gen(2), n) {
			return
		}
	}
	for n := 1; n <= 2; n++ {
		if enumerate(gen(3), n) {
			return
		}
	}
	if enumerate(gen(2), 4) {
		return
	}
	// longer lists with fewer prefixes
	for _, set := range []struct {
		alpha []string
		n     int
	}{
		{[]string{"*", "**", "***"}, 9},
		{[]string{"#", "##", "#*", "*"}, 7},
		{[]string{";", ":", "::", ";!"}, 7},
		{[]string{"#", "#*", "##", "#:", "P"}, c.Pick(6, 7)},
		{[]string{"*", "*#", "*#*", "*#:", ""}, c.Pick(6, 7)},
	} {
		for n := 5; n <= set.n; n++ {
			if enumerate(set.alpha, n) {
				return
			}
		}
	}
	// large lists: all patterns of up to two lines many times
	repeat := func(seq []string, n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, seq...)
		}
		return
	}
	two := gen(2)
	for _, n := range []int{11, 33, 120} {
		for _, x := range two {
			if one(repeat([]string{x}, n)) {
				return
			}
			for _, y := range two {
				if one(repeat([]string{x, y}, n)) || n == 33 && one(append(repeat([]string{x}, n), repeat([]string{y}, n)...)) {
					return
				}
			}
		}
	}
	for _, n := range []int{1000, 2500} {
		for _, x := range []string{"*", "#", ":", ";", "**", ";!"} {
			if one(repeat([]string{x}, n)) {
				return
			}
		}
	}
	// deep lists: downwards step by step or at once, back step by step or at once
	for _, base := range []string{"*", "#", ":", "*#", "#*", ":*", "*:", "#:", "*#:", "*;", "#*:"} {
		for _, depth := range []int{4, 6, 9, 10, 17, 30} {
			prefix := strings.Repeat(base, depth)[:depth]
			for way := 0; way < 8; way++ {
				var seq []string
				if way&1 == 0 {
					for i := 1; i < depth; i++ {
						seq = append(seq, prefix[:i])
					}
				}
				seq = append(seq, prefix)
				if way&4 != 0 {
					seq = append(seq, prefix)
				}
				if way&2 == 0 {
					for i := depth - 1; i > 0; i-- {
						seq = append(seq, prefix[:i])
					}
				} else {
					seq = append(seq, prefix[:1], prefix[:min(3, depth)], prefix[:1])
				}
				if one(seq) {
					return
				}
			}
		}
	}
	// long items
	for _, n := range []int{100, 255, 1024, 4100, 8192, 70000, 1100000} {
		for _, p := range []string{"*", "#", ":", ";", "**", "#*"} {
			long := p + " " + strings.Repeat("w ", n/2)
			if check([]string{long, p + " v"}) || check([]string{"* u", long + "x", p + "* v", "P"}) || check([]string{long, long, "", "# u"}) {
				return
			}
		}
	}
	// contents of items
	var items []string
	for _, p := range []string{"*", "#", ":", ";", "**", "#:", "*;", "::"} {
		for _, x := range contents {
			last := p[len(p)-1]
			if strings.HasPrefix(x, "<li") && (last == ':' || last == ';') || strings.HasPrefix(x, "'''") && last == ';' {
				continue
			}
			items = append(items, p+" "+x)
		}
	}
	for _, x := range items {
		if check([]string{x}) {
			return
		}
		closed := strings.Contains(x, "</li>") // a list behind a closed item is not part of the item
		for _, y := range items {
			if closed && y[1] != ' ' {
				continue
			}
			if check([]string{x, y}) {
				return
			}
			for _, z := range []string{"* z", "# z", "** z", "#* z", ": z", ":* z", "; z", "z"} {
				if !closed && !strings.Contains(y, "</li>") && check([]string{x, y, z}) {
					return
				}
			}
		}
	}
	if c.Thorough() {
		if enumerate(gen(1), 6) || enumerate(gen(3), 3) || enumerate(gen(2), 5) {
			return
		}
	}
}

func main() {
	vlib.Main(&vlib.Check{ID: "C12", Level: "model_checking",
		Rule:        "every sequence of list lines over all prefixes of * # : ; up to the bound (plus plain and blank lines and head-with-description lines); non-trivial when the text contains a list line",
		Bounds:      map[string]string{"quick": "<=4 lines with prefixes of length <=2, <=2 lines with prefixes <=3; <=9 lines of three prefixes, <=6-7 lines of four sets of 4-5 prefixes; all patterns of up to two lines repeated 11, 33 and 120 times, single ones 1000 and 2500 times; items of up to 1100000 characters; nesting of up to 30 levels in 11 patterns of prefixes, in 8 ways; all pairs of items with 14 contents behind 8 prefixes, followed by 8 kinds of lines", "thorough": "additionally 3 lines with prefixes <=3, 5 lines with prefixes <=2, 6 lines with prefixes of length 1"},
		Assumptions: []string{"two neighbouring description lists count as one (same appearance)"},
		QuickS:      600, ThoroughS: 900, Run: run})
}
