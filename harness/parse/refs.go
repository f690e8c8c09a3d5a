package main

import (
	"fmt"
	"sort"
	"strings"
	"wiki2book/zz_verif/vlib"
)

// refEvent is something about references within an article.
type refEvent struct {
	kind  byte // 'd'efinition, 'u'sage, 'l'ist
	name  string
	group string
	attr  string   // as written
	names []string // lists: references defined inside
	style int      // lists: how the inner definitions are written
}

func (r refEvent) key() string { return r.group + "/" + r.name }

// references is the model: numbers by first occurrence within a group, lists of what was not listed yet.
type references struct {
	numbers map[string]int
	next    map[string]int
	content map[string]map[int]nodes // by group
	listed  map[string]bool
	pending map[string]bool // used but not defined yet
}

func (m *references) number(r refEvent) int {
	if n, ok := m.numbers[r.key()]; ok && r.name != "" {
		return n
	}
	m.next[r.group]++
	if r.name != "" {
		m.numbers[r.key()] = m.next[r.group]
	}
	return m.next[r.group]
}

// writeRefs writes an article with the events; it is valid when every used name is defined exactly once (or again with the same
// content) in front of the next list of its group.
func writeRefs(events []refEvent, body func(e *env, r refEvent) (string, nodes)) (inl, bool) {
	return writeRefsBetween(events, body, (*env).word)
}

// writeRefsBetween writes the events with the given text in front of, between and behind them.
func writeRefsBetween(events []refEvent, body func(e *env, r refEvent) (string, nodes), between func(*env) string) (inl, bool) {
	f := func(e *env) (string, nodes, bool) {
		m := references{map[string]int{}, map[string]int{}, map[string]map[int]nodes{}, map[string]bool{}, map[string]bool{}}
		valid := true
		contents := map[string]string{}
		contentNodes := map[string]nodes{}
		define := func(r refEvent, n int) string {
			if r.name == "" {
				w, c := body(e, r)
				m.content[r.group][n] = c
				return w
			}
			if _, ok := contents[r.key()]; !ok {
				contents[r.key()], contentNodes[r.key()] = body(e, r)
			}
			if m.listed[r.key()] {
				valid = false // defined again behind its list
			}
			m.content[r.group][n] = contentNodes[r.key()]
			delete(m.pending, r.key())
			return contents[r.key()]
		}
		wiki := between(e)
		var out nodes
		if wiki != "" {
			out = text(wiki)
		}
		for _, r := range events {
			if m.content[r.group] == nil {
				m.content[r.group] = map[int]nodes{}
			}
			switch r.kind {
			case 'd':
				n := m.number(r)
				wiki += "<ref" + r.attr + ">" + define(r, n) + "</ref>"
				out = append(out, vlib.Txt(fmt.Sprintf("[%d]", n)))
			case 'u':
				n := m.number(r)
				if _, ok := m.content[r.group][n]; !ok && !m.listed[r.key()] {
					m.pending[r.key()] = true
				}
				wiki += "<ref" + r.attr + "/>"
				out = append(out, vlib.Txt(fmt.Sprintf("[%d]", n)))
			case 'l':
				if wiki != "" && !strings.HasSuffix(wiki, "\n") {
					wiki += "\n"
				}
				if r.names == nil {
					wiki += "<references" + r.attr + "/>\n"
				} else {
					wiki += "<references" + r.attr + ">" + []string{"\n", "", " "}[r.style]
					for _, name := range r.names {
						use := strings.HasPrefix(name, "^") // only used inside of the list
						name = strings.TrimPrefix(name, "^")
						d := refEvent{name: name, group: r.group}
						if _, ok := m.numbers[d.key()]; !ok {
							valid = false // defined but not used
						}
						attr := fmt.Sprintf(" name=\"%s\"", name)
						if r.group != "" {
							attr += fmt.Sprintf(" group=\"%s\"", r.group)
						}
						if use {
							wiki += "<ref" + attr + "/>" + []string{"\n", "", " "}[r.style]
							continue
						}
						wiki += "<ref" + attr + ">" + define(d, m.number(d)) + "</ref>" + []string{"\n", "", " "}[r.style]
					}
					wiki += "</references>\n"
				}
				for p := range m.pending {
					if strings.HasPrefix(p, r.group+"/") {
						valid = false
					}
				}
				out = append(out, vlib.Txt(" "))
				var numbers []int
				for n := range m.content[r.group] {
					numbers = append(numbers, n)
				}
				sort.Ints(numbers)
				for _, n := range numbers {
					out = append(out, vlib.Txt(fmt.Sprintf(" [%d] ", n)))
					out = append(out, m.content[r.group][n]...)
					out = append(out, vlib.El("br"))
				}
				m.content[r.group] = map[int]nodes{}
				for k := range contents {
					if strings.HasPrefix(k, r.group+"/") {
						m.listed[k] = true
					}
				}
			}
			if w := between(e); w != "" {
				wiki += w
				out = append(out, vlib.Txt(w))
			}
		}
		return wiki, out, valid && len(m.pending) == 0
	}
	_, _, ok := f(&env{})
	return inl{"refs", func(e *env) (string, nodes) { w, n, _ := f(e); return w, n }}, ok
}

var refAttributes = []func(name, group string) string{
	func(n, g string) string { return attr2(n, g, "\"", "") },
	func(n, g string) string { return attr2(n, g, "'", "") },
	func(n, g string) string { return attr2(n, g, "", "") },
	func(n, g string) string { return attr2(n, g, "\"", " ") },
	func(n, g string) string { return attr2(n, g, "", " ") },
	func(n, g string) string { return attr2(n, g, "'", "\t") },
	func(n, g string) string {
		return strings.ToUpper("\n"+"name") + "=\"" + n + "\"" + attr2("", g, "\"", "") + "  "
	},
	func(n, g string) string { return attr2("", g, "\"", "") + attr2(n, "", "", "") + " " },
	func(n, g string) string { return attr2("", g, "", "") + attr2(n, "", "\"", "") + " " },
	func(n, g string) string { return " foo=\"bar\"" + attr2(n, g, "\"", "") },
}

// attr2 writes name and group.
func attr2(name, group, quote, space string) (s string) {
	if name != "" {
		s += " name" + space + "=" + space + quote + name + quote
	}
	if group != "" {
		s += " group" + space + "=" + space + quote + group + quote
	}
	return
}

func checkC15() *vlib.Check {
	return &vlib.Check{ID: "C15", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "every use shows the number of its reference (by first occurrence in its group), every list shows exactly the references of its group not listed before with number and content in order, and nothing of the tags remains",
		Bounds:      map[string]string{"quick": "all sequences of up to 5 of 17 events with words between and of up to 4 without (definitions, uses, lists; 2 names, 2 groups, anonymous, definitions and uses inside of lists); all pairs of 10 notations x 12 names x definition in front, behind or in the list x groups (also differing only in case); 12 contents; 9 to 1001 references in 8 ways, 40 groups; names and contents of up to 70000 characters", "thorough": "sequences of up to 6"},
		Assumptions: []string{"every used name is defined before the list of its group and not again with other content or behind it"},
		Run: func(c *vlib.Ctx) {
			setup(c)
			one := func(x inl) bool {
				b := blk{name: "refs", kind: "para", write: x.write}
				d := write("\n", b)
				return c.Do(d.wiki, func() vlib.Outcome { return d.check(newService()) })
			}
			simple := func(e *env, r refEvent) (string, nodes) { w := e.word(); return w, text(w) }
			q := refAttributes[0]
			events := []refEvent{
				{kind: 'd'}, {kind: 'd', name: "a", attr: q("a", "")}, {kind: 'd', name: "b", attr: q("b", "")},
				{kind: 'u', name: "a", attr: q("a", "") + " "}, {kind: 'u', name: "b", attr: q("b", "")},
				{kind: 'd', group: "g", attr: q("", "g")}, {kind: 'd', group: "g", name: "a", attr: q("a", "g")}, {kind: 'u', group: "g", name: "a", attr: q("a", "g")},
				{kind: 'l'}, {kind: 'l', group: "g", attr: q("", "g")},
				{kind: 'l', names: []string{"a"}}, {kind: 'l', names: []string{"a", "b"}, style: 1}, {kind: 'l', names: []string{"b", "a"}, style: 2},
				{kind: 'l', names: []string{"b", "a"}, attr: " "}, {kind: 'l', names: []string{}}, {kind: 'l', group: "g", attr: q("", "g"), names: []string{"a"}, style: 1},
				{kind: 'l', names: []string{"^a", "b"}, style: 1},
			}
			var rec func(n int, es []refEvent) bool
			rec = func(n int, es []refEvent) bool {
				if n == 0 {
					x, ok := writeRefs(es, simple)
					return ok && one(x)
				}
				for _, e := range events {
					if rec(n-1, append(es[:len(es):len(es)], e)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(5, 6); n++ {
				if rec(n, nil) {
					return
				}
			}
			// nothing around the events
			var tight func(n int, es []refEvent) bool
			tight = func(n int, es []refEvent) bool {
				if n == 0 {
					x, ok := writeRefsBetween(es, simple, func(*env) string { return "" })
					return ok && one(x)
				}
				for _, e := range events {
					if tight(n-1, append(es[:len(es):len(es)], e)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(4, 5); n++ {
				if tight(n, nil) {
					return
				}
			}
			// notations
			for _, d := range refAttributes {
				for _, u := range refAttributes {
					for _, name := range []string{"x", "ä-1", "a b", "a/b", "o'x", "a=b", "name=x", "X", ":1", "[1]", "a.b,c", "group"} {
						for _, group := range []string{"", "g"} {
							def := refEvent{kind: 'd', name: name, group: group, attr: d(name, group)}
							use := refEvent{kind: 'u', name: name, group: group, attr: u(name, group) + " "}
							if strings.ContainsAny(name, " /'=\"") && (!quoted(d) || !quoted(u)) || strings.Contains(name, "'") && (strings.Contains(d("x", ""), "'") || strings.Contains(u("x", ""), "'")) {
								continue
							}
							if group != "" {
								upper, upperUse, upperList := def, use, refEvent{kind: 'l', group: "G", attr: u("", "G") + " "}
								upper.group, upper.attr, upperUse.group, upperUse.attr = "G", d(name, "G"), "G", u(name, "G")+" "
								list := refEvent{kind: 'l', group: group, attr: q("", group)}
								for _, es := range [][]refEvent{{def, upperUse, use, upper, list, upperList}, {{kind: 'd', group: group, attr: d("", group)}, upper, def, upperList, upperUse, list}} {
									if x, ok := writeRefs(es, simple); ok && one(x) {
										return
									}
								}
							}
							other := refEvent{kind: 'd', group: group, attr: q("", group)}
							lower := refEvent{kind: 'd', name: "x", group: group, attr: q("x", group)}
							list := refEvent{kind: 'l', group: group, attr: q("", group)}
							list2 := refEvent{kind: 'l', group: group, attr: d("", group), names: []string{name}}
							for _, es := range [][]refEvent{{other, def, other, use, use, list}, {use, other, def, list}, {other, use, lower, use, list2}, {lower, def, use, list}} {
								if es[0].name == name && name == "x" || es[2].name == name && name == "x" && es[1].kind == 'u' && es[3].kind == 'u' {
									continue
								}
								if x, ok := writeRefs(es, simple); ok && one(x) {
									return
								}
							}
						}
					}
				}
			}
			// many references and groups, long names
			for _, n := range []int{9, 12, 101, 1001} {
				var anonymous, used, before, inside, groups, lists []refEvent
				var all []string
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("n%d", i)
					d, u := refEvent{kind: 'd', name: name, attr: q(name, "")}, refEvent{kind: 'u', name: name, attr: q(name, "")}
					anonymous = append(anonymous, events[0])
					used = append(used, d, events[0], u)
					before = append(before, u)
					inside = append(inside, u, events[0])
					all = append(all, name)
					g := fmt.Sprintf("g%d", i%40)
					groups = append(groups, refEvent{kind: 'd', group: g, attr: q("", g)}, refEvent{kind: 'd', name: name, group: g, attr: q(name, g)}, refEvent{kind: 'u', name: name, group: g, attr: q(name, g)})
					lists = append(lists, events[0], d, u, events[8])
				}
				for i := n - 1; i >= 0; i-- {
					used = append(used, refEvent{kind: 'u', name: all[i], attr: q(all[i], "")})
					before = append(before, refEvent{kind: 'd', name: all[i], attr: q(all[i], "")})
				}
				for i := 0; i < min(n, 40); i++ {
					groups = append(groups, refEvent{kind: 'l', group: fmt.Sprintf("g%d", i), attr: q("", fmt.Sprintf("g%d", i))})
				}
				anonymous, used, before = append(anonymous, events[8]), append(used, events[8]), append(before, events[8])
				for style := 0; style < 3; style++ {
					l := refEvent{kind: 'l', names: all, style: style}
					if x, ok := writeRefs(append(inside[:len(inside):len(inside)], l), simple); !ok || one(x) {
						return
					}
				}
				for _, es := range [][]refEvent{anonymous, used, before, groups, lists} {
					if x, ok := writeRefs(es, simple); !ok || one(x) {
						return
					}
				}
			}
			for _, n := range []int{40, 255, 4000, 70000} {
				name := strings.Repeat("n", n)
				for _, f := range refAttributes {
					var es []refEvent
					for _, x := range []string{name + "1", name + "2", "1" + name, "2" + name} {
						es = append(es, refEvent{kind: 'd', name: x, attr: f(x, "")})
					}
					for _, x := range []string{"2" + name, name + "1", name + "2", "1" + name} {
						es = append(es, refEvent{kind: 'u', name: x, attr: f(x, "") + " "})
					}
					x, _ := writeRefs(append(es, events[8]), simple)
					y, _ := writeRefs([]refEvent{events[0], events[1], events[3], events[8]}, func(e *env, r refEvent) (string, nodes) { return long(n).write(e) })
					if one(x) || one(y) {
						return
					}
				}
			}
			// contents and tags
			for _, content := range []inl{word, punct, bold(twoWords), italic(link(word)), extLink(twoWords), link(word), inlineImage, mathOf("<math>", "x_{1}"), nowikiOf("<br> [[x]] </i>"), templateAtom, small(word), odd, seq(extLink(word), italic(word)), commentAtom} {
				for _, x := range []inl{content, seq(word, content), spaced(content, word)} {
					body := func(e *env, r refEvent) (string, nodes) { return x.write(e) }
					for _, es := range [][]refEvent{
						{events[0], events[8]}, {events[1], events[3], events[8]}, {events[3], events[0], events[10]}, {events[3], events[4], events[11]}, {events[5], events[7], events[6], events[9], events[8]},
					} {
						if y, ok := writeRefs(es, body); ok && one(y) {
							return
						}
						if y, ok := writeRefs(es, body); ok && one(inl{"upper", func(e *env) (string, nodes) {
							w, n := y.write(e)
							return strings.NewReplacer("<ref>", "<REF>", "</ref>", "</Ref>", "<ref ", "<Ref ", "<references", "<References", "</references", "</REFERENCES").Replace(w), n
						}}) {
							return
						}
					}
				}
			}
		}}
}

func quoted(f func(n, g string) string) bool {
	s := f("x", "")
	return strings.ContainsAny(s, "'\"") && !strings.Contains(s, "foo=") || strings.Contains(s, "\"x\"")
}
