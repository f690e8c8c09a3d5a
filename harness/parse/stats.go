package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"unicode"
	"wiki2book/config"
	"wiki2book/generator"
	"wiki2book/parser"
	"wiki2book/zz_verif/vlib"
)

// figures are the numbers that are the same for the article and the document it was written from.
type figures struct {
	Words, Internal, External, Images, Math, Usages int
	Links                                           map[string]int
}

// jsonStats is the JSON form of the statistics.
type jsonStats struct {
	Article    string         `json:"article-name"`
	Characters int            `json:"number-of-characters"`
	Words      int            `json:"number-of-words"`
	Internal   int            `json:"number-of-internal-links"`
	External   int            `json:"number-of-external-links"`
	Images     int            `json:"number-of-images"`
	Math       int            `json:"number-of-math"`
	Defs       int            `json:"number-of-ref-definitions"`
	Usages     int            `json:"number-of-ref-usages"`
	Links      map[string]int `json:"internal-links"`
	Uncovered  map[string]int `json:"uncovered-internal-links"`
	Top        map[string]int `json:"top-10-uncovered-internal-links"`
	Minutes    int            `json:"estimated-reading-time-minutes"`
}

var refMark = regexp.MustCompile(`\[\d+\]`)

func countWords(s string) (n int) {
	in := false
	for _, r := range s {
		l := unicode.IsLetter(r) || unicode.IsNumber(r)
		if l && !in {
			n++
		}
		in = l
	}
	return
}

// count adds up the words of a tree, without reference marks.
func count(ns nodes, f *figures) {
	for _, n := range ns {
		if n.Tag == "" {
			f.Words += countWords(refMark.ReplaceAllString(n.Text, " "))
		}
		if n.Tag == "a" {
			f.External++
		}
		if n.Tag == "img" && !strings.Contains(n.Attr["src"], "formula") {
			f.Images++
		}
		count(n.Kids, f)
	}
}

// statsOf lets the real tokenizer and generator make the statistics of a text.
func statsOf(wiki, title string) (s jsonStats, file string, err error) {
	svc := newService()
	tok := parser.NewTokenizer(svc)
	article, err := tok.Tokenize(wiki, title)
	if err != nil {
		return
	}
	file, err = generator.NewStatsGenerator(article.TokenMap).Generate(article)
	if err != nil {
		return
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &s)
	}
	return
}

func checkC21() *vlib.Check {
	return &vlib.Check{ID: "C21", Level: "model_checking", QuickS: 600, ThoroughS: 2400, HangS: 10,
		Rule:        "the statistics of an article hold the number of its words, links (by article), pictures, formulas and reference uses, wherever they stand; those of a book are the sums over its articles with the most linked articles that are not part of it",
		Bounds:      map[string]string{"quick": "all sequences of up to 3 of 17 pieces in 22 blocks, all sequences of up to 3 blocks; all lists of up to 4 lines of 13 kinds and tables of up to 4 entries of 8 kinds; all texts of up to 3 of 17 characters (numbers, letters of several scripts, punctuation); all books of up to 3 of 9 articles, with repetitions, with almost equal names of links, and of up to 30 links in all orders of 3 frequencies; 12, 101 and 1001 of each piece and block; 18 languages x 43 numbers of words", "thorough": "sequences of up to 4 pieces, texts of up to 4 characters"},
		Assumptions: []string{"pieces are separated by blanks, no HTML tags and entities in the text (they count as words)"},
		Run: func(c *vlib.Ctx) {
			cfg := setup(c)
			internal := func(target string, f func(inl) inl) inl {
				return inl{target, func(e *env) (string, nodes) {
					w, n := f(word).write(e)
					e.links = append(e.links, target)
					return w, n
				}}
			}
			pieces := []inl{word, bold(twoWords), punctuation, mathAtom, inlineImage, nowikiOf("ab cd"), refAtom, templateAtom, extLink(twoWords),
				internal("A", func(x inl) inl { return piped("A", x) }), internal("A b", func(x inl) inl { return piped("A b#s", bold(x)) }), internal("ä", func(x inl) inl { return shown("ä", "ä") }),
				commentAtom, internal("A", func(x inl) inl { return shown("A", "A") }), internal("T", func(x inl) inl { return piped("#s", x) }), italic(piece2(internal)), literal("- 1.5 %")}
			one := func(sep string, bs ...blk) bool {
				e := &env{names: map[string]int{}}
				var parts []string
				var all nodes
				for _, b := range bs {
					w, n := b.write(e)
					parts = append(parts, w)
					all = append(all, n...)
				}
				wiki := strings.Join(parts, sep)
				return c.Do(wiki, func() (out vlib.Outcome) {
					want := figures{Math: len(e.math), Usages: strings.Count(wiki, "<ref>") + strings.Count(wiki, "<ref name"), Internal: len(e.links), Links: map[string]int{}}
					count(all, &want)
					for _, l := range e.links {
						want.Links[l]++
					}
					s, _, err := statsOf(wiki, "T")
					if err != nil {
						out.Bad = "error " + err.Error()
						return
					}
					got := figures{s.Words, s.Internal, s.External, s.Images, s.Math, s.Usages, s.Links}
					out.Observed = fmt.Sprint(got)
					if !reflect.DeepEqual(got, want) {
						out.Bad = fmt.Sprintf("statistics %+v, the article has %+v", got, want)
					} else if s.Article != "T" || s.Minutes != s.Words/228 {
						out.Bad = fmt.Sprintf("statistics %+v", s)
					}
					return
				})
			}
			names := blockNames()
			plain := func(b string) bool { return b != "dl" && b != "dlline" }
			var rec func(n int, xs []inl) bool
			rec = func(n int, xs []inl) bool {
				if n == 0 {
					for _, b := range names {
						x := spaced(xs...)
						if strings.Contains(x.name, "ref") && strings.HasPrefix(b, "ref") || strings.Contains(x.name, "icon") && b == "gallery" {
							continue
						}
						if b == "bare" { // bold text on its own before a heading is an (empty) section
							x = spaced(word, x)
						}
						if one("\n", blocks[b](x)) {
							return true
						}
					}
					return false
				}
				for _, p := range pieces {
					if rec(n-1, append(xs[:len(xs):len(xs)], p)) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(3, 4); n++ {
				if rec(n, nil) {
					return
				}
			}
			for _, a := range names {
				for _, b := range names {
					for _, d := range names {
						for _, x := range []inl{pieces[9], spaced(pieces[5], pieces[3]), spaced(pieces[10], pieces[8])} {
							if plain(a) && plain(b) && plain(d) && one("\n\n", blocks[a](x), blocks[b](x), blocks[d](word)) {
								return
							}
						}
					}
				}
			}
			for _, n := range []int{12, 101, 1001} {
				for _, p := range pieces {
					for _, b := range []string{"para", "ul", "td", "thumb"} {
						if one("\n", blocks[b](spaced(word, times(n, p)))) {
							return
						}
					}
				}
				for _, b := range names {
					if !plain(b) {
						continue
					}
					var bs []blk
					for i := 0; i < n; i++ {
						bs = append(bs, blocks[b](spaced(word, pieces[9], pieces[8])))
					}
					if n < 1000 && one("\n\n", bs...) {
						return
					}
				}
			}
			// reading time: by the words per minute of the language
			for _, instance := range []string{"en", "de", "fr", "nl", "fi", "he", "it", "ja", "pl", "pt", "ru", "sl", "es", "sv", "tr", "xx", "zh", "simple"} {
				for _, n := range []int{0, 1, 100, 150, 160, 161, 165, 166, 167, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 192, 193, 194, 195, 196, 198, 199, 200, 201, 202, 203, 217, 218, 219, 227, 228, 229, 400, 1000, 2279, 2280, 10000} {
					if c.Do(fmt.Sprintf("reading time %s %d", instance, n), func() (out vlib.Outcome) {
						cfg.WikipediaInstance = instance
						defer func() { cfg.WikipediaInstance = "en" }()
						s, _, err := statsOf(strings.Repeat("word ", n), "T")
						rate, ok := map[string]int{"en": 228, "de": 179, "fr": 195, "nl": 202, "fi": 161, "he": 187, "it": 188, "ja": 193, "pl": 166, "pt": 181, "ru": 184, "sl": 180, "es": 218, "sv": 199, "tr": 166}[instance]
						if !ok {
							rate = 183
						}
						out.Observed = fmt.Sprint(s.Minutes)
						if err != nil || s.Words != n || s.Minutes != n/rate {
							out.Bad = fmt.Sprintf("%d words in %s need %d minutes, the statistics say %d words, %d minutes (%v)", n, instance, n/rate, s.Words, s.Minutes, err)
						}
						return
					}) {
						return
					}
				}
			}
			// words are runs of letters and numbers
			chars := []string{"a", "7", "½", "²", "Ⅷ", "ä", "猫", "Ж", " ", "-", ".", "_", "’", "%", "/", "–", "٣"}
			var words func(n int, s string) bool
			words = func(n int, s string) bool {
				if n == 0 {
					if i := strings.IndexAny(s, "-"); i == 0 || strings.Contains(s, "//") {
						s = "a " + s
					}
					for _, b := range []string{"para", "ul"} {
						if one("\n", blocks[b](literal("x "+s+" y"))) {
							return true
						}
					}
					return false
				}
				for _, ch := range chars {
					if words(n-1, s+ch) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(3, 4); n++ {
				if words(n, "") {
					return
				}
			}
			// lists and tables of all shapes: every line has a word and a link
			line := func(mark string) blk {
				return blk{name: mark, write: func(e *env) (string, nodes) {
					w, n := spaced(word, piped("A", word)).write(e)
					e.links = append(e.links, "A")
					return mark + " " + w, append(text(mark), n...)
				}}
			}
			shapes := func(marks []string, open, end string, max int) bool {
				var rec func(n int, bs []blk) bool
				rec = func(n int, bs []blk) bool {
					if n == 0 {
						return one("\n", append(append([]blk{{write: func(*env) (string, nodes) { return open, text(open) }}}, bs...), blk{write: func(*env) (string, nodes) { return end, text(end) }})...)
					}
					for _, m := range marks {
						if rec(n-1, append(bs[:len(bs):len(bs)], line(m))) {
							return true
						}
					}
					return false
				}
				for n := 1; n <= max; n++ {
					if rec(n, nil) {
						return true
					}
				}
				return false
			}
			if shapes([]string{"*", "#", "**", "*#", "*;", "*:", "##", "***", "*#*", ":", "::", ";", ":*"}, "x", "y", c.Pick(4, 5)) ||
				shapes([]string{"|", "!", "| a ||", "! b !!", "|-\n|", "| c\n*", "| d\n\n", "|\n{|\n| e\n|}\n"}, "x\n{|\n|+ c1 c2", "|}\ny", c.Pick(4, 5)) {
				return
			}
			books(c)
		}}
}

var punctuation = inl{"punctuation", func(e *env) (string, nodes) {
	w := e.word() + ", (" + e.word() + ") " + e.word() + "!"
	return w, text(w)
}}

func piece2(internal func(string, func(inl) inl) inl) inl {
	return internal("B", func(x inl) inl { return piped("B", x) })
}

// books checks the statistics of a book.
func books(c *vlib.Ctx) {
	type article struct {
		title, wiki string
	}
	articles := []article{{"A", "w x [[B]] [[C]]"}, {"B", "[[A]] [[B|b]] [[#s]] <math>x</math>"}, {"C", "a b c [[X]] [[X]] [[Y]]"}, {"D", "[https://h.org x] <ref>r</ref> [[X]] [[File:A.png]]"}, {"E", strings.Repeat("word ", 1000)}, {"G", strings.Repeat("word ", 227)}, {"H", strings.Repeat("word ", 228)}, {"ä b", "[[ä b]] [[Y]] [[A]]"}, {"F", ""}}
	var sets [][]article
	for i := range articles {
		sets = append(sets, []article{articles[i]})
		for j := range articles {
			if j != i {
				sets = append(sets, []article{articles[i], articles[j]})
			}
			for k := range articles {
				if i != j && i != k && j != k {
					sets = append(sets, []article{articles[i], articles[j], articles[k]})
				}
			}
		}
	}
	for _, a := range articles {
		sets = append(sets, []article{a, a}, []article{a, articles[0], a})
	}
	// links whose names are almost the same
	var alike []string
	for i := 0; i < 25; i++ {
		for _, f := range []string{"[[L%dx]]", "[[l%dX]]", "[[L%dX]]", "[[L %dX]]"} {
			alike = append(alike, fmt.Sprintf(f, i))
		}
	}
	for n := 8; n <= len(alike); n += 9 {
		sets = append(sets, []article{{"A", strings.Join(alike[:n], " ")}})
	}
	// many links with frequencies
	for n := 1; n <= 30; n++ {
		for code := 0; code < 27; code++ {
			f := []int{code%3 + 1, code/3%3 + 1, code/9 + 1}
			w := ""
			for i := 0; i < n; i++ {
				w += strings.Repeat(fmt.Sprintf("[[L%d]] ", (i*7)%n), f[i%3])
			}
			sets = append(sets, []article{{"A", w}, {"L0", "[[L1]]"}})
		}
	}
	for i, set := range sets {
		for _, typ := range []string{config.OutputTypeStatsJson, config.OutputTypeStatsTxt} {
			stop := c.Do(fmt.Sprintf("book %d %s %v", i, typ, set), func() (out vlib.Outcome) {
				config.Current.OutputType = typ
				want := jsonStats{Links: map[string]int{}, Uncovered: map[string]int{}}
				var files, titles []string
				for _, a := range set {
					s, file, err := statsOf(a.wiki, a.title)
					if err != nil {
						out.Bad = err.Error()
						return
					}
					files = append(files, file)
					if !slices.Contains(titles, a.title) {
						titles = append(titles, a.title)
					}
					want.Characters += s.Characters
					want.Words += s.Words
					want.Internal += s.Internal
					want.External += s.External
					want.Images += s.Images
					want.Math += s.Math
					want.Defs += s.Defs
					want.Usages += s.Usages
					want.Minutes += s.Minutes
					for l, n := range s.Links {
						want.Links[l] += n
					}
				}
				var counts []int
				for l, n := range want.Links {
					covered := false
					for _, t := range titles {
						covered = covered || t == l
					}
					if !covered {
						want.Uncovered[l] = n
						counts = append(counts, n)
					}
				}
				sort.Sort(sort.Reverse(sort.IntSlice(counts)))
				target := filepath.Join(config.Current.CacheDir, "book.stats")
				first := ""
				for round := 0; round < 12; round++ {
					if err := generator.GenerateCombinedStats(files, target); err != nil {
						out.Bad = err.Error()
						return
					}
					b, _ := os.ReadFile(target)
					if round > 0 && string(b) != first {
						out.Bad = fmt.Sprintf("the same articles give %q and then %q", first, b)
						return
					}
					first = string(b)
				}
				out.Observed = first
				if typ == config.OutputTypeStatsJson {
					var got jsonStats
					if err := json.Unmarshal([]byte(first), &got); err != nil {
						out.Bad = err.Error()
						return
					}
					top := got.Top
					got.Top = nil
					if !reflect.DeepEqual(got, want) {
						out.Bad = fmt.Sprintf("statistics of the book %+v, the articles have %+v", got, want)
						return
					}
					out.Bad = mostOf(top, counts, want.Uncovered, 10)
					return
				}
				lines := strings.Split(strings.TrimRight(first, "\n"), "\n")
				section := ""
				top, listed := map[string]int{}, []string{}
				last := 1 << 30
				for _, l := range lines {
					switch {
					case l == "" || strings.HasPrefix(l, "Statistics"):
					case !strings.HasPrefix(l, " "):
						section = l
						if strings.HasPrefix(l, "Top 20") && !strings.Contains(l, fmt.Sprintf("(total: %d)", len(want.Uncovered))) {
							out.Bad = "wrong total: " + l
						}
					case strings.HasPrefix(section, "Article"):
						listed = append(listed, strings.TrimSpace(l))
					case strings.HasPrefix(section, "Top 20"):
						l = strings.TrimPrefix(l, "  ")
						k := strings.LastIndex(l, " (")
						n := 0
						fmt.Sscanf(l[k:], " (%d)", &n)
						top[l[:k]] = n
						if n > last {
							out.Bad = "links are not sorted: " + first
						}
						last = n
					}
				}
				if out.Bad != "" {
					return
				}
				if strings.Join(listed, "|") != strings.Join(titles, "|") {
					out.Bad = fmt.Sprintf("the articles are %q, the statistics list %q", titles, listed)
				} else if !strings.Contains(first, fmt.Sprintf("characters    : %d\n", want.Characters)) || !strings.Contains(first, fmt.Sprintf("internal links: %d\n", want.Internal)) {
					out.Bad = fmt.Sprintf("numbers %+v but %s", want, first)
				} else {
					out.Bad = mostOf(top, counts, want.Uncovered, 20)
				}
				return
			})
			if stop {
				return
			}
		}
	}
}

// mostOf checks that top holds the most frequent entries of all.
func mostOf(top map[string]int, counts []int, all map[string]int, max int) string {
	if len(counts) > max {
		counts = counts[:max]
	}
	var got []int
	for l, n := range top {
		if all[l] != n {
			return fmt.Sprintf("%q has %d links, not %d", l, all[l], n)
		}
		got = append(got, n)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(got)))
	if fmt.Sprint(got) != fmt.Sprint(counts) {
		return fmt.Sprintf("frequencies of the most linked articles %v, must be %v", got, counts)
	}
	return ""
}
