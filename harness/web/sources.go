package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"wiki2book/zz_verif/vlib"
)

// A source host offers a picture in one of these ways.
const (
	srcMissing     = iota // no page, no file
	srcHere               // page and file
	srcRedirect           // the page redirects to another name, the file has that name
	srcDescription        // only a description page, the file is somewhere else
	srcBroken             // the host answers with an error
	srcKinds
)

var srcNames = []string{"missing", "here", "redirect", "description", "broken"}

// sources is the availability of one picture.
type sources struct {
	hosts []string
	state []int
	name  string // as used in the article, without namespace
	log   []string
}

// world is the availability of several pictures.
type world struct {
	hosts []string
	pics  []*sources
	log   []string // requests belonging to no picture
}

func redirected(name string) string { return "Neu & " + name }

// segment of the image host's path a source host stands for.
func segment(host string) string { return strings.SplitN(host, ".", 2)[0] }

func title(name string) string { return strings.ReplaceAll(name, "_", " ") }

func (s *sources) pageUrl(host string) string {
	return "https://" + host + "/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=" + url.QueryEscape("File:"+strings.ReplaceAll(s.name, " ", "_"))
}

// fileKey identifies a file at the image host independent of the escaping in the URL.
func fileKey(host, name string) string {
	n := strings.ReplaceAll(name, " ", "_")
	h := fmt.Sprintf("%x", md5.Sum([]byte(n)))
	return "https://upload.example.org/wikipedia/" + segment(host) + "/" + h[:1] + "/" + h[:2] + "/" + n
}

func (s *sources) has(key string) bool {
	for i, h := range s.hosts {
		if s.state[i] == srcHere && key == fileKey(h, s.name) || s.state[i] == srcRedirect && key == fileKey(h, redirected(s.name)) {
			return true
		}
	}
	return false
}

func (w *world) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	for i, h := range w.hosts {
		if r.URL.Host != h {
			continue
		}
		for _, s := range w.pics {
			if u != s.pageUrl(h) {
				continue
			}
			s.log = append(s.log, "page "+h)
			actual := ""
			switch s.state[i] {
			case srcHere, srcDescription:
				actual = s.name
			case srcRedirect:
				actual = redirected(s.name)
			case srcBroken:
				return vlib.Response(r, 503, nil, strings.NewReader("down")), nil
			default:
				return vlib.Response(r, 200, map[string]string{"mediawiki-api-error": "missingtitle"}, strings.NewReader(`{"error":{"code":"missingtitle"}}`)), nil
			}
			prefix := "File:"
			if strings.HasPrefix(h, "de.") {
				prefix = "Datei:"
			}
			b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": prefix + title(actual), "wikitext": map[string]any{"*": "about " + h}}})
			return vlib.Response(r, 200, nil, strings.NewReader(string(b))), nil
		}
		w.log = append(w.log, u)
		return vlib.Response(r, 404, nil, strings.NewReader("")), nil
	}
	key := "https://" + r.URL.Host + r.URL.Path
	for _, s := range w.pics {
		for _, h := range w.hosts {
			for _, n := range []string{s.name, redirected(s.name)} {
				if key != fileKey(h, n) {
					continue
				}
				s.log = append(s.log, "file "+key)
				if r.URL.RawQuery == "" && s.has(key) {
					return vlib.Response(r, 200, nil, strings.NewReader("content of "+key)), nil
				}
				return vlib.Response(r, 404, nil, strings.NewReader("not found")), nil
			}
		}
	}
	w.log = append(w.log, u)
	return vlib.Response(r, 404, nil, strings.NewReader("not found")), nil
}

// runSources downloads pictures with one call.
func runSources(dir string, hosts []string, pics []*sources, prefix string) (o vlib.Outcome) {
	os.RemoveAll(dir)
	cfg := vlib.FreshConfig(dir)
	cfg.WikipediaImageArticleHosts = hosts
	cfg.WikipediaImageHost = "upload.example.org"
	w := &world{hosts: hosts, pics: pics}
	http.DefaultTransport = w
	var list []string
	for _, p := range pics {
		p.log = nil
		list = append(list, prefix+p.name)
	}
	err := vlib.NewService().DownloadImages(list)
	o.Observed = fmt.Sprint(err == nil)
	for _, p := range pics {
		o.Steps += int64(len(p.log))
		o.States = append(o.States, fmt.Sprint(hosts, p.state))
		o.Observed += fmt.Sprint(p.state, len(p.log))
	}
	if len(w.log) > 0 {
		o.Bad = fmt.Sprintf("wrong address requested: %q", w.log)
		return
	}
	o.Bad = judge(dir, pics, err, false)
	if o.Bad != "" && judge(dir, pics, err, true) == "" {
		o.Finding = "description page of an earlier source hides the page of a later one"
	}
	return
}

// judge compares every picture with its model, up to the first one which is not available (nothing is demanded of those behind it).
func judge(dir string, pics []*sources, err error, variant bool) string {
	for _, p := range pics {
		b, _ := os.ReadFile(filepath.Join(dir, "images", strings.NewReplacer("%", "%25", "?", "%3F", "*", "%2A", "\"", "%22", " ", "_").Replace(p.name)))
		bad, failed := p.judge(string(b), variant)
		if bad != "" {
			return p.name + ": " + bad
		}
		if failed {
			if err == nil {
				return p.name + " is not available, but the download ends without an error"
			}
			return ""
		}
	}
	if err != nil {
		return fmt.Sprintf("all pictures are available, but the download ends with: %v", err)
	}
	return ""
}

// judge compares with the model: the sources are asked in their order for the page and then for the file it names, the first file
// found is taken. With the variant (a known finding) the first page found stands for the pages of all later sources.
func (s *sources) judge(content string, variant bool) (bad string, failed bool) {
	var want []string
	known := ""
	expected := ""
	failed = len(s.hosts) > 0
	for i, h := range s.hosts {
		actual := ""
		switch s.state[i] {
		case srcHere, srcDescription:
			actual = s.name
		case srcRedirect:
			actual = redirected(s.name)
		}
		if variant && known != "" {
			actual = known
		} else {
			want = append(want, "page "+h)
		}
		if actual == "" {
			continue
		}
		known = actual
		want = append(want, "file "+fileKey(h, actual))
		if s.has(fileKey(h, actual)) {
			expected, failed = "content of "+fileKey(h, actual), false
			break
		}
	}
	if content != expected {
		return fmt.Sprintf("the cache holds %q, the first source having the picture has %q", content, expected), failed
	}
	if strings.Join(want, "\n") != strings.Join(s.log, "\n") {
		// an answer that is the same anyway may come from the cache
		if !variant && s.samePages() {
			if bad, _ := s.judge(content, true); bad == "" {
				return "", failed
			}
		}
		return fmt.Sprintf("requests %q instead of %q", s.log, want), failed
	}
	return "", failed
}

// samePages: all sources have the same page.
func (s *sources) samePages() bool {
	for _, st := range s.state {
		if st != srcHere && st != srcDescription {
			return false
		}
	}
	return true
}

func contains(list []string, s string) bool {
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

func checkC09() *vlib.Check {
	return &vlib.Check{ID: "C09", Level: "model_checking", QuickS: 600, ThoroughS: 1500,
		Rule:   "every order of source hosts times every way a picture can be available there, for names over critical characters; requests, result and cached content are compared with a model of the fall-back order",
		Bounds: map[string]string{"quick": "all orders of up to 4 hosts and of up to 3 of 5 unusual host names, 5 states each, 5 names; all names of up to 3 of 18 characters for one host; calls with 2 and 3 pictures at 2 hosts and 2 pictures at 3 hosts, all combinations of their availability", "thorough": "up to 5 hosts; names up to 4 characters"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "cache")
			hosts := []string{"commons.wikimedia.org", "en.wikipedia.org", "de.wikipedia.org", "zh-yue.wikipedia.org", "fr.wikibooks.org"}
			pool := hosts[:c.Pick(4, 5)]
			var rec func(s sources, n int) bool
			rec = func(s sources, n int) bool {
				if n == 0 {
					for _, name := range []string{"Pic.png", "A b_c.jpg", "Ä(1)+2&3,'4'.PNG", "100% = ?.jpg", "x.y.tar.gif"} {
						t := s
						t.name = name
						if c.Do(fmt.Sprintf("%v|%v|%s", s.hosts, s.state, name), func() vlib.Outcome {
							w := t
							return runSources(dir, t.hosts, []*sources{&w}, "File:")
						}) {
							return true
						}
					}
					return false
				}
				for _, h := range pool {
					if contains(s.hosts, h) {
						continue
					}
					for st := 0; st < srcKinds; st++ {
						t := sources{hosts: append(append([]string{}, s.hosts...), h), state: append(append([]int{}, s.state...), st)}
						if rec(t, n-1) {
							return true
						}
					}
				}
				return false
			}
			for n := 0; n <= c.Pick(4, 5); n++ {
				if rec(sources{}, n) {
					return
				}
			}
			pool = []string{"de.m.wikipedia.org", "fr.wikiquote.org", "simple.wikipedia.beta.wmflabs.org", "de.wikivoyage.org", "be-x-old.wikipedia.org"}
			for n := 1; n <= 3; n++ {
				if rec(sources{}, n) {
					return
				}
			}
			// several pictures in one call, every one with its own availability
			var several func(hosts []string, pics []*sources, n int) bool
			several = func(hosts []string, pics []*sources, n int) bool {
				if n == 0 {
					key := "several|" + strings.Join(hosts, ",")
					for _, p := range pics {
						key += fmt.Sprintf("|%s%v", p.name, p.state)
					}
					return c.Do(key, func() vlib.Outcome {
						var l []*sources
						for _, p := range pics {
							q := *p
							l = append(l, &q)
						}
						return runSources(dir, hosts, l, "File:")
					})
				}
				name := []string{"Pic.png", "A_b.jpg", "A_b (2).jpg"}[len(pics)]
				states := 1
				for range hosts {
					states *= srcKinds
				}
				for i := 0; i < states; i++ {
					var state []int
					for k := i; len(state) < len(hosts); k /= srcKinds {
						state = append(state, k%srcKinds)
					}
					if several(hosts, append(append([]*sources{}, pics...), &sources{hosts: hosts, state: state, name: name}), n-1) {
						return true
					}
				}
				return false
			}
			for _, hosts := range [][]string{hosts[:2], {hosts[2], hosts[0]}, hosts[:c.Pick(2, 3)]} {
				for n := 2; n <= c.Pick(3, 3) && (n < 3 || len(hosts) < 3); n++ {
					if several(hosts, nil, n) {
						return
					}
				}
			}
			if several(hosts[:3], nil, 2) {
				return
			}
			chars := []string{"a", "B", " ", "_", ".", "%", "2", "?", "&", "+", "=", "(", "'", "ä", "猫", ",", "!", ";"}
			var names func(name string, n int) bool
			names = func(name string, n int) bool {
				if n == 0 {
					for _, prefix := range []string{"File:", "Datei:", "Image:"} {
						for _, st := range []int{srcHere, srcRedirect} {
							if c.Do(fmt.Sprintf("name|%s|%s|%d", prefix, name, st), func() vlib.Outcome {
								w := sources{hosts: []string{"de.wikipedia.org"}, state: []int{st}, name: name}
								return runSources(dir, w.hosts, []*sources{&w}, prefix)
							}) {
								return true
							}
						}
					}
					return false
				}
				for _, ch := range chars {
					if names(name[:len(name)-len(".png")]+ch+".png", n-1) {
						return true
					}
				}
				return false
			}
			for n := 1; n <= c.Pick(3, 4); n++ {
				if names("X.png", n) {
					return
				}
			}
		}}
}
