// HTTP: every script of server answers up to a bound against the retry and error rules (C08), and every availability of
// pictures at the configured sources against the order of the sources (C09).
package main

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	ownHttp "wiki2book/http"
	"wiki2book/util"
	"wiki2book/zz_verif/vlib"
	"wiki2book/zz_verif/vtime"
)

type letter struct {
	name   string
	status int
	header map[string]string
	kind   string // "", "neterr", "cut", "redirect"
	// wait the program owes the server (seconds); max <= 0: no wait
	min, max float64
}

var letters = []letter{
	{name: "ok", status: 200},
	{name: "apierror", status: 200, header: map[string]string{"mediawiki-api-error": "missingtitle"}},
	{name: "APIERROR", status: 200, header: map[string]string{"MediaWiki-API-Error": "internal_api_error_DBQueryError"}},
	{name: "204", status: 204},
	{name: "206", status: 206},
	{name: "redirect", status: 307, kind: "redirect"},
	{name: "400", status: 400},
	{name: "403", status: 403},
	{name: "404", status: 404},
	{name: "500", status: 500},
	{name: "503", status: 503, header: map[string]string{"Retry-After": "1"}},
	{name: "429r0", status: 429, header: map[string]string{"Retry-After": "0"}, min: 0, max: 30},
	{name: "429r3", status: 429, header: map[string]string{"Retry-After": "3"}, min: 3, max: 40},
	{name: "429r120", status: 429, header: map[string]string{"Retry-After": "120"}, min: 120, max: 240},
	{name: "429none", status: 429, min: 0.001, max: 60},
	{name: "429text", status: 429, header: map[string]string{"Retry-After": "soon"}, min: 0.001, max: 60},
	{name: "429error", status: 429, header: map[string]string{"Retry-After": "1", "mediawiki-api-error": "ratelimited"}, min: 1, max: 40},
	{name: "neterr", kind: "neterr"},
	{name: "cut", status: 200, kind: "cut"},
}

type cutReader struct{ r io.Reader }

func (c cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

type request struct {
	method, url, body, agent, ctype string
	waited                          float64 // seconds since the last request
	answer                          letter
}

// server answers with a script; behind its end everything is fine.
type server struct {
	script []letter
	log    []request
	waited float64
	body   []byte // content of /file
	chunk  func(io.Reader) io.Reader
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	q := request{method: r.Method, url: r.URL.String(), agent: r.Header.Get("User-Agent"), ctype: r.Header.Get("Content-Type"), waited: s.waited, answer: letters[0]}
	s.waited = 0
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		q.body = string(b)
	}
	if len(s.script) > 0 {
		q.answer = s.script[0]
		s.script = s.script[1:]
	}
	if q.answer.name == "noloc" && !strings.HasSuffix(r.URL.Path, "/check/tex") {
		q.answer = letters[0]
	}
	s.log = append(s.log, q)
	header := map[string]string{}
	for k, v := range q.answer.header {
		header[k] = v
	}
	data := s.content(r)
	if strings.HasSuffix(r.URL.Path, "/check/tex") && q.answer.name != "noloc" {
		header["x-resource-location"] = "formulaid"
	}
	switch q.answer.kind {
	case "neterr":
		return nil, errors.New("connection reset by peer")
	case "redirect":
		u := *r.URL
		v := u.Query()
		v.Set("redirected", v.Get("redirected")+"x")
		u.RawQuery = v.Encode()
		header["Location"] = u.String()
		return vlib.Response(r, 307, header, strings.NewReader("moved")), nil
	case "cut":
		return vlib.Response(r, 200, header, cutReader{bytes.NewReader(data[:len(data)/2])}), nil
	}
	if q.answer.name == "ok" {
		var rd io.Reader = bytes.NewReader(data)
		if s.chunk != nil {
			rd = s.chunk(rd)
		}
		return vlib.Response(r, 200, header, rd), nil
	}
	return vlib.Response(r, q.answer.status, header, strings.NewReader("error page "+q.answer.name)), nil
}

func (s *server) content(r *http.Request) []byte {
	switch {
	case r.URL.Query().Get("action") == "parse":
		b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": "T a", "wikitext": map[string]any{"*": "article text"}}})
		return b
	case r.URL.Query().Get("action") == "expandtemplates":
		b, _ := json.Marshal(map[string]any{"expandtemplates": map[string]any{"wikitext": "expanded " + r.URL.Query().Get("text")}})
		return b
	case strings.HasSuffix(r.URL.Path, "/check/tex"):
		return []byte("{}")
	case strings.Contains(r.URL.Path, "/render/"):
		return []byte(r.URL.Path)
	}
	return s.body
}

// stage is one request of an operation, its result is cached in file (unless file is empty).
type stage struct {
	method, url, body, file, content string
	anyCut                           bool // the body does not matter
}

func articleJson(kind, content string) string {
	if kind == "parse" {
		b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": "T a", "wikitext": map[string]any{"*": content}}})
		return string(b)
	}
	b, _ := json.Marshal(map[string]any{"expandtemplates": map[string]any{"wikitext": content}})
	return string(b)
}

const mathApi = "https://math.example.org/api"

func stages(op string, body []byte) []stage {
	switch op {
	case "get":
		return []stage{{method: "GET", url: "https://files.example.org/some%20file?x=1&y=%26", file: "images/some file.png", content: string(body)}}
	case "post":
		return []stage{{method: "POST", url: "https://files.example.org/form", body: "q=a%26b&c=d", anyCut: true}}
	case "article":
		return []stage{{method: "GET", url: "https://en.wikipedia.org/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=T_%C3%A4%26%2B", file: "articles/T_ä&+.json", content: articleJson("parse", "article text")}}
	case "template":
		return []stage{{method: "GET", url: "https://en.wikipedia.org/w/api.php?action=expandtemplates&format=json&prop=wikitext&text=%7B%7BT%7Ca%26b%7D%7D", file: "templates/key", content: articleJson("", "expanded {{T|a&b}}")}}
	case "math":
		return []stage{
			{method: "POST", url: mathApi + "/check/tex", body: "q=%7B%5Cdisplaystyle+a%2Bb%7D", file: "math/*", content: "formulaid", anyCut: true},
			{method: "GET", url: mathApi + "/render/svg/formulaid", file: "images/formulaid.svg", content: "/api/render/svg/formulaid"},
			{method: "GET", url: mathApi + "/render/png/formulaid", file: "images/formulaid.png", content: "/api/render/png/formulaid"},
		}
	}
	panic(op)
}

func perform(op string) (bad string, err error) {
	h := ownHttp.NewDefaultHttpService()
	svc := vlib.NewService()
	switch op {
	case "get":
		p, _, err := h.DownloadAndCache("https://files.example.org/some%20file?x=1&y=%26", cache.ImageCacheDirName, "some file.png")
		if err == nil && p != filepath.Join(config.Current.CacheDir, "images/some file.png") {
			return "the download is reported at " + p, nil
		}
		return "", err
	case "post":
		r, err := h.PostFormEncoded("https://files.example.org/form", "q=a%26b&c=d")
		if err == nil {
			if r == nil || r.StatusCode != 200 {
				return "successful request without a successful response", nil
			}
			r.Body.Close()
		}
		return "", err
	case "article":
		a, err := svc.DownloadArticle("en.wikipedia.org", "T ä&+")
		if err == nil && (a.Parse.Wikitext.Content != "article text" || a.Parse.OriginalTitle != "T ä&+" || a.Parse.Title != "T a") {
			return fmt.Sprintf("wrong article %v", a), nil
		}
		return "", err
	case "template":
		s, err := svc.EvaluateTemplate("{{T|a&b}}", "key")
		if err == nil && s != "expanded {{T|a&b}}" {
			return fmt.Sprintf("wrong template text %q", s), nil
		}
		return "", err
	case "math":
		svg, png, err := svc.RenderMath("a+b")
		dir := filepath.Join(config.Current.CacheDir, "images")
		if err == nil && (svg != filepath.Join(dir, "formulaid.svg") || png != filepath.Join(dir, "formulaid.png")) {
			return fmt.Sprintf("wrong pictures %s %s", svg, png), nil
		}
		return "", err
	}
	panic(op)
}

const agent = "agent/{{VERSION}} (a@b) {{VERSION}}"

func runScript(dir, op string, script []letter, body []byte, chunk func(io.Reader) io.Reader, converter string) (o vlib.Outcome) {
	os.RemoveAll(dir)
	cfg := vlib.FreshConfig(dir)
	cfg.UserAgentTemplate = agent
	cfg.WikipediaInstance, cfg.WikipediaHost, cfg.WikipediaMathRestApi = "en", "wikipedia.org", mathApi
	cfg.MathConverter = converter
	s := &server{script: script, body: body, chunk: chunk}
	http.DefaultTransport = s
	vtime.Hook = func(d time.Duration) { s.waited += d.Seconds() }
	cached := map[string]string{}
	for round := 1; round <= 2; round++ {
		s.log = nil
		s.waited = 0
		rest := append([]letter{}, s.script...)
		pos := 0 // in the log
		start := time.Now()
		bad, err := perform(op)
		real := time.Since(start).Seconds()
		if bad != "" {
			o.Bad = fmt.Sprintf("call %d: %s", round, bad)
			return
		}
		// the model
		failed := ""
		for _, st := range stages(op, body) {
			if _, ok := cached[st.file]; ok && st.file != "" {
				continue
			}
			var last *letter
			for failed == "" {
				if pos >= len(s.log) {
					what := "nothing was requested yet"
					if last != nil {
						what = "the last answer was " + last.name
					}
					o.Bad = fmt.Sprintf("call %d: %s %s is not requested although %s", round, st.method, st.url, what)
					return
				}
				q := s.log[pos]
				pos++
				if q.method != st.method || q.body != st.body {
					o.Bad = fmt.Sprintf("call %d, request %d: %s %q instead of %s %q", round, pos, q.method, q.body, st.method, st.body)
					return
				}
				if last == nil || last.kind != "redirect" {
					if q.url != st.url {
						o.Bad = fmt.Sprintf("call %d, request %d: URL %s instead of %s", round, pos, q.url, st.url)
						return
					}
				}
				if want := strings.ReplaceAll(agent, "{{VERSION}}", util.VERSION); q.agent != want {
					o.Bad = fmt.Sprintf("call %d, request %d: user agent %q instead of %q", round, pos, q.agent, want)
					return
				}
				if st.method == "POST" && q.ctype != "application/x-www-form-urlencoded" {
					o.Bad = fmt.Sprintf("call %d, request %d: content type %q", round, pos, q.ctype)
					return
				}
				if last != nil && last.status == 429 {
					if q.waited+real < last.min || q.waited > last.max {
						o.Bad = fmt.Sprintf("call %d, request %d: repeated after %.1f s, the answer %s demands at least %.0f", round, pos, q.waited, last.name, last.min)
						return
					}
				}
				var cur letter
				if len(rest) > 0 {
					cur, rest = rest[0], rest[1:]
				} else {
					cur = letters[0]
				}
				if cur.name == "noloc" && st.method == "GET" {
					cur = letters[0]
				}
				o.States = append(o.States, fmt.Sprint(op, len(cached), cur.name))
				o.Steps++
				if cur.kind == "redirect" || cur.status == 429 {
					last = &cur
					continue
				}
				if cur.name != "ok" && !(cur.kind == "cut" && st.anyCut) {
					failed = cur.name
					break
				}
				if st.file != "" {
					cached[st.file] = st.content
				}
				break
			}
		}
		if pos != len(s.log) {
			o.Bad = fmt.Sprintf("call %d: unexpected request %s %s after %d others", round, s.log[pos].method, s.log[pos].url, pos)
			return
		}
		if (failed != "") != (err != nil) {
			o.Bad = fmt.Sprintf("call %d: the server answers %q, the operation ends with %v", round, failed, err)
			return
		}
		o.Observed += fmt.Sprint(failed, len(s.log), " ")
		// the cache
		got := map[string]string{}
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(p)
				got[strings.TrimPrefix(p, dir+"/")] = string(b)
			}
			return nil
		})
		for f, c := range cached {
			name := f
			if strings.HasSuffix(f, "*") {
				for g := range got {
					if strings.HasPrefix(g, strings.TrimSuffix(f, "*")) {
						name = g
					}
				}
			}
			if g, ok := got[name]; !ok || g != c {
				o.Bad = fmt.Sprintf("call %d: the cache does not hold the answer in %s: %v %.60q", round, f, ok, g)
				return
			}
			delete(got, name)
		}
		for f, c := range got {
			o.Bad = fmt.Sprintf("call %d: %s is cached although the server answered %q: %.60q", round, f, failed, c)
			return
		}
	}
	return
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// lazy returns nothing every other time.
type lazy struct {
	r io.Reader
	n int
}

func (l *lazy) Read(p []byte) (int, error) {
	l.n++
	if l.n%2 == 1 {
		return 0, nil
	}
	return l.r.Read(p)
}

// dataEof delivers the last data together with the end.
type dataEof struct{ rest []byte }

func (d *dataEof) Read(p []byte) (int, error) {
	n := copy(p, d.rest)
	d.rest = d.rest[n:]
	if len(d.rest) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func checkC08() *vlib.Check {
	return &vlib.Check{ID: "C08", Level: "model_checking", QuickS: 600, ThoroughS: 1500,
		Rule:        "every sequence of server answers to the requests of five operations (download, form request, article, template, formula), each performed twice; requests, waiting times, result and cache are compared with a model",
		Bounds:      map[string]string{"quick": "all scripts of up to 3 answers out of 19 (formula: plus a missing location), then only good answers; every status from 200 to 599 and 11 errors of MediaWiki and waiting times of up to a day at 4 positions, with and without Retry-After; 4 to 24 refusals (429) in a row, of one or two kinds, in front of every kind of end; 8 bodies of up to 5 MB x 4 ways of delivery", "thorough": "scripts of up to 4 answers, up to 150 refusals"},
		Assumptions: []string{"waiting times are virtual", "redirects are followed by Go's HTTP client"},
		Run: func(c *vlib.Ctx) {
			dir := filepath.Join(c.Scratch, "cache")
			for _, op := range []string{"get", "post", "article", "template", "math"} {
				alphabet := letters
				if op == "math" {
					alphabet = append(append([]letter{}, letters...), letter{name: "noloc", status: 200})
				}
				converter := config.MathConverterWikimedia
				var rec func(script []letter, n int) bool
				rec = func(script []letter, n int) bool {
					var names []string
					for _, l := range script {
						names = append(names, l.name)
					}
					if n == 0 {
						return c.Do(op+"|"+strings.Join(names, " "), func() vlib.Outcome {
							return runScript(dir, op, script, []byte("content\x00\xff"), nil, converter)
						})
					}
					for _, l := range alphabet {
						if rec(append(append([]letter{}, script...), l), n-1) {
							return true
						}
					}
					return false
				}
				for n := 0; n <= c.Pick(3, 4); n++ {
					if rec(nil, n) {
						return
					}
				}
			}
			// every status code and the errors of MediaWiki
			var single []letter
			for status := 200; status <= 599; status++ {
				switch status {
				case 200, 429, 301, 302, 303, 307, 308:
				default:
					single = append(single, letter{name: fmt.Sprint("status", status), status: status}, letter{name: fmt.Sprint("status", status, "later"), status: status, header: map[string]string{"Retry-After": "1"}})
				}
			}
			for _, seconds := range []int{299, 301, 601, 3601, 86401} { // more than some minutes
				single = append(single, letter{name: fmt.Sprint("429r", seconds), status: 429, header: map[string]string{"Retry-After": fmt.Sprint(seconds)}, min: float64(seconds), max: 1.2*float64(seconds) + 60})
			}
			for _, code := range []string{"maxlag", "ratelimited", "readonly", "internal_api_error_DBQueryTimeoutError", "nosuchpageid", "invalidtitle", "unknown", "0", "false", "none", "ok"} {
				single = append(single, letter{name: "error-" + code, status: 200, header: map[string]string{"mediawiki-api-error": code}}, letter{name: "error-" + code + "-later", status: 200, header: map[string]string{"mediawiki-api-error": code, "Retry-After": "1"}})
			}
			for _, op := range []string{"get", "post", "article", "template", "math"} {
				for _, l := range single {
					for _, script := range [][]letter{{l}, {letters[0], l}, {letters[11], l}, {l, l}} {
						if c.Do(fmt.Sprintf("single|%s|%v", op, script), func() vlib.Outcome {
							return runScript(dir, op, script, []byte("content"), nil, config.MathConverterWikimedia)
						}) {
							return
						}
					}
				}
			}
			// long runs of refusals: every refusal repeated, and two kinds after one another
			var refusals []letter
			for _, l := range letters {
				if l.status == 429 {
					refusals = append(refusals, l)
				}
			}
			ends := []letter{letters[0], letters[8], letters[2]}
			for _, op := range []string{"get", "post", "article", "template", "math"} {
				for _, first := range refusals {
					for n := 4; n <= c.Pick(24, 150); n++ {
						for _, second := range refusals {
							for _, end := range ends {
								var script []letter
								for i := 0; i < n; i++ {
									script = append(script, first)
								}
								if second.name != first.name {
									script = append(script, second, second)
								}
								if c.Do(fmt.Sprintf("refusals|%s|%d*%s 2*%s %s", op, n, first.name, second.name, end.name), func() vlib.Outcome {
									return runScript(dir, op, append(script, end), []byte("content"), nil, config.MathConverterWikimedia)
								}) {
									return
								}
							}
						}
					}
				}
			}
			all := make([]byte, 256)
			for i := range all {
				all[i] = byte(i)
			}
			bodies := map[string][]byte{"empty": {}, "one": {'x'}, "bytes": all, "64k": bytes.Repeat([]byte("y"), 65536), "100k": bytes.Repeat(all, 400), "1M": bytes.Repeat(all, 4097), "5M": bytes.Repeat(all[:251], 20901), "crlf": []byte("a\r\n\r\nb\n")}
			for name, b := range bodies {
				for how, chunk := range map[string]func(io.Reader) io.Reader{
					"whole": nil, "bytes": func(r io.Reader) io.Reader { return oneByte{r} }, "lazy": func(r io.Reader) io.Reader { return &lazy{r: r} },
					"eof": func(r io.Reader) io.Reader { b, _ := io.ReadAll(r); return &dataEof{b} },
				} {
					for _, script := range [][]letter{nil, {letters[12]}, {letters[5]}} {
						if c.Do(fmt.Sprintf("body|%s|%s|%v", name, how, script), func() vlib.Outcome {
							return runScript(dir, "get", script, b, chunk, config.MathConverterWikimedia)
						}) {
							return
						}
					}
				}
			}
		}}
}

var _ = md5.Sum
var _ = url.Parse

func main() { vlib.Main(checkC08(), checkC09()) }
