package vlib

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"path"
	"strings"
	"sync"
)

// Web is an in-memory stand-in for the MediaWiki instances, the image host and the math API. It is installed as the
// transport of every HTTP client of the program.
type Web struct {
	mu        sync.Mutex
	Articles  map[string]string // "host|Title_with_underscores" or "*|Title" -> wikitext
	Redirects map[string]string // "host|Title" or "*|Title" -> actual title
	Expand    func(text string) string
	Images    map[string][]byte // file name (underscores) -> content; nil map: every name exists
	// Hook may answer a request itself.
	Hook func(r *http.Request, body string) (*http.Response, error, bool)
	// Gate is called before the request is answered.
	Gate func(what string)
	// WrapBody may replace the reader of the response body.
	WrapBody func(what string, r io.Reader) io.Reader
	// HeaderFor sets additional response headers
	Log []string
}

func NewWeb() *Web {
	return &Web{Articles: map[string]string{}, Redirects: map[string]string{}}
}

func (w *Web) Install() { http.DefaultTransport = w }

func (w *Web) Requests() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.Log...)
}

func (w *Web) ResetLog() {
	w.mu.Lock()
	w.Log = nil
	w.mu.Unlock()
}

func (w *Web) lookup(m map[string]string, host, title string) (string, bool) {
	if v, ok := m[host+"|"+title]; ok {
		return v, true
	}
	v, ok := m["*|"+title]
	return v, ok
}

func headers(header map[string]string) http.Header {
	h := http.Header{}
	for k, v := range header {
		h.Set(k, v)
	}
	return h
}

func Response(r *http.Request, status int, header map[string]string, body io.Reader) *http.Response {
	h := headers(header)
	if b, ok := body.(interface{ Len() int }); ok && b.Len() == 0 {
		// like the client of net/http does it
		return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: h, Body: http.NoBody, ContentLength: 0, Request: r}
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(body), ContentLength: -1, Request: r}
}

func (w *Web) RoundTrip(r *http.Request) (*http.Response, error) {
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		body = string(b)
	}
	what := r.Method + " " + r.URL.String()
	if body != "" {
		what += " " + body
	}
	if w.Gate != nil {
		w.Gate(what)
	}
	w.mu.Lock()
	w.Log = append(w.Log, what)
	w.mu.Unlock()
	if w.Hook != nil {
		if resp, err, ok := w.Hook(r, body); ok {
			return resp, err
		}
	}
	status, header, data := w.answer(r, body)
	var rd io.Reader = bytes.NewReader(data)
	if w.WrapBody != nil {
		rd = w.WrapBody(what, rd)
	}
	return Response(r, status, header, rd), nil
}

func (w *Web) answer(r *http.Request, body string) (int, map[string]string, []byte) {
	host := r.URL.Host
	q := r.URL.Query()
	switch {
	case q.Get("action") == "parse":
		title := q.Get("page")
		actual := title
		if v, ok := w.lookup(w.Redirects, host, title); ok {
			actual = v
		}
		text, ok := w.lookup(w.Articles, host, actual)
		if !ok && strings.HasPrefix(actual, "File:") && w.Images == nil {
			text, ok = "", true
		}
		if !ok {
			return 200, map[string]string{"mediawiki-api-error": "missingtitle"}, []byte(`{"error":{"code":"missingtitle"}}`)
		}
		b, _ := json.Marshal(map[string]any{"parse": map[string]any{"title": strings.ReplaceAll(actual, "_", " "), "wikitext": map[string]any{"*": text}}})
		return 200, nil, b
	case q.Get("action") == "expandtemplates":
		text := q.Get("text")
		out := text
		if w.Expand != nil {
			out = w.Expand(text)
		}
		b, _ := json.Marshal(map[string]any{"expandtemplates": map[string]any{"wikitext": out}})
		return 200, nil, b
	case strings.HasSuffix(r.URL.Path, "/check/tex"):
		v, _ := url.ParseQuery(body)
		id := MathID(v.Get("q"))
		return 200, map[string]string{"x-resource-location": id}, []byte("{}")
	case strings.Contains(r.URL.Path, "/render/svg/"):
		return 200, nil, []byte(MathSvg(path.Base(r.URL.Path)))
	case strings.Contains(r.URL.Path, "/render/png/"):
		return 200, nil, []byte("PNG:" + path.Base(r.URL.Path))
	}
	name, err := url.PathUnescape(path.Base(r.URL.EscapedPath()))
	if err != nil {
		return 400, nil, nil
	}
	if w.Images == nil {
		return 200, nil, ImageBytes(name)
	}
	if b, ok := w.Images[name]; ok {
		return 200, nil, b
	}
	return 404, nil, []byte("no such image")
}

// ImageBytes is the default content of an image.
func ImageBytes(name string) []byte {
	if strings.HasSuffix(strings.ToLower(name), ".svg") {
		if strings.HasPrefix(name, "Rel") {
			return []byte(`<svg xmlns="http://www.w3.org/2000/svg" width="100%" height="100%" viewBox="0 0 10 20"><!-- ` + name + ` --></svg>`)
		}
		return []byte(`<svg xmlns="http://www.w3.org/2000/svg" width="10" height="20" viewBox="0 0 10 20"><!-- ` + strings.ReplaceAll(name, "--", "") + ` --></svg>`)
	}
	return []byte("IMG:" + name)
}

// MathID is the resource location of a formula (with or without the displaystyle wrapper).
func MathID(q string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(q))) }

// MathSvg is the rendering of a formula.
func MathSvg(id string) string {
	return `<svg xmlns="http://www.w3.org/2000/svg" width="2ex" height="3ex" style="vertical-align: -1ex;" viewBox="0 0 20 30"><!-- ` + id + ` --></svg>`
}
