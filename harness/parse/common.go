// Parser: exhaustive enumeration of wikitext over bounded grammars, the real tokenizer and generators compared with independent
// reference models.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"wiki2book/config"
	"wiki2book/generator"
	"wiki2book/parser"
	"wiki2book/wikipedia"
	"wiki2book/zz_verif/vlib"
)

// service is a Wikipedia stand-in without network and files: templates are expanded by expand, formulas have fixed pictures.
type service struct {
	*wikipedia.MockWikipediaService
	expand    func(string) string
	evaluated []string
	answers   map[string]string // by key
	math      []string
}

var svgFile, pngFile string

func newService() *service {
	s := &service{MockWikipediaService: wikipedia.NewMockWikipediaService()}
	s.EvaluateTemplateFunc = func(t, key string) (string, error) {
		s.evaluated = append(s.evaluated, t)
		if s.expand != nil {
			// like the cache of the real service: what was fetched for a key is the answer for this key
			if s.answers == nil {
				s.answers = map[string]string{}
			}
			if _, ok := s.answers[key]; !ok {
				s.answers[key] = s.expand(t)
			}
			return s.answers[key], nil
		}
		return "(" + strings.TrimSuffix(strings.TrimPrefix(t, "{{"), "}}") + ")", nil
	}
	s.RenderMathFunc = func(m string) (string, string, error) {
		s.math = append(s.math, m)
		return svgFile, pngFile, nil
	}
	return s
}

// setup prepares configuration and files of this worker.
func setup(c *vlib.Ctx) *config.Configuration {
	dir := filepath.Join(c.Scratch, "cache")
	cfg := vlib.FreshConfig(dir)
	cfg.CacheEvictionStrategy = "none"
	svgFile = filepath.Join(dir, "images", "formula.svg")
	pngFile = filepath.Join(dir, "images", "formula.png")
	os.WriteFile(svgFile, []byte(vlib.MathSvg("f")), 0644)
	os.WriteFile(pngFile, []byte("png"), 0644)
	return cfg
}

type result struct {
	html    string
	article *parser.Article
	svc     *service
	err     error
}

// render runs tokenizer and HTML generator.
func render(text string, svc *service) (r result) {
	r.svc = svc
	tokenizer := parser.NewTokenizer(svc)
	r.article, r.err = tokenizer.Tokenize(text, "T")
	if r.err != nil {
		return
	}
	gen := &generator.HtmlGenerator{TokenMap: r.article.TokenMap, WikipediaService: svc}
	file, err := gen.Generate(r.article)
	if err != nil {
		r.err = err
		return
	}
	b, err := os.ReadFile(file)
	r.html, r.err = string(b), err
	return
}

func main() {
	if f := os.Getenv("PARSE_TEXT"); f != "" { // for experiments: print what a text becomes
		b, _ := os.ReadFile(f)
		dir, _ := os.MkdirTemp("", "parse")
		defer os.RemoveAll(dir)
		setup(&vlib.Ctx{Scratch: dir})
		r := render(string(b), newService())
		fmt.Println(vlib.BodyOf(r.html), r.err)
		return
	}
	vlib.Main(checkC21(), checkC27(), checkC11(), checkC17(), checkC13(), checkC14(), checkC15(), checkC16(), checkC18(), checkC19(), checkC20())
}
