package vlib

import (
	"os"
	"path/filepath"
	"strconv"
	"wiki2book/config"
	"wiki2book/generator"
	"wiki2book/http"
	"wiki2book/image"
	"wiki2book/parser"
	"wiki2book/wikipedia"
)

var envCounter int

// Dir makes a fresh scratch directory of this worker.
func (c *Ctx) Dir() string {
	envCounter++
	d := filepath.Join(c.Scratch, "d"+strconv.Itoa(envCounter))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// FreshConfig resets the global configuration with the cache in a scratch directory.
func FreshConfig(cacheDir string) *config.Configuration {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = cacheDir
	for _, d := range []string{".tmp", "articles", "html", "images", "math", "templates"} {
		if err := os.MkdirAll(filepath.Join(cacheDir, d), 0755); err != nil {
			panic(err)
		}
	}
	config.Current.CommandTemplateImageProcessing = ""
	return config.Current
}

// NewService builds the Wikipedia service the way the program does.
func NewService() *wikipedia.DefaultWikipediaService {
	return wikipedia.NewWikipediaService(config.Current.WikipediaInstance, config.Current.WikipediaHost, config.Current.WikipediaImageArticleHosts,
		config.Current.WikipediaImageHost, config.Current.WikipediaMathRestApi, image.NewImageProcessingService(), http.NewDefaultHttpService())
}

// Rendered is what one article became.
type Rendered struct {
	Html   string
	Images []string
	Err    error
}

// RenderArticle runs tokenizer and HTML generator on the wikitext and returns the generated HTML file's content.
func RenderArticle(title, wikitext string) Rendered {
	svc := NewService()
	tokenizer := parser.NewTokenizer(svc)
	article, err := tokenizer.Tokenize(wikitext, title)
	if err != nil {
		return Rendered{Err: err}
	}
	gen := &generator.HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: svc}
	os.Remove(filepath.Join(config.Current.CacheDir, "html", title+".html"))
	file, err := gen.Generate(article)
	if err != nil {
		return Rendered{Err: err, Images: article.Images}
	}
	b, err := os.ReadFile(file)
	return Rendered{Html: string(b), Err: err, Images: article.Images}
}
