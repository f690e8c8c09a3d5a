package vlib

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"golang.org/x/net/html"
)

// Node is a simplified document tree: an element with children or a piece of text (Tag == "").
type Node struct {
	Tag   string
	Attr  map[string]string
	Text  string
	Kids  []*Node
	Class string
}

func El(tag string, kids ...*Node) *Node { return &Node{Tag: tag, Kids: kids} }
func ElA(tag string, attr map[string]string, kids ...*Node) *Node {
	return &Node{Tag: tag, Attr: attr, Kids: kids}
}
func Txt(s string) *Node { return &Node{Text: s} }

// Body returns the content of the generated document's body as a tree, parsed the way a browser does.
func Body(doc string) (*Node, error) {
	root, err := html.Parse(strings.NewReader(doc))
	if err != nil {
		return nil, err
	}
	var body *html.Node
	var find func(n *html.Node)
	find = func(n *html.Node) {
		if n.Type == html.ElementNode && n.Data == "body" {
			body = n
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			find(k)
		}
	}
	find(root)
	if body == nil {
		return nil, fmt.Errorf("no body")
	}
	return convert(body), nil
}

func convert(n *html.Node) *Node {
	out := &Node{Tag: n.Data, Attr: map[string]string{}}
	for _, a := range n.Attr {
		out.Attr[a.Key] = a.Val
	}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		switch k.Type {
		case html.TextNode:
			out.Kids = append(out.Kids, Txt(k.Data))
		case html.ElementNode:
			out.Kids = append(out.Kids, convert(k))
		case html.CommentNode:
			out.Kids = append(out.Kids, &Node{Tag: "!--", Kids: []*Node{Txt(k.Data)}})
		}
	}
	return out
}

// CanonOpts selects what the canonical form ignores.
type CanonOpts struct {
	DropTags map[string]bool // elements ignored altogether
	NoAttr   bool
}

// Canon writes the tree in canonical form: whitespace runs collapsed, text trimmed at element borders, empty text dropped.
func Canon(n *Node, o CanonOpts) string {
	var b strings.Builder
	canon(&b, n, o)
	return b.String()
}

func canon(b *strings.Builder, n *Node, o CanonOpts) {
	if n.Tag == "" {
		b.WriteString(collapse(n.Text))
		return
	}
	b.WriteString("<" + n.Tag)
	if !o.NoAttr {
		var keys []string
		for k := range n.Attr {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(b, " %s=%q", k, strings.TrimSpace(n.Attr[k]))
		}
	}
	b.WriteString(">")
	// merge neighbouring text
	var kids []*Node
	for _, k := range n.Kids {
		if o.DropTags[k.Tag] && k.Tag != "" {
			k = Txt(" ")
		}
		if k.Tag == "" && len(kids) > 0 && kids[len(kids)-1].Tag == "" {
			kids[len(kids)-1] = Txt(kids[len(kids)-1].Text + k.Text)
			continue
		}
		kids = append(kids, k)
	}
	for _, k := range kids {
		if k.Tag == "" {
			t := strings.TrimSpace(collapse(k.Text))
			if t != "" {
				b.WriteString("{" + t + "}")
			}
			continue
		}
		canon(b, k, o)
	}
	b.WriteString("</>")
}

func collapse(s string) string { return strings.Join(strings.Fields(s), " ") }

// Find returns all elements with the tag in document order.
func (n *Node) Find(tag string) []*Node {
	var out []*Node
	if n.Tag == tag {
		out = append(out, n)
	}
	for _, k := range n.Kids {
		out = append(out, k.Find(tag)...)
	}
	return out
}

// TextContent is the concatenated text below the node.
func (n *Node) TextContent() string {
	if n.Tag == "" {
		return n.Text
	}
	var b strings.Builder
	for _, k := range n.Kids {
		if k.Tag == "!--" {
			continue
		}
		b.WriteString(k.TextContent())
	}
	return b.String()
}

var voidTags = map[string]bool{"br": true, "img": true, "meta": true, "link": true, "hr": true, "wbr": true, "col": true, "input": true}

// TagBalance checks that every start tag of the raw markup has its end tag, properly nested. It returns "" or the defect.
func TagBalance(doc string) string {
	z := html.NewTokenizer(strings.NewReader(doc))
	var stack []string
	for {
		switch z.Next() {
		case html.ErrorToken:
			if z.Err() == io.EOF {
				if len(stack) > 0 {
					return "unclosed <" + strings.Join(stack, "> <") + ">"
				}
				return ""
			}
			return z.Err().Error()
		case html.StartTagToken:
			name, _ := z.TagName()
			if !voidTags[string(name)] {
				stack = append(stack, string(name))
			}
		case html.EndTagToken:
			nm, _ := z.TagName()
			name := string(nm)
			if voidTags[name] {
				continue
			}
			if len(stack) == 0 {
				return "</" + name + "> without start tag"
			}
			if stack[len(stack)-1] != name {
				return "</" + name + "> closes <" + stack[len(stack)-1] + ">"
			}
			stack = stack[:len(stack)-1]
		}
	}
}

// XmlBalance is like TagBalance for XML documents.
func XmlBalance(doc string) string {
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		_, err := d.Token()
		if err == io.EOF {
			return ""
		}
		if err != nil {
			return err.Error()
		}
	}
}

// BodyOf returns the part of a generated document between heading and footer.
func BodyOf(doc string) string {
	i := strings.Index(doc, "</h1>")
	j := strings.LastIndex(doc, "</body>")
	if i < 0 || j < i {
		return doc
	}
	return doc[i+5 : j]
}
