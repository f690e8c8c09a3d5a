// rewrite SRC DST [--sync] [--os] [--points]: writes DST when the file changes.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	opts := map[string]bool{}
	for _, a := range os.Args[3:] {
		opts[a] = true
	}
	data, err := os.ReadFile(src)
	check(err)
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, src, data, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	var edits []edit
	for _, imp := range file.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		repl := ""
		if path == "sync" && opts["--sync"] {
			repl = "wiki2book/zz_verif/vsync"
		}
		if path == "os" && opts["--os"] {
			repl = "wiki2book/zz_verif/vos"
		}
		if path == "os/exec" && opts["--exec"] {
			repl = "wiki2book/zz_verif/vexec"
		}
		if repl == "" {
			continue
		}
		name := path[strings.LastIndexByte(path, '/')+1:]
		if imp.Name != nil {
			name = imp.Name.Name
		}
		edits = append(edits, edit{off(imp.Pos()), off(imp.End()), name + " " + strconv.Quote(repl)})
	}
	if opts["--points"] {
		n := 0
		for _, d := range file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || f.Name.Name == "init" {
				continue
			}
			edits = append(edits, edit{off(f.Body.Lbrace) + 1, off(f.Body.Lbrace) + 1, " zzvsched.FuncPoint(" + strconv.Quote(f.Name.Name) + ");"})
			n++
		}
		if n > 0 {
			// Imports must precede declarations: put it directly behind the package clause on the same line.
			p := off(file.Name.End())
			edits = append(edits, edit{p, p, `; import zzvsched "wiki2book/zz_verif/vsched"`})
		}
	}
	if opts["--time"] {
		timeName := ""
		for _, imp := range file.Imports {
			if imp.Path.Value == `"time"` {
				timeName = "time"
				if imp.Name != nil {
					timeName = imp.Name.Name
				}
			}
		}
		n := 0
		ast.Inspect(file, func(x ast.Node) bool {
			s, ok := x.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || timeName == "" || id.Name != timeName || id.Obj != nil {
				return true
			}
			switch s.Sel.Name {
			case "Sleep", "After", "NewTimer", "Tick":
				edits = append(edits, edit{off(id.Pos()), off(id.End()), "zzvtime"})
				n++
			}
			return true
		})
		if n > 0 {
			p := off(file.Name.End())
			edits = append(edits, edit{p, p, `; import zzvtime "wiki2book/zz_verif/vtime"`})
			edits = append(edits, edit{len(data), len(data), "\n\nvar _ " + timeName + ".Duration\n"})
		}
	}
	if opts["--os"] {
		pathName := ""
		for _, imp := range file.Imports {
			if imp.Path.Value == `"path/filepath"` {
				pathName = "filepath"
				if imp.Name != nil {
					pathName = imp.Name.Name
				}
			}
		}
		n := 0
		ast.Inspect(file, func(x ast.Node) bool {
			s, ok := x.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || pathName == "" || id.Name != pathName || id.Obj != nil {
				return true
			}
			if s.Sel.Name == "Walk" || s.Sel.Name == "WalkDir" {
				edits = append(edits, edit{off(id.Pos()), off(id.End()), "zzvwalk"})
				n++
			}
			return true
		})
		if n > 0 {
			p := off(file.Name.End())
			edits = append(edits, edit{p, p, `; import zzvwalk "wiki2book/zz_verif/vos"`})
			edits = append(edits, edit{len(data), len(data), "\n\nvar _ = " + pathName + ".Base\n"})
		}
	}
	for o := range opts {
		name, ok := strings.CutPrefix(o, "--reset=")
		if !ok {
			continue
		}
		// A function giving all package variables their initial values again.
		code := ""
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				var names []string
				blank := true
				for _, n := range v.Names {
					names = append(names, n.Name)
					blank = blank && n.Name == "_"
				}
				if blank {
					continue
				}
				if len(v.Values) == 0 {
					for _, n := range names {
						code += "\t" + n + " = *new(" + string(data[off(v.Type.Pos()):off(v.Type.End())]) + ")\n"
					}
					continue
				}
				code += "\t" + strings.Join(names, ", ") + " = " + string(data[off(v.Values[0].Pos()):off(v.Values[len(v.Values)-1].End())]) + "\n"
			}
		}
		edits = append(edits, edit{len(data), len(data), "\n\nfunc " + name + "() {\n" + code + "}\n"})
	}
	if len(edits) == 0 {
		return
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos > edits[j].pos })
	for _, e := range edits {
		data = append(data[:e.pos:e.pos], append([]byte(e.text), data[e.end:]...)...)
	}
	check(os.WriteFile(dst, data, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
