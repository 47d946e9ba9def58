package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// desugar rewrites calls of the generic slices and maps helpers, whose bodies are not part of the program that is
// analysed, into the loops they stand for. The result is an overlay for a second load; nil when there are none.
// A call it cannot rewrite is left alone and judged as a call of an unknown function.
func desugar(fset *token.FileSet, pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := fset.Position(f.Package).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			d := &desugarer{fset: fset, p: p, f: f, name: name, used: map[string]int{}, gone: map[string]int{}}
			if src := d.run(); src != nil {
				out[name] = src
			}
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

type textEdit struct {
	from, to int
	s        string
}

type desugarer struct {
	fset  *token.FileSet
	p     *packages.Package
	f     *ast.File
	name  string
	src   string
	used  map[string]int // uses of the two packages
	gone  map[string]int
	edits []textEdit
	n     int
}

func (d *desugarer) off(p token.Pos) int       { return d.fset.Position(p).Offset }
func (d *desugarer) text(n ast.Node) string    { return d.src[d.off(n.Pos()):d.off(n.End())] }
func (d *desugarer) typ(e ast.Expr) types.Type { return d.p.TypesInfo.TypeOf(e) }

// std: the name of the helper a call is for, "maps.Values" say.
func (d *desugarer) std(e ast.Expr) (string, []ast.Expr) {
	call, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || call.Ellipsis.IsValid() {
		return "", nil
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", nil
	}
	fn, ok := d.p.TypesInfo.Uses[sel.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "slices" && fn.Pkg().Path() != "maps" {
		return "", nil
	}
	return fn.Pkg().Path() + "." + fn.Name(), call.Args
}

// spell: the type as this file can write it.
func (d *desugarer) spell(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(q *types.Package) string {
		if q == d.p.Types {
			return ""
		}
		for _, im := range d.f.Imports {
			if pn, is := d.p.TypesInfo.Implicits[im].(*types.PkgName); is && pn.Imported() == q {
				return pn.Name()
			}
			if im.Name != nil {
				if pn, is := d.p.TypesInfo.Defs[im.Name].(*types.PkgName); is && pn.Imported() == q && pn.Name() != "." && pn.Name() != "_" {
					return pn.Name()
				}
			}
		}
		ok = false
		return q.Name()
	})
	return s, ok
}

// plainExpr: evaluating the expression again gives the same and does nothing.
func plainExpr(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainExpr(e.X)
	}
	return false
}

// expand: statements that leave the value of the call in the variable.
func (d *desugarer) expand(v string, e ast.Expr) (string, bool) {
	name, args := d.std(e)
	d.n++
	k := fmt.Sprintf("zzK%d", d.n)
	switch name {
	case "slices.Collect":
		inner, in := d.std(args[0])
		if inner != "maps.Values" && inner != "maps.Keys" || !plainExpr(in[0]) {
			return "", false
		}
		t, ok := d.spell(d.typ(e))
		if !ok {
			return "", false
		}
		ks := "_, " + k
		if inner == "maps.Keys" {
			ks = k
		}
		d.gone["slices"]++
		d.gone["maps"]++
		m := d.text(in[0])
		return fmt.Sprintf("%s := make(%s, 0, len(%s)); for %s := range %s { %s = append(%s, %s) }", v, t, m, ks, m, v, v, k), true
	case "maps.Clone":
		if !plainExpr(args[0]) {
			return "", false
		}
		t, ok := d.spell(d.typ(e))
		if !ok {
			return "", false
		}
		d.gone["maps"]++
		m := d.text(args[0])
		return fmt.Sprintf("var %s %s; if %s != nil { %s = make(%s, len(%s)); for %s, zzV := range %s { %s[%s] = zzV } }", v, t, m, v, t, m, k, m, v, k), true
	case "slices.Contains":
		if !plainExpr(args[0]) || !plainExpr(args[1]) {
			return "", false
		}
		d.gone["slices"]++
		return fmt.Sprintf("%s := false; for _, %s := range %s { if %s == %s { %s = true; break } }", v, k, d.text(args[0]), k, d.text(args[1]), v), true
	}
	return "", false
}

func (d *desugarer) stmt(s ast.Stmt) {
	put := func(from, to token.Pos, t string) {
		d.edits = append(d.edits, textEdit{d.off(from), d.off(to), t})
	}
	switch s := s.(type) {
	case *ast.ExprStmt:
		if name, args := d.std(s.X); name == "maps.Copy" && plainExpr(args[0]) && plainExpr(args[1]) {
			d.n++
			d.gone["maps"]++
			put(s.Pos(), s.End(), fmt.Sprintf("for zzK%d, zzV := range %s { %s[zzK%d] = zzV }", d.n, d.text(args[1]), d.text(args[0]), d.n))
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return
		}
		id, isID := s.Lhs[0].(*ast.Ident)
		if s.Tok == token.DEFINE && isID && id.Name != "_" && !d.mentions(s.Rhs[0], id.Name) {
			if t, ok := d.expand(id.Name, s.Rhs[0]); ok {
				put(s.Pos(), s.End(), t)
			}
		} else if s.Tok == token.ASSIGN {
			v := fmt.Sprintf("zzR%d", d.n)
			if t, ok := d.expand(v, s.Rhs[0]); ok {
				put(s.Pos(), s.Pos(), t+"; ")
				put(s.Rhs[0].Pos(), s.Rhs[0].End(), v)
			}
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			v := fmt.Sprintf("zzR%d", d.n)
			if t, ok := d.expand(v, s.Results[0]); ok {
				put(s.Pos(), s.Pos(), t+"; ")
				put(s.Results[0].Pos(), s.Results[0].End(), v)
			}
		}
	case *ast.IfStmt:
		if s.Init == nil {
			c := ast.Unparen(s.Cond)
			if u, ok := c.(*ast.UnaryExpr); ok && u.Op == token.NOT {
				c = u.X
			}
			v := fmt.Sprintf("zzR%d", d.n)
			if t, ok := d.expand(v, c); ok {
				put(s.Pos(), s.Pos(), t+"; ")
				put(c.Pos(), c.End(), v)
			}
		}
	case *ast.RangeStmt:
		switch name, args := d.std(s.X); name {
		case "maps.Values":
			if s.Key != nil && s.Value == nil {
				d.gone["maps"]++
				put(s.Key.Pos(), s.Key.Pos(), "_, ")
				put(s.X.Pos(), s.X.End(), d.text(args[0]))
			}
		case "maps.Keys", "maps.All", "slices.All":
			d.gone[name[:strings.Index(name, ".")]]++
			put(s.X.Pos(), s.X.End(), d.text(args[0]))
		case "slices.Values":
			if s.Key != nil && s.Value == nil {
				d.gone["slices"]++
				put(s.Key.Pos(), s.Key.Pos(), "_, ")
				put(s.X.Pos(), s.X.End(), d.text(args[0]))
			}
		default:
			v := fmt.Sprintf("zzR%d", d.n)
			if t, ok := d.expand(v, s.X); ok {
				put(s.Pos(), s.Pos(), t+"; ")
				put(s.X.Pos(), s.X.End(), v)
			}
		}
	}
}

func (d *desugarer) mentions(e ast.Expr, name string) (yes bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			yes = yes || d.mentions(n.X, name)
			return false
		case *ast.Ident:
			yes = yes || n.Name == name
		}
		return true
	})
	return yes
}

func (d *desugarer) run() []byte {
	uses := false
	for _, im := range d.f.Imports {
		uses = uses || im.Name == nil && (im.Path.Value == `"slices"` || im.Path.Value == `"maps"`)
	}
	if !uses {
		return nil
	}
	b, err := os.ReadFile(d.name)
	if err != nil {
		return nil
	}
	d.src = string(b)
	ast.Inspect(d.f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch n := n.(type) {
		case *ast.BlockStmt:
			list = n.List
		case *ast.CaseClause:
			list = n.Body
		case *ast.CommClause:
			list = n.Body
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := d.p.TypesInfo.Uses[id].(*types.PkgName); ok {
					d.used[pn.Imported().Path()]++
				}
			}
		case *ast.CallExpr:
			// a copy, wherever it stands
			if name, args := d.std(n); name == "slices.Clone" && len(args) == 1 {
				if t, ok := d.spell(d.typ(n)); ok {
					d.gone["slices"]++
					d.edits = append(d.edits, textEdit{d.off(n.Pos()), d.off(args[0].Pos()), "append(" + t + "(nil), "}, textEdit{d.off(args[0].End()), d.off(n.End()), "...)"})
				}
			}
		}
		for _, s := range list {
			d.stmt(s)
		}
		return true
	})
	if len(d.edits) == 0 {
		return nil
	}
	for _, im := range d.f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if im.Name == nil && (path == "slices" || path == "maps") && d.used[path] == d.gone[path] {
			d.edits = append(d.edits, textEdit{d.off(im.Pos()), d.off(im.Pos()), "_ "})
		}
	}
	sort.SliceStable(d.edits, func(i, j int) bool { return d.edits[i].from < d.edits[j].from })
	var s strings.Builder
	at := 0
	for _, e := range d.edits {
		if e.from < at {
			return nil // one inside another
		}
		s.WriteString(d.src[at:e.from])
		s.WriteString(e.s)
		at = e.to
	}
	s.WriteString(d.src[at:])
	return []byte(s.String())
}
