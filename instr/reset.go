package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"path/filepath"
	"strings"
)

// A run of the simulated program may begin with a fresh process: all package
// variables are initialised again, in the order the language prescribes, and the
// init functions run again. resets prepares the functions which do that for one
// file; the text it returns goes to the end of the file.
func (r *rewriter) resets() func() string {
	type piece struct {
		name string
		text func() string
	}
	var ps []piece
	in := func(n ast.Node) bool { return n.Pos() >= r.f.ast.FileStart && n.Pos() < r.f.ast.FileEnd }
	for i, it := range r.p.info.InitOrder {
		if !in(it.Rhs) {
			continue
		}
		rhs := it.Rhs
		var lhs []string
		blank := true
		for _, v := range it.Lhs {
			lhs = append(lhs, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank && !hasCall(rhs) {
			continue
		}
		r.p.resets[i] = true
		ps = append(ps, piece{fmt.Sprintf("_vreset%d", i), func() string {
			return strings.Join(lhs, ", ") + " = " + r.expr(rhs)
		}})
	}
	for _, d := range r.f.ast.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					name, typ := n.Name, vs.Type
					ps = append(ps, piece{fmt.Sprintf("_vzero%d", r.p.zeros), func() string {
						return name + " = *new(" + r.expr(typ) + ")"
					}})
					r.p.zeros++
				}
			}
		case *ast.FuncDecl:
			if d.Recv != nil || d.Name.Name != "init" || d.Body == nil {
				continue
			}
			// the init functions run in the simulated process only: the first run begins one
			name := fmt.Sprintf("_vinit%d", r.p.inits)
			r.rep(r.off(d.Name.Pos()), r.off(d.Name.End()), name)
			r.p.inits++
		}
	}
	return func() string {
		var b strings.Builder
		for _, p := range ps {
			fmt.Fprintf(&b, "\nfunc %s() { %s }\n", p.name, p.text())
		}
		return b.String()
	}
}

func hasCall(x ast.Expr) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func writeReset(p *pkgInfo) {
	var b bytes.Buffer
	name := p.tpkg.Name()
	if name == "main" {
		name = mainName(p)
	}
	fmt.Fprintf(&b, "package %s\n\nimport _vsim \"verifsim/sim\"\n\nfunc init() { _vsim.OnFresh(_vfresh) }\n\nfunc _vfresh() {\n", name)
	for i := 0; i < p.zeros; i++ {
		fmt.Fprintf(&b, "\t_vzero%d()\n", i)
	}
	for i := range p.info.InitOrder {
		if p.resets[i] {
			fmt.Fprintf(&b, "\t_vreset%d()\n", i)
		}
	}
	for i := 0; i < p.inits; i++ {
		fmt.Fprintf(&b, "\t_vinit%d()\n", i)
	}
	b.WriteString("}\n")
	mustWrite(filepath.Join(*out, p.dir, "verif_reset_v.go"), b.Bytes())
}
