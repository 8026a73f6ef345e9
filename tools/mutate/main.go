// mutate lists or applies small source changes, one at a time:
//
//	mutate list FILE...          one line per possible change: file:offset kind
//	mutate apply FILE N          print FILE with its N-th change made
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	kind     string
	line     int
}

// twins are names which are easily taken for one another.
var twins = map[string][]string{}

func init() {
	for _, g := range [][]string{
		{"x", "y"}, {"i", "j"}, {"w", "h"}, {"W", "H"}, {"X", "Y"}, {"dx", "dy"}, {"cx", "cy"}, {"fw", "fh"}, {"row", "col"}, {"Row", "Col"},
		{"top", "bottom", "left", "right"}, {"Width", "Height"}, {"width", "height"}, {"Dx", "Dy"}, {"Min", "Max"}, {"start", "end"},
		{"R", "G", "B"}, {"low", "high"}, {"hi", "lo"}, {"logoWidth", "logoHeight"}, {"padding", "blockWidth"}, {"dataBSet", "ecBSet"},
		{"dataBlocks", "ecBlocks"}, {"data", "raw"}, {"mask", "bits"}, {"previous", "next"}, {"bgColor", "qrColor"}, {"fg", "bg"},
		{"NLeft", "NRight"}, {"NTop", "NBot"}, {"NTopLeft", "NTopRight", "NBotLeft", "NBotRight"}, {"pattern1", "pattern2"},
		{"xmin", "ymin"}, {"xmax", "ymax"}, {"minProj", "maxProj"}, {"s1", "s2"}, {"mats", "masks"}, {"cpy", "mat"},
	} {
		for i, a := range g {
			twins[a] = append(append([]string(nil), g[:i]...), g[i+1:]...)
		}
	}
}

func edits(file string) ([]byte, []edit) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var out []edit
	add := func(from, to token.Pos, text, kind string) {
		out = append(out, edit{off(from), off(to), text, kind, fset.Position(from).Line})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+" -> "+s+" in "+str(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "const "+x.Value+" + 1")
						if v > 1 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), "const "+x.Value+" - 1")
						}
					}
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "("+str(x.Cond)+") && false", "if false: "+str(x.Cond))
				add(x.Cond.Pos(), x.Cond.End(), "("+str(x.Cond)+") || true", "if true: "+str(x.Cond))
			case *ast.BlockStmt:
				for i, s := range x.List {
					del(s, add, str)
					if i+1 < len(x.List) {
						t := x.List[i+1]
						add(s.Pos(), t.End(), str(t)+"\n"+str(s), "exchange "+str(s)+" and "+str(t))
					}
				}
			case *ast.ForStmt:
				add(x.Body.Rbrace, x.Body.Rbrace, "\nif true { break }\n", "once: for "+str(x))
			case *ast.RangeStmt:
				add(x.Body.Rbrace, x.Body.Rbrace, "\nif true { break }\n", "once: range "+str(x.X))
			case *ast.DeferStmt:
				add(x.Pos(), x.End(), str(x.Call), "at once "+str(x))
			case *ast.ReturnStmt:
				if n := len(x.Results); n > 0 {
					if id, ok := x.Results[n-1].(*ast.Ident); ok && id.Name != "nil" {
						add(id.Pos(), id.End(), "nil", "nil: "+str(x))
					}
				}
			case *ast.SelectorExpr:
				for _, t := range twins[x.Sel.Name] {
					add(x.Sel.Pos(), x.Sel.End(), t, "twin "+str(x)+" -> "+t)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, add, str)
				}
			case *ast.CallExpr:
				// two neighbouring plain arguments exchanged
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if _, ok := a.(*ast.Ident); !ok {
						continue
					}
					if _, ok := b.(*ast.Ident); !ok {
						continue
					}
					add(a.Pos(), b.End(), str(b)+", "+str(a), "swap args of "+str(x))
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false -> true")
				} else {
					for _, t := range twins[x.Name] {
						if x.Obj != nil {
							add(x.Pos(), x.End(), t, "twin "+x.Name+" -> "+t)
						}
					}
				}
			}
			return true
		})
	}
	return src, out
}

func del(s ast.Stmt, add func(from, to token.Pos, text, kind string), str func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
		add(s.Pos(), s.End(), "", "delete "+str(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "delete "+str(s))
		}
	case *ast.BranchStmt:
		if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
			add(s.Pos(), s.End(), "", "delete "+str(s))
		}
	}
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			_, es := edits(f)
			for i, e := range es {
				k := e.kind
				if len(k) > 110 {
					k = k[:110]
				}
				b := []byte(k)
				for j := range b {
					if b[j] == '\n' || b[j] == '\t' {
						b[j] = ' '
					}
				}
				fmt.Printf("%s\t%d\t%d\t%s\n", f, i, e.line, b)
			}
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		src, es := edits(os.Args[2])
		e := es[n]
		os.Stdout.Write(src[:e.from])
		fmt.Print(e.text)
		os.Stdout.Write(src[e.to:])
	}
}
