package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// edit replaces src[from:to] by text.
type edit struct {
	from, to int
	text     string
	lazy     func() string
	seq      int
}

type rewriter struct {
	p        *pkgInfo
	f        *srcFile
	edits    []edit
	n        int // unique suffix
	sites    *siteTab
	need     map[string]string // import path -> alias
	imps     map[string]string // local name -> path (remapped ones)
	fall     map[string]string // real packages needed besides: path -> alias
	done     map[ast.Node]bool
	defLabel map[ast.Stmt]*ast.LabeledStmt
}

func (r *rewriter) off(p token.Pos) int  { return fset.Position(p).Offset }
func (r *rewriter) line(p token.Pos) int { return fset.Position(p).Line }

func (r *rewriter) ins(at int, text string)        { r.add(edit{from: at, to: at, text: text}) }
func (r *rewriter) rep(from, to int, text string)  { r.add(edit{from: from, to: to, text: text}) }
func (r *rewriter) add(e edit)                     { e.seq = len(r.edits); r.edits = append(r.edits, e) }
func (r *rewriter) uniq() int                      { r.n++; return r.n }
func (r *rewriter) site(p token.Pos) int           { return r.sites.add(r.f.rel, r.line(p)) }
func (r *rewriter) sim() string                    { return r.alias("verifsim/sim", "_vsim") }
func (r *rewriter) alias(path, name string) string { r.need[path] = name; return name }

func (r *rewriter) fail(p token.Pos, f string, a ...any) {
	die("%s:%d: unsupported: %s", r.f.rel, r.line(p), fmt.Sprintf(f, a...))
}

// render applies the edits inside [from,to).
func (r *rewriter) render(from, to int) string {
	var b bytes.Buffer
	pos := from
	for _, e := range r.edits {
		if e.from < from || e.to > to || (e.from == to && e.to == to && from != to && !e.atEnd(to)) {
			continue
		}
		if e.from < pos {
			continue // inside a replaced range
		}
		b.Write(r.f.src[pos:e.from])
		if e.lazy != nil {
			b.WriteString(e.lazy())
		} else {
			b.WriteString(e.text)
		}
		pos = e.to
	}
	b.Write(r.f.src[pos:to])
	return b.String()
}

func (e edit) atEnd(int) bool { return strings.HasPrefix(e.text, ")") }

// expr renders one expression, with its edits (whose closing parentheses are
// inserted at its end).
func (r *rewriter) expr(x ast.Expr) string {
	return r.render(r.off(x.Pos()), r.off(x.End()))
}

func (r *rewriter) sortEdits() {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		// closing insertions first, then other insertions in order, then replacements
		ca, cb := a.rank(), b.rank()
		if ca != cb {
			return ca < cb
		}
		if ca == 0 { // closing parentheses: inner (added later) first
			return false
		}
		if a.from == a.to && b.from == b.to {
			return a.seq < b.seq
		}
		return a.to > b.to // outermost replacement wins
	})
}

func (e edit) rank() int {
	if e.from == e.to {
		if strings.HasPrefix(e.text, ")") || strings.HasPrefix(e.text, " }") {
			return 0
		}
		return 1
	}
	return 2
}

func rewrite(p *pkgInfo, f *srcFile, sites *siteTab) {
	r := &rewriter{p: p, f: f, sites: sites, need: map[string]string{}, imps: map[string]string{}, fall: map[string]string{},
		done: map[ast.Node]bool{}, defLabel: map[ast.Stmt]*ast.LabeledStmt{}}
	r.imports()
	// package clause and build constraints
	if p.tpkg.Name() == "main" {
		r.rep(r.off(f.ast.Name.Pos()), r.off(f.ast.Name.End()), mainName(p))
	}
	for _, cg := range f.ast.Comments {
		for _, c := range cg.List {
			if c.Pos() < f.ast.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
				r.rep(r.off(c.Pos()), r.off(c.End()), "//")
			}
			if strings.HasPrefix(c.Text, "//go:embed") {
				r.fail(c.Pos(), "go:embed")
			}
		}
	}
	ast.Inspect(f.ast, r.visit)
	tail := r.resets()
	// imports needed by the rewritten text
	var b strings.Builder
	var need []string
	for path := range r.need {
		need = append(need, path)
	}
	sort.Strings(need)
	for _, path := range need {
		fmt.Fprintf(&b, "; import %s %q", r.need[path], path)
	}
	if b.Len() > 0 {
		r.ins(r.off(f.ast.Name.End()), b.String())
	}
	r.sortEdits()
	text := r.render(0, len(f.src)) + tail()
	name := strings.TrimSuffix(filepath.Base(f.rel), ".go") + "_v.go"
	mustWrite(filepath.Join(*out, filepath.Dir(f.rel), name), []byte(text))
}

func (r *rewriter) imports() {
	for _, s := range r.f.ast.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		to, ok := remap[path]
		if !ok {
			continue
		}
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		}
		if name == "." {
			r.fail(s.Pos(), "dot import of %s", path)
		}
		local := name
		if local == "" {
			local = realName[path]
			if local == "" {
				local = filepath.Base(path)
			}
			r.rep(r.off(s.Path.Pos()), r.off(s.Path.End()), fmt.Sprintf("%s %q", local, to))
		} else {
			r.rep(r.off(s.Path.Pos()), r.off(s.Path.End()), strconv.Quote(to))
		}
		r.imps[local] = path
	}
	if len(r.imps) == 0 {
		return
	}
	// selectors the stand-in does not provide fall back to the real package
	used := map[string]bool{}
	ast.Inspect(r.f.ast, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		path, ok := r.imps[id.Name]
		if !ok {
			return true
		}
		if obj := r.p.info.Uses[id]; obj != nil {
			if _, isPkg := obj.(*types.PkgName); !isPkg {
				return true
			}
		}
		if simExp[remap[path]][sel.Sel.Name] {
			used[id.Name] = true
			return true
		}
		alias := "_vreal_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path)
		r.need[path] = alias
		r.rep(r.off(id.Pos()), r.off(id.End()), alias)
		return true
	})
	for _, s := range r.f.ast.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if remap[path] == "" {
			continue
		}
		for local, p := range r.imps {
			if p == path && !used[local] && local != "_" {
				// every use went to the real package: keep the import alive
				if s.Name != nil {
					r.rep(r.off(s.Name.Pos()), r.off(s.Name.End()), "_")
				} else {
					for i := range r.edits {
						if r.edits[i].from == r.off(s.Path.Pos()) {
							r.edits[i].text = fmt.Sprintf("_ %q", remap[path])
						}
					}
				}
			}
		}
	}
}

func (r *rewriter) typeOf(x ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[x]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := r.p.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// core returns the underlying type, looking through type parameters.
func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			e := i.EmbeddedType(0)
			if u, ok := e.(*types.Union); ok && u.Len() >= 1 {
				return u.Term(0).Type().Underlying()
			}
			return e.Underlying()
		}
	}
	return t.Underlying()
}

func (r *rewriter) isBuiltin(x ast.Expr, name string) bool {
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o := r.p.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		r.ins(r.off(s.Pos()), fmt.Sprintf("%s.Y(%d); ", r.sim(), r.site(s.Pos())))
	}
}

func (r *rewriter) emptyLoop(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		r.ins(r.off(b.Lbrace)+1, fmt.Sprintf(" %s.Y(%d); ", r.sim(), r.site(b.Pos())))
	}
}

func (r *rewriter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		if !isCases(n) {
			r.stmts(n.List)
		}
	case *ast.CaseClause:
		r.stmts(n.Body)
	case *ast.CommClause:
		r.stmts(n.Body)
	case *ast.LabeledStmt:
		r.defLabel[n.Stmt] = n
	case *ast.ForStmt:
		r.emptyLoop(n.Body)
	case *ast.RangeStmt:
		r.rangeStmt(n)
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		if !r.done[n] {
			r.ins(r.off(n.Pos()), r.sim()+".SendTo(")
			r.rep(r.off(n.Arrow), r.off(n.Arrow)+2, ")(")
			r.ins(r.off(n.End()), ")")
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.done[n] {
			r.recv(n, "Recv")
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.recv2(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.recv2(n.Values[0])
		}
	case *ast.CallExpr:
		if r.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
			r.rep(r.off(n.Fun.Pos()), r.off(n.Fun.End()), r.sim()+".Close")
		}
		if r.isBuiltin(n.Fun, "println") || r.isBuiltin(n.Fun, "print") {
			a := r.alias("verifsim/simos", "_vsimos")
			name := ".Println"
			if r.isBuiltin(n.Fun, "print") {
				name = ".Print"
			}
			r.rep(r.off(n.Fun.Pos()), r.off(n.Fun.End()), a+name)
		}
	case *ast.SelectStmt:
		r.selectStmt(n)
	}
	return true
}

// isCases reports whether b is the body of a switch or select.
func isCases(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return true
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func (r *rewriter) recv(n *ast.UnaryExpr, fn string) {
	r.done[n] = true
	r.rep(r.off(n.OpPos), r.off(n.OpPos)+2, r.sim()+"."+fn+"(")
	r.ins(r.off(n.X.End()), ")")
}

func (r *rewriter) recv2(x ast.Expr) {
	if u, ok := unparen(x).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !r.done[u] {
		r.recv(u, "Recv2")
	}
}

func (r *rewriter) src(n ast.Node) string { return string(r.f.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	r.emptyLoop(n.Body)
	t := core(r.typeOf(n.X))
	if t == nil {
		if r.p.wasm {
			return
		}
		r.fail(n.Pos(), "range over an expression of unknown type")
	}
	blank := func(x ast.Expr) bool {
		id, ok := x.(*ast.Ident)
		return x == nil || (ok && id.Name == "_")
	}
	k := r.uniq()
	lb := r.off(n.Body.Lbrace)
	switch t.(type) {
	case *types.Chan:
		r.rep(r.off(n.For)+3, r.off(n.X.Pos()), fmt.Sprintf(" _vc%d := ", k))
		var b strings.Builder
		v := fmt.Sprintf("_vv%d", k)
		if blank(n.Key) {
			v = "_"
		}
		fmt.Fprintf(&b, "; ; { %s, _vok%d := %s.Recv2(_vc%d); if !_vok%d { break }; ", v, k, r.sim(), k, k)
		if !blank(n.Key) {
			fmt.Fprintf(&b, "%s %s _vv%d; ", r.src(n.Key), n.Tok, k)
		}
		r.rep(lb, lb+1, b.String())
	case *types.Map:
		if n.Key == nil {
			r.rep(r.off(n.For)+3, r.off(n.X.Pos()), " range "+r.sim()+".MapEntries(")
			r.ins(r.off(n.X.End()), ")")
			return
		}
		r.rep(r.off(n.For)+3, r.off(n.X.Pos()), fmt.Sprintf(" _, _ve%d := range %s.MapEntries(", k, r.sim()))
		r.ins(r.off(n.X.End()), ")")
		var b strings.Builder
		fmt.Fprintf(&b, "{ _vv%d, _vok%d := _ve%d.Get(); if !_vok%d { continue }; _ = _vv%d; ", k, k, k, k, k)
		if !blank(n.Key) {
			fmt.Fprintf(&b, "%s %s _ve%d.K; ", r.src(n.Key), n.Tok, k)
		}
		if !blank(n.Value) {
			fmt.Fprintf(&b, "%s %s _vv%d; ", r.src(n.Value), n.Tok, k)
		}
		r.rep(lb, lb+1, b.String())
	}
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	k := r.uniq()
	site := r.site(n.Pos())
	start := fmt.Sprintf("{ _vt%d := %s.Spawn(%d); ", k, r.sim(), site)
	body := fmt.Sprintf(" %s.Begin(_vt%d); defer %s.End(_vt%d); ", r.sim(), k, r.sim(), k)
	g := r.off(n.Go)
	call := n.Call
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok {
		r.ins(g, start)
		r.ins(r.off(fl.Body.Lbrace)+1, body)
		r.ins(r.off(n.End()), fmt.Sprintf("; %s.Launch(_vt%d) }", r.sim(), k))
		return
	}
	late := func(pre, inner func() string) {
		r.add(edit{from: g, to: r.off(n.End()), lazy: func() string {
			return start + pre() + "go func() {" + body + inner() + fmt.Sprintf(" }(); %s.Launch(_vt%d) }", r.sim(), k)
		}})
	}
	if tv, ok := r.p.info.Types[call.Fun]; ok && tv.IsBuiltin() {
		// the arguments are evaluated first (unless they are types or untyped constants)
		fs, rp := r.off(call.Fun.Pos()), r.off(call.Rparen)
		if r.isBuiltin(call.Fun, "close") && len(call.Args) == 1 {
			late(func() string { return fmt.Sprintf("_vb%d := %s; ", k, r.expr(call.Args[0])) },
				func() string { return fmt.Sprintf("%s.Close(_vb%d)", r.sim(), k) })
			return
		}
		late(func() string { return "" }, func() string { return r.render(fs, rp) + ")" })
		return
	}
	ft := r.typeOf(call.Fun)
	sig, ok := ft.(*types.Signature)
	if !ok && ft != nil {
		sig, ok = ft.Underlying().(*types.Signature)
	}
	if !ok {
		r.fail(n.Pos(), "go statement with this callee")
	}
	if len(call.Args) == 1 {
		if tu, ok := r.typeOf(call.Args[0]).(*types.Tuple); ok {
			vs := make([]string, tu.Len())
			for i := range vs {
				vs[i] = fmt.Sprintf("_vm%d_%d", k, i)
			}
			l := strings.Join(vs, ", ")
			st := r.static(call.Fun)
			late(func() string {
				o := ""
				if !st {
					o = fmt.Sprintf("_vf%d := %s; ", k, r.expr(call.Fun))
				}
				return o + fmt.Sprintf("%s := %s; ", l, r.expr(call.Args[0]))
			}, func() string {
				f := fmt.Sprintf("_vf%d", k)
				if st {
					f = r.expr(call.Fun)
				}
				return fmt.Sprintf("%s(%s)", f, l)
			})
			return
		}
	}
	var params, args []string
	np := sig.Params().Len()
	for i := range call.Args {
		var t types.Type
		switch {
		case sig.Variadic() && i >= np-1 && !call.Ellipsis.IsValid():
			t = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		case i < np:
			t = sig.Params().At(i).Type()
		default:
			r.fail(n.Pos(), "go statement with a multi-value argument")
		}
		a := fmt.Sprintf("_vp%d", i)
		tn := r.typeName(t, n.Pos())
		if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
			if sl, ok := t.(*types.Slice); ok {
				tn = "..." + r.typeName(sl.Elem(), n.Pos())
			}
			a += "..."
		}
		params = append(params, fmt.Sprintf("_vp%d %s", i, tn))
		args = append(args, a)
	}
	callee := fmt.Sprintf("_vf%d", k)
	pre := fmt.Sprintf("%s%s := ", start, callee)
	static := r.static(call.Fun)
	lit := fmt.Sprintf("; go func(%s) {%s%s(%s) }", strings.Join(params, ", "), body, callee, strings.Join(args, ", "))
	fs, fe := r.off(call.Fun.Pos()), r.off(call.Fun.End())
	if static {
		fun := call.Fun
		r.add(edit{from: g, to: fe, lazy: func() string {
			return start + fmt.Sprintf("go func(%s) {%s%s(%s) }", strings.Join(params, ", "), body, r.render(fs, r.off(fun.End())), strings.Join(args, ", "))
		}})
	} else {
		r.rep(g, fs, pre)
		r.ins(fe, lit)
	}
	r.ins(r.off(n.End()), fmt.Sprintf("; %s.Launch(_vt%d) }", r.sim(), k))
}

// static reports whether a callee is the name of a declared function.
func (r *rewriter) static(x ast.Expr) (is bool) {
	switch fx := unparen(x).(type) {
	case *ast.Ident:
		_, is = r.p.info.Uses[fx].(*types.Func)
	case *ast.SelectorExpr:
		if id, ok := fx.X.(*ast.Ident); ok {
			if _, is = r.p.info.Uses[id].(*types.PkgName); is {
				_, is = r.p.info.Uses[fx.Sel].(*types.Func)
			}
		}
	}
	return is
}

func (r *rewriter) typeName(t types.Type, p token.Pos) string {
	return types.TypeString(t, func(pk *types.Package) string {
		if pk == r.p.tpkg {
			return ""
		}
		path := pk.Path()
		if to, ok := remap[path]; ok {
			path = to
		}
		a := "_vi_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path)
		r.need[path] = a
		return a
	})
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		r.ins(r.off(n.Pos()), r.sim()+".BlockForever(); ")
		return
	}
	k := r.uniq()
	var pre []func() string
	var names []string
	hasDef := false
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		cs, colon := r.off(cc.Case), r.off(cc.Colon)
		if cc.Comm == nil {
			hasDef = true
			r.rep(cs, colon, "case -1")
			continue
		}
		name := fmt.Sprintf("_vs%d_%d", k, i)
		names = append(names, name)
		set := ""
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			r.done[cm] = true
			ch, val := cm.Chan, cm.Value
			pre = append(pre, func() string {
				return fmt.Sprintf("%s := %s.SendCase(%s)(%s); ", name, r.sim(), r.expr(ch), r.expr(val))
			})
		case *ast.ExprStmt:
			u := r.recvOf(cm.X)
			pre = append(pre, func() string { return fmt.Sprintf("%s := %s.RecvCase(%s); ", name, r.sim(), r.expr(u.X)) })
		case *ast.AssignStmt:
			u := r.recvOf(cm.Rhs[0])
			pre = append(pre, func() string { return fmt.Sprintf("%s := %s.RecvCase(%s); ", name, r.sim(), r.expr(u.X)) })
			if len(cm.Lhs) == 2 {
				set = fmt.Sprintf(" %s, %s %s %s.Get2();", r.src(cm.Lhs[0]), r.src(cm.Lhs[1]), cm.Tok, name)
			} else {
				set = fmt.Sprintf(" %s %s %s.Get();", r.src(cm.Lhs[0]), cm.Tok, name)
			}
		default:
			r.fail(cc.Pos(), "select case")
		}
		r.rep(cs, colon, fmt.Sprintf("case %d", i))
		if set != "" {
			r.ins(colon+1, set)
		}
		i++
	}
	_ = r.sim()
	label := ""
	from := r.off(n.Pos())
	if l := r.defLabel[n]; l != nil {
		label = l.Label.Name + ": "
		// the label moves to the switch
		r.rep(r.off(l.Pos()), r.off(l.Colon)+1, "")
	}
	lb := r.off(n.Body.Lbrace)
	r.add(edit{from: from, to: lb + 1, lazy: func() string {
		var b strings.Builder
		b.WriteString("{ ")
		for _, f := range pre {
			b.WriteString(f())
		}
		fmt.Fprintf(&b, "%sswitch %s.Select(%v", label, r.sim(), hasDef)
		for _, nm := range names {
			b.WriteString(", " + nm)
		}
		b.WriteString(") {")
		return b.String()
	}})
	rb := r.off(n.Body.Rbrace)
	r.rep(rb, rb+1, ` default: panic("verifsim: select") } }`)
}

func (r *rewriter) recvOf(x ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(x).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		r.fail(x.Pos(), "select case")
	}
	r.done[u] = true
	return u
}
