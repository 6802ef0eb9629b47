package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Locks: on every path of a function, what is locked in it is released; nothing is locked twice or released twice.

type lockop struct {
	key   string
	delta int
	rd    bool
	free  bool // releasing it again does nothing
}

type lst struct {
	held   map[string]int
	base   map[string]int
	facts  map[string]bool
	defers []*ast.CallExpr
	defk   []string
	lost   map[string]bool
}

func newLst() *lst {
	return &lst{held: map[string]int{}, base: map[string]int{}, facts: map[string]bool{}, lost: map[string]bool{}}
}

func (s *lst) clone() *lst {
	t := newLst()
	for k, v := range s.held {
		t.held[k] = v
	}
	for k, v := range s.base {
		t.base[k] = v
	}
	for k, v := range s.facts {
		t.facts[k] = v
	}
	for k, v := range s.lost {
		t.lost[k] = v
	}
	t.defers = append([]*ast.CallExpr(nil), s.defers...)
	t.defk = append([]string(nil), s.defk...)
	return t
}

func (s *lst) sig() string {
	var x []string
	for k, v := range s.held {
		x = append(x, fmt.Sprint("h", k, v))
	}
	for k, v := range s.base {
		x = append(x, fmt.Sprint("b", k, v))
	}
	for k, v := range s.facts {
		x = append(x, fmt.Sprint("f", k, v))
	}
	for k := range s.lost {
		x = append(x, "l"+k)
	}
	for _, d := range s.defers {
		x = append(x, fmt.Sprint("d", d.Pos()))
	}
	sort.Strings(x)
	return strings.Join(x, "|")
}

type lexit struct {
	s     *lst
	how   string // "", return, break, continue, panic
	label string
	at    ast.Node
}

type lsum struct {
	delta map[string]int  // key rooted in $recv, $i or a package variable
	takes map[string]bool // locked on some path when not already handed in locked
	reads map[string]bool
}

type unit struct {
	name  string
	p     *pkg
	body  *ast.BlockStmt
	ftype *ast.FuncType
	recv  *ast.FieldList
	obj   *types.Func
	lit   *ast.FuncLit
	decl  *unit // the declaration a literal is in
	at    ast.Node
	exits []*lexit
	err   string
	used  bool // a literal which is run where it stands
	bad   map[string][2]string
	sites map[string]string
	// keys which a function called has left locked
	handed map[*types.Func]map[string]bool
}

type lockev struct {
	l     *loader
	e     *eval
	sums  map[*types.Func]*lsum
	u     *unit
	lits  map[types.Object]*ast.FuncLit
	vals  map[types.Object]*ast.SelectorExpr
	alias map[types.Object]string
	rels  map[types.Object]*ast.CallExpr
	deep  int
	steps int
	final bool
	ulit  map[*ast.FuncLit]*unit
	bal   map[*types.Func]bool
}

type lockFail struct{ what string }

var prim = map[string]lockop{"Lock": {"", 1, false, false}, "Unlock": {"", -1, false, false}, "RLock": {"", 1, true, false}, "RUnlock": {"", -1, true, false}}

func (v *lockev) info() *types.Info { return v.u.p.info }

func (v *lockev) objOf(id *ast.Ident) types.Object {
	if o := v.info().Uses[id]; o != nil {
		return o
	}
	return v.info().Defs[id]
}

func (v *lockev) embedded(sel *types.Selection, all bool) string {
	t := sel.Recv()
	out := ""
	idx := sel.Index()
	for i, k := range idx {
		if i == len(idx)-1 && !all {
			break
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok || k >= st.NumFields() {
			break
		}
		out += "." + st.Field(k).Name()
		t = st.Field(k).Type()
	}
	return out
}

// canonical name of what an expression denotes
func (v *lockev) canon(x ast.Expr) string {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return v.canon(n.X)
	case *ast.StarExpr:
		return v.canon(n.X)
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			return v.canon(n.X)
		}
	case *ast.Ident:
		o := v.objOf(n)
		if o == nil {
			return "?" + n.Name
		}
		if a, ok := v.alias[o]; ok {
			return a
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return o.Pkg().Path() + ":" + o.Name()
		}
		return fmt.Sprintf("%s@%d", n.Name, o.Pos())
	case *ast.SelectorExpr:
		if sel := v.info().Selections[n]; sel != nil {
			return v.canon(n.X) + v.embedded(sel, false) + "." + n.Sel.Name
		}
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := v.objOf(id).(*types.PkgName); ok {
				return pn.Imported().Path() + ":" + n.Sel.Name
			}
		}
		return v.canon(n.X) + "." + n.Sel.Name
	case *ast.IndexExpr:
		return v.canon(n.X) + "[" + types.ExprString(n.Index) + "]"
	case *ast.CallExpr:
		return fmt.Sprintf("call@%d:%s", n.Pos(), types.ExprString(n.Fun))
	}
	return types.ExprString(x)
}

func (v *lockev) target(n *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(n.Fun).(type) {
	case *ast.Ident:
		o, _ := v.info().Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := v.info().Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// a call which locks its argument and returns what releases it
func (v *lockev) locker(n *ast.CallExpr) (bool, bool) {
	f := v.target(n)
	if f == nil || f.Pkg() == nil {
		return false, false
	}
	sig, _ := f.Type().(*types.Signature)
	if sig == nil || sig.Results().Len() != 1 {
		return false, false
	}
	t := sig.Results().At(0).Type()
	if o, _, _ := types.LookupFieldOrMethod(t, true, f.Pkg(), "Unlock"); o == nil {
		return false, false
	} else if _, ok := o.(*types.Func); !ok {
		return false, false
	}
	if o, _, _ := types.LookupFieldOrMethod(t, true, f.Pkg(), "Lock"); o != nil {
		return false, false
	}
	el := t
	if p, ok := t.(*types.Pointer); ok {
		el = p.Elem()
	}
	if nt, ok := el.(*types.Named); !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), v.l.mod) {
		return false, false
	}
	return true, !strings.HasSuffix(t.String(), "AutoCallLocker")
}

func (v *lockev) problem(rule, key, what string, at ast.Node) {
	if !v.final {
		return
	}
	k := rule + " " + short(key)
	if _, has := v.u.bad[k]; !has {
		v.u.bad[k] = [2]string{v.e.at(at), what}
	}
}

func short(k string) string {
	out := ""
	skip := false
	for _, c := range k {
		if c == '@' {
			skip = true
			continue
		}
		if skip && c >= '0' && c <= '9' {
			continue
		}
		skip = false
		out += string(c)
	}
	if i := strings.LastIndex(out, "/"); i >= 0 {
		out = out[i+1:]
	}
	return out
}

func rkey(op lockop) string {
	if op.rd {
		return "R " + op.key
	}
	return op.key
}

func (v *lockev) apply(s *lst, op lockop, at ast.Node) {
	k := rkey(op)
	if op.delta > 0 {
		v.u.sites[k] = v.e.at(at)
		if !op.rd && (s.held[k] > 0 || s.held["R "+op.key] > 0) && !s.lost[k] {
			v.problem("locked-twice", k, "locked again on a path where it is held", at)
		}
		if op.rd && s.held[op.key] > 0 && !s.lost[k] {
			v.problem("locked-twice", k, "locked for reading on a path where it is held", at)
		}
		if _, has := s.base[k]; !has {
			s.base[k] = 0
		}
		s.held[k] += op.delta
		return
	}
	if _, has := s.base[k]; !has {
		if op.free {
			return
		}
		s.base[k] = -1
	}
	if s.held[k]+op.delta < s.base[k] {
		if op.free {
			return
		}
		if s.base[k] == 0 && !s.lost[k] {
			v.problem("released-once", k, "released on a path where it is not held", at)
		}
		if s.base[k] < 0 && s.held[k]+op.delta < -3 {
			return
		}
	}
	s.held[k] += op.delta
}

// calls within an expression, in order of evaluation (roughly), without those in literals
func (v *lockev) effects(n ast.Node, s *lst) []*lst {
	if n == nil {
		return []*lst{s}
	}
	cur := []*lst{s}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		switch x := n.(type) {
		case nil:
			return
		case *ast.FuncLit:
			return
		case *ast.CallExpr:
			if fl, ok := ast.Unparen(x.Fun).(*ast.FuncLit); ok {
				for _, a := range x.Args {
					walk(a)
				}
				v.params(fl, x.Args)
				var nxt []*lst
				for _, c := range cur {
					nxt = append(nxt, v.inline(fl, c)...)
				}
				cur = dedupe(nxt)
				return
			}
			walk(x.Fun)
			for _, a := range x.Args {
				walk(a)
			}
			var nxt []*lst
			for _, c := range cur {
				nxt = append(nxt, v.call(x, c)...)
			}
			cur = dedupe(nxt)
			return
		case *ast.SelectorExpr:
			walk(x.X)
			return
		}
		first := true
		ast.Inspect(n, func(m ast.Node) bool {
			if first {
				first = false
				return true
			}
			if m != nil {
				walk(m)
			}
			return false
		})
	}
	walk(n)
	return cur
}

func dedupe(xs []*lst) []*lst {
	seen := map[string]bool{}
	var out []*lst
	for _, x := range xs {
		k := x.sig()
		if !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	if len(out) > 400 {
		panic(lockFail{"too many states"})
	}
	return out
}

func (v *lockev) params(fl *ast.FuncLit, args []ast.Expr) {
	i := 0
	for _, f := range fl.Type.Params.List {
		for _, id := range f.Names {
			if o := v.info().Defs[id]; o != nil && i < len(args) {
				delete(v.alias, o)
				v.alias[o] = v.canon(args[i])
			}
			i++
		}
	}
}

// run a literal where it stands
func (v *lockev) inline(fl *ast.FuncLit, s *lst) []*lst {
	if u := v.ulit[fl]; u != nil {
		u.used = true
	}
	if v.deep > 6 {
		return []*lst{s}
	}
	v.deep++
	defer func() { v.deep-- }()
	saved := s.defers
	s.defers = nil
	var out []*lst
	for _, x := range v.run(fl.Body, s) {
		if x.how == "panic" {
			continue
		}
		x.s.defers = append([]*ast.CallExpr(nil), saved...)
		out = append(out, x.s)
	}
	return dedupe(out)
}

func (v *lockev) call(n *ast.CallExpr, s *lst) []*lst {
	if ok, free := v.locker(n); ok {
		v.apply(s, lockop{v.canon(n), 1, false, free}, n)
		return []*lst{s}
	}
	switch f := ast.Unparen(n.Fun).(type) {
	case *ast.SelectorExpr:
		if op, is := prim[f.Sel.Name]; is && len(n.Args) == 0 {
			op.key = v.canon(f.X)
			if sel := v.info().Selections[f]; sel != nil {
				op.key += v.embedded(sel, false)
				t := types.TypeString(sel.Recv(), nil)
				op.free = strings.HasSuffix(t, "AutoUnlock") || strings.HasSuffix(t, "AutoRWUnlock")
			}
			v.apply(s, op, n)
			return []*lst{s}
		}
	case *ast.Ident:
		o := v.objOf(f)
		if fl := v.lits[o]; fl != nil {
			v.params(fl, n.Args)
			return v.inline(fl, s)
		}
		if c := v.rels[o]; c != nil && v.undo(c, s) {
			return []*lst{s}
		}
		if se := v.vals[o]; se != nil {
			return v.call(&ast.CallExpr{Fun: se, Lparen: n.Lparen}, s)
		}
	}
	if c, ok := ast.Unparen(n.Fun).(*ast.CallExpr); ok && v.undo(c, s) {
		return []*lst{s}
	}
	f := v.target(n)
	if f == nil {
		return []*lst{s}
	}
	if sum := v.sums[f]; sum != nil {
		root := func(k string) string { return v.rooted(k, n) }
		for k := range sum.takes {
			if r := root(k); r != "" && (s.held[r] > 0 || s.held["R "+r] > 0) && !s.lost[r] {
				v.problem("locked-twice", r, f.Name()+" locks it on a path where it is held", n)
			}
		}
		for k := range sum.reads {
			if r := root(k); r != "" && s.held[r] > 0 && !s.lost[r] {
				v.problem("locked-twice", r, f.Name()+" locks it for reading on a path where it is held", n)
			}
		}
		for k, d := range sum.delta {
			rd := strings.HasPrefix(k, "R ")
			r := root(strings.TrimPrefix(k, "R "))
			if r == "" {
				continue
			}
			for ; d > 0; d-- {
				v.apply2(s, lockop{r, 1, rd, false}, n)
			}
			for ; d < 0; d++ {
				v.apply2(s, lockop{r, -1, rd, false}, n)
				v.bal[f] = true
			}
		}
		if len(sum.delta) > 0 && v.final {
			// remembered: who calls it, to see whether what it leaves locked is released
			callers[f] = append(callers[f], v.u)
			for k, d := range sum.delta {
				if r := root(strings.TrimPrefix(k, "R ")); d > 0 && r != "" {
					if strings.HasPrefix(k, "R ") {
						r = "R " + r
					}
					v.u.got(f, r)
				}
			}
		}
	}
	return []*lst{s}
}

// a key of the function called, in terms of the caller
func (v *lockev) rooted(k string, n *ast.CallExpr) string {
	switch {
	case strings.HasPrefix(k, "$recv"):
		if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
			b := v.canon(se.X)
			if sel := v.info().Selections[se]; sel != nil {
				b += v.embedded(sel, false)
			}
			return b + k[5:]
		}
		return ""
	case strings.HasPrefix(k, "$"):
		i := int(k[1] - '0')
		if i < len(n.Args) {
			return v.canon(n.Args[i]) + k[2:]
		}
		return ""
	}
	return k
}

// calling the function that the call `c` returned releases what `c` locked
func (v *lockev) undo(c *ast.CallExpr, s *lst) bool {
	f := v.target(c)
	if f == nil {
		return false
	}
	sum := v.sums[f]
	sig, _ := f.Type().(*types.Signature)
	if sum == nil || sig == nil || sig.Results().Len() != 1 {
		return false
	}
	if _, ok := sig.Results().At(0).Type().Underlying().(*types.Signature); !ok {
		return false
	}
	done := false
	for k, d := range sum.delta {
		rd := strings.HasPrefix(k, "R ")
		if r := v.rooted(strings.TrimPrefix(k, "R "), c); r != "" && d > 0 {
			v.apply2(s, lockop{r, -d, rd, false}, c)
			done = true
		}
	}
	return done
}

func (u *unit) got(f *types.Func, k string) {
	if u.handed == nil {
		u.handed = map[*types.Func]map[string]bool{}
	}
	if u.handed[f] == nil {
		u.handed[f] = map[string]bool{}
	}
	u.handed[f][k] = true
}

var callers = map[*types.Func][]*unit{}

// like apply, for effects of a function called (its lock sites are its own)
func (v *lockev) apply2(s *lst, op lockop, at ast.Node) {
	k := rkey(op)
	_, had := v.u.sites[k]
	v.apply(s, op, at)
	if !had && op.delta > 0 {
		v.u.sites[k] = v.e.at(at)
	}
}

// ------------------------------------------------------------------ statements

func (v *lockev) run(body *ast.BlockStmt, s *lst) []*lexit {
	var out []*lexit
	for _, x := range v.list(body.List, []*lst{s}) {
		if x.how == "panic" {
			out = append(out, x)
			continue
		}
		if x.at == nil {
			x.at = &ast.Ident{NamePos: body.Rbrace}
		}
		cur := []*lst{x.s}
		ds := x.s.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var nxt []*lst
			for _, c := range cur {
				c.defers = nil
				if fl, ok := ast.Unparen(ds[i].Fun).(*ast.FuncLit); ok {
					v.params(fl, ds[i].Args)
					nxt = append(nxt, v.inline(fl, c)...)
				} else {
					nxt = append(nxt, v.call(ds[i], c)...)
				}
			}
			cur = dedupe(nxt)
		}
		for _, c := range cur {
			c.defers = nil
			out = append(out, &lexit{s: c, how: "return", at: x.at})
		}
	}
	return out
}

func (v *lockev) list(xs []ast.Stmt, in []*lst) []*lexit {
	var out []*lexit
	cur := in
	for _, st := range xs {
		var nxt []*lst
		for _, c := range cur {
			for _, x := range v.stmt(st, c, "") {
				if x.how == "" {
					nxt = append(nxt, x.s)
				} else {
					out = append(out, x)
				}
			}
		}
		cur = dedupe(nxt)
	}
	for _, c := range cur {
		out = append(out, &lexit{s: c})
	}
	return out
}

func (v *lockev) pure(x ast.Expr) string {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return v.pure(n.X)
	case *ast.Ident:
		if n.Name == "nil" || n.Name == "true" || n.Name == "false" {
			return n.Name
		}
		if o, ok := v.objOf(n).(*types.Var); ok && (o.Pkg() == nil || o.Parent() != o.Pkg().Scope()) {
			return fmt.Sprintf("%s@%d", n.Name, o.Pos())
		}
		if _, ok := v.objOf(n).(*types.Const); ok {
			return n.Name
		}
	case *ast.BasicLit:
		return n.Value
	case *ast.BinaryExpr:
		a, b := v.pure(n.X), v.pure(n.Y)
		if a != "" && b != "" {
			return a + n.Op.String() + b
		}
	}
	return ""
}

type lbr struct {
	s *lst
	b bool
}

func (v *lockev) cond(x ast.Expr, s *lst) []lbr {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return v.cond(n.X, s)
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			bs := v.cond(n.X, s)
			for i := range bs {
				bs[i].b = !bs[i].b
			}
			return bs
		}
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			var out []lbr
			for _, b := range v.cond(n.X, s) {
				if b.b == (n.Op == token.LAND) {
					out = append(out, v.cond(n.Y, b.s)...)
				} else {
					out = append(out, b)
				}
			}
			return out
		}
	}
	var out []lbr
	for _, c := range v.effects(x, s) {
		k, neg := v.pure(x), false
		if strings.Contains(k, "!=") {
			k, neg = strings.Replace(k, "!=", "==", 1), true
		}
		if k == "true" || k == "false" {
			out = append(out, lbr{c, k == "true"})
			continue
		}
		if k != "" {
			if f, has := c.facts[k]; has {
				out = append(out, lbr{c, f != neg})
				continue
			}
		}
		a, b := c, c.clone()
		if k != "" {
			a.facts[k] = !neg
			b.facts[k] = neg
		}
		out = append(out, lbr{a, true}, lbr{b, false})
	}
	return out
}

// an assignment: facts about the variable are gone, locks reached through it are no longer known by that name
func (v *lockev) assigned(x ast.Expr, s *lst, rhs ast.Expr, def bool) {
	id, ok := ast.Unparen(x).(*ast.Ident)
	if !ok {
		return
	}
	o := v.objOf(id)
	if o == nil {
		return
	}
	n := fmt.Sprintf("%s@%d", id.Name, o.Pos())
	for k := range s.facts {
		if strings.Contains(k, n) {
			delete(s.facts, k)
		}
	}
	if _, isVar := o.(*types.Var); isVar && rhs != nil {
		if r, ok := ast.Unparen(rhs).(*ast.Ident); ok && (r.Name == "true" || r.Name == "false") {
			s.facts[n] = r.Name == "true"
		}
	}
	for _, m := range []map[string]int{s.held, s.base} {
		for k := range m {
			kk := strings.TrimPrefix(k, "R ")
			if kk == n || strings.HasPrefix(kk, n+".") || strings.HasPrefix(kk, n+"[") || strings.Contains(kk, "["+id.Name+"]") {
				if s.held[k] == 0 {
					delete(s.base, k)
					delete(s.held, k)
					continue
				}
				if c, is := rhs.(*ast.CallExpr); is {
					if ok, _ := v.locker(c); ok {
						continue
					}
				}
				s.lost[k] = true
			}
		}
	}
}

func (v *lockev) bindLocker(lhs, rhs ast.Expr, s *lst) {
	c, ok := ast.Unparen(rhs).(*ast.CallExpr)
	if !ok {
		return
	}
	if is, _ := v.locker(c); !is {
		return
	}
	from, to := v.canon(c), v.canon(lhs)
	s.held[to] += s.held[from]
	s.base[to] = 0
	delete(s.held, from)
	delete(s.base, from)
	v.u.sites[to] = v.u.sites[from]
	delete(v.u.sites, from)
}

func (v *lockev) stmt(st ast.Stmt, s *lst, label string) []*lexit {
	v.steps++
	if v.steps > 400000 {
		panic(lockFail{"too many steps"})
	}
	next := func(xs []*lst) []*lexit {
		var out []*lexit
		for _, x := range xs {
			out = append(out, &lexit{s: x})
		}
		return out
	}
	switch n := st.(type) {
	case nil, *ast.EmptyStmt:
		return next([]*lst{s})
	case *ast.LabeledStmt:
		return v.stmt(n.Stmt, s, n.Label.Name)
	case *ast.BlockStmt:
		return v.list(n.List, []*lst{s})
	case *ast.ExprStmt:
		if c, ok := n.X.(*ast.CallExpr); ok && v.ends(c) {
			return []*lexit{{s: s, how: "panic", at: n}}
		}
		return next(v.effects(n.X, s))
	case *ast.AssignStmt:
		cur := []*lst{s}
		for _, r := range n.Rhs {
			var nx []*lst
			for _, c := range cur {
				nx = append(nx, v.effects(r, c)...)
			}
			cur = dedupe(nx)
		}
		for _, c := range cur {
			for i, l := range n.Lhs {
				var r ast.Expr
				if len(n.Rhs) == len(n.Lhs) {
					r = n.Rhs[i]
				}
				v.assigned(l, c, r, n.Tok == token.DEFINE)
				if r != nil {
					v.bindLocker(l, r, c)
				}
			}
		}
		return next(cur)
	case *ast.DeclStmt:
		cur := []*lst{s}
		if g, ok := n.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, r := range vs.Values {
					var nx []*lst
					for _, c := range cur {
						nx = append(nx, v.effects(r, c)...)
					}
					cur = dedupe(nx)
					if i < len(vs.Names) {
						for _, c := range cur {
							v.assigned(vs.Names[i], c, r, true)
							v.bindLocker(vs.Names[i], r, c)
						}
					}
				}
			}
		}
		return next(cur)
	case *ast.IncDecStmt:
		v.assigned(n.X, s, nil, false)
		return next([]*lst{s})
	case *ast.SendStmt:
		var out []*lst
		for _, c := range v.effects(n.Chan, s) {
			out = append(out, v.effects(n.Value, c)...)
		}
		return next(out)
	case *ast.GoStmt:
		cur := []*lst{s}
		for _, a := range n.Call.Args {
			var nx []*lst
			for _, c := range cur {
				nx = append(nx, v.effects(a, c)...)
			}
			cur = nx
		}
		return next(cur)
	case *ast.DeferStmt:
		cur := []*lst{s}
		// receiver and arguments are evaluated now
		switch se := ast.Unparen(n.Call.Fun).(type) {
		case *ast.SelectorExpr:
			cur = v.effects(se.X, s)
		case *ast.CallExpr:
			cur = v.effects(se, s)
		}
		for _, a := range n.Call.Args {
			var nx []*lst
			for _, c := range cur {
				nx = append(nx, v.effects(a, c)...)
			}
			cur = nx
		}
		for _, c := range cur {
			c.defers = append(c.defers, n.Call)
		}
		return next(cur)
	case *ast.ReturnStmt:
		cur := []*lst{s}
		for _, r := range n.Results {
			var nx []*lst
			for _, c := range cur {
				nx = append(nx, v.effects(r, c)...)
			}
			cur = nx
		}
		var out []*lexit
		for _, c := range cur {
			out = append(out, &lexit{s: c, how: "return", at: n})
		}
		return out
	case *ast.BranchStmt:
		l := ""
		if n.Label != nil {
			l = n.Label.Name
		}
		if n.Tok == token.GOTO || n.Tok == token.FALLTHROUGH {
			if n.Tok == token.FALLTHROUGH {
				return []*lexit{{s: s, how: "fallthrough"}}
			}
			panic(lockFail{"goto"})
		}
		return []*lexit{{s: s, how: n.Tok.String(), label: l}}
	case *ast.IfStmt:
		var out []*lexit
		for _, i := range v.stmt(n.Init, s, "") {
			if i.how != "" {
				out = append(out, i)
				continue
			}
			for _, b := range v.cond(n.Cond, i.s) {
				if b.b {
					out = append(out, v.stmt(n.Body, b.s, "")...)
				} else {
					out = append(out, v.stmt(n.Else, b.s, "")...)
				}
			}
		}
		return out
	case *ast.ForStmt:
		var out []*lexit
		var vars []ast.Expr
		if as, ok := n.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
			vars = as.Lhs
		}
		for _, i := range v.stmt(n.Init, s, "") {
			out = append(out, v.loop(i.s, label, vars, n.Body, n.Post, func(c *lst) []lbr {
				if n.Cond == nil {
					return []lbr{{c, true}}
				}
				return v.cond(n.Cond, c)
			})...)
		}
		return out
	case *ast.RangeStmt:
		var out []*lexit
		for _, c := range v.effects(n.X, s) {
			out = append(out, v.loop(c, label, []ast.Expr{n.Key, n.Value}, n.Body, nil, func(c *lst) []lbr {
				d := c.clone()
				for _, x := range []ast.Expr{n.Key, n.Value} {
					if x != nil {
						v.assigned(x, d, nil, true)
					}
				}
				return []lbr{{d, true}, {c, false}}
			})...)
		}
		return out
	case *ast.SwitchStmt, *ast.TypeSwitchStmt:
		var init ast.Stmt
		var tag ast.Node
		var body *ast.BlockStmt
		var sw *ast.SwitchStmt
		if x, ok := n.(*ast.SwitchStmt); ok {
			init, body, sw = x.Init, x.Body, x
			if x.Tag != nil {
				tag = x.Tag
			}
		} else {
			x := n.(*ast.TypeSwitchStmt)
			init, body = x.Init, x.Body
			if as, ok := x.Assign.(*ast.AssignStmt); ok {
				tag = as.Rhs[0]
			}
		}
		var out []*lexit
		for _, i := range v.stmt(init, s, "") {
			cur := []*lst{i.s}
			if tag != nil {
				cur = v.effects(tag, i.s)
			}
			for _, c := range cur {
				out = append(out, v.clauses(sw, body, c, label)...)
			}
		}
		return out
	case *ast.SelectStmt:
		var out []*lexit
		for _, cl := range n.Body.List {
			cc := cl.(*ast.CommClause)
			for _, i := range v.stmt(cc.Comm, s.clone(), "") {
				out = append(out, v.breaks(v.list(cc.Body, []*lst{i.s}), label)...)
			}
		}
		return out
	}
	return next([]*lst{s})
}

func (v *lockev) breaks(xs []*lexit, label string) []*lexit {
	for _, x := range xs {
		if x.how == "break" && (x.label == "" || x.label == label) {
			x.how, x.label = "", ""
		}
	}
	return xs
}

func (v *lockev) clauses(sw *ast.SwitchStmt, body *ast.BlockStmt, s *lst, label string) []*lexit {
	var out []*lexit
	def := -1
	rest := []*lst{s}
	type pending struct {
		i int
		s *lst
	}
	var todo []pending
	for i, cl := range body.List {
		cc := cl.(*ast.CaseClause)
		if cc.List == nil {
			def = i
			continue
		}
		var nr []*lst
		for _, r := range rest {
			if sw != nil && sw.Tag == nil && len(cc.List) == 1 {
				for _, b := range v.cond(cc.List[0], r) {
					if b.b {
						todo = append(todo, pending{i, b.s})
					} else {
						nr = append(nr, b.s)
					}
				}
				continue
			}
			if sw != nil && sw.Tag != nil && v.pure(sw.Tag) != "" && len(cc.List) == 1 && v.pure(cc.List[0]) != "" {
				for _, b := range v.cond(&ast.BinaryExpr{X: sw.Tag, Op: token.EQL, Y: cc.List[0]}, r) {
					if b.b {
						todo = append(todo, pending{i, b.s})
					} else {
						nr = append(nr, b.s)
					}
				}
				continue
			}
			todo = append(todo, pending{i, r.clone()})
			nr = append(nr, r)
		}
		rest = nr
	}
	for _, r := range rest {
		if def >= 0 {
			todo = append(todo, pending{def, r})
		} else {
			out = append(out, &lexit{s: r})
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		for _, x := range v.breaks(v.list(body.List[t.i].(*ast.CaseClause).Body, []*lst{t.s}), label) {
			if x.how == "fallthrough" && t.i+1 < len(body.List) {
				todo = append(todo, pending{t.i + 1, x.s})
				continue
			}
			out = append(out, x)
		}
	}
	return out
}

// locks of the elements a loop went over are not known by name after it
func (v *lockev) after(vars []ast.Expr, xs []*lexit) []*lexit {
	for _, x := range xs {
		if x.how != "" {
			continue
		}
		for _, e := range vars {
			if id, ok := e.(*ast.Ident); ok {
				if o := v.objOf(id); o != nil {
					n := fmt.Sprintf("%s@%d", id.Name, o.Pos())
					for k, h := range x.s.held {
						if kk := strings.TrimPrefix(k, "R "); h > 0 && (kk == n || strings.HasPrefix(kk, n+".") || strings.HasPrefix(kk, n+"[") || strings.Contains(kk, "["+id.Name+"]")) {
							x.s.lost[k] = true
						}
					}
				}
			}
		}
	}
	return xs
}

func (v *lockev) loop(s *lst, label string, vars []ast.Expr, body *ast.BlockStmt, post ast.Stmt, guard func(*lst) []lbr) []*lexit {
	var out []*lexit
	seen := map[string]bool{}
	cur := []*lst{s}
	for i := 0; i < 4 && len(cur) > 0; i++ {
		var nxt []*lst
		for _, c := range cur {
			if k := c.sig(); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			for _, b := range guard(c) {
				if !b.b {
					out = append(out, &lexit{s: b.s})
					continue
				}
				for _, x := range v.stmt(body, b.s, "") {
					switch {
					case x.how == "" || x.how == "continue" && (x.label == "" || x.label == label):
						for _, p := range v.stmt(post, x.s, "") {
							nxt = append(nxt, p.s)
						}
					case x.how == "break" && (x.label == "" || x.label == label):
						out = append(out, &lexit{s: x.s})
					default:
						out = append(out, x)
					}
				}
			}
		}
		cur = dedupe(nxt)
	}
	return v.after(vars, out)
}

func (v *lockev) ends(c *ast.CallExpr) bool {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		return f.Name == "panic"
	case *ast.SelectorExpr:
		n := f.Sel.Name
		return n == "Exit" || n == "Goexit" || strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") && !strings.Contains(types.ExprString(f.X), "assert")
	}
	return false
}

// ------------------------------------------------------------------ units

func (v *lockev) analyse(u *unit) {
	v.u = u
	v.steps = 0
	u.exits, u.err = nil, ""
	u.bad, u.sites = map[string][2]string{}, map[string]string{}
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(lockFail); ok {
				u.err = f.what
				u.exits = nil
				return
			}
			panic(x)
		}
	}()
	u.exits = v.run(u.body, newLst())
}

func (v *lockev) summary(u *unit) *lsum {
	if u.err != "" {
		return nil
	}
	roots := map[string]string{}
	name := func(id *ast.Ident, r string) {
		if o := u.p.info.Defs[id]; o != nil {
			roots[fmt.Sprintf("%s@%d", id.Name, o.Pos())] = r
		}
	}
	if u.recv != nil && len(u.recv.List) > 0 && len(u.recv.List[0].Names) > 0 {
		name(u.recv.List[0].Names[0], "$recv")
	}
	i := 0
	if u.ftype.Params != nil {
		for _, f := range u.ftype.Params.List {
			for _, id := range f.Names {
				if i < 10 {
					name(id, fmt.Sprintf("$%d", i))
				}
				i++
			}
		}
	}
	rel := func(k string) string {
		rd := ""
		if strings.HasPrefix(k, "R ") {
			rd, k = "R ", k[2:]
		}
		if strings.HasPrefix(k, "call@") || strings.Contains(k, "[") {
			return ""
		}
		j := strings.IndexAny(k, ".")
		if strings.Contains(k, ":") { // a package variable
			return rd + k
		}
		h, t := k, ""
		if j >= 0 {
			h, t = k[:j], k[j:]
		}
		if r, ok := roots[h]; ok {
			return rd + r + t
		}
		return ""
	}
	sum := &lsum{delta: map[string]int{}, takes: map[string]bool{}, reads: map[string]bool{}}
	net := map[string]map[int]bool{}
	keys := map[string]bool{}
	for _, x := range u.exits {
		for k := range x.s.base {
			keys[k] = true
		}
	}
	for _, x := range u.exits {
		if x.how == "panic" {
			continue
		}
		for k := range keys {
			if net[k] == nil {
				net[k] = map[int]bool{}
			}
			net[k][x.s.held[k]] = true
		}
		for k, b := range x.s.base {
			if b == 0 {
				if r := rel(k); r != "" {
					if strings.HasPrefix(r, "R ") {
						sum.reads[r[2:]] = true
					} else {
						sum.takes[r] = true
					}
				}
			}
		}
	}
	for k, m := range net {
		if len(m) == 1 {
			for d := range m {
				if r := rel(k); r != "" && d != 0 {
					sum.delta[r] = d
				}
			}
		}
	}
	if len(sum.delta)+len(sum.takes)+len(sum.reads) == 0 {
		return nil
	}
	return sum
}

type lockRes struct {
	Fn    string            `json:"fn"`
	At    string            `json:"at"`
	Err   string            `json:"err,omitempty"`
	Exits int               `json:"exits"`
	Sites map[string]string `json:"sites"`
	Bad   [][3]string       `json:"bad,omitempty"`
	Hand  []string          `json:"hand,omitempty"`
}

func locks(l *loader, job *Job) {
	for _, d := range job.Dirs {
		l.bodies[d] = true
	}
	ev := &eval{l: l, job: job}
	var units []*unit
	v := &lockev{l: l, e: ev, sums: map[*types.Func]*lsum{}, lits: map[types.Object]*ast.FuncLit{}, vals: map[types.Object]*ast.SelectorExpr{}, alias: map[types.Object]string{}, rels: map[types.Object]*ast.CallExpr{},
		ulit: map[*ast.FuncLit]*unit{}, bal: map[*types.Func]bool{}}
	byObj := map[*types.Func]*unit{}
	for _, d := range job.Dirs {
		p := l.load(d)
		if p == nil {
			continue
		}
		for _, f := range p.files {
			for _, dc := range f.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				o, _ := p.info.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				du := &unit{name: d + ":" + funcName(o), p: p, body: fd.Body, ftype: fd.Type, recv: fd.Recv, obj: o, at: fd}
				units = append(units, du)
				byObj[o] = du
				cnt := map[types.Object]int{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						lu := &unit{name: du.name + "·func", p: p, body: x.Body, ftype: x.Type, lit: x, decl: du, at: x}
						v.ulit[x] = lu
						units = append(units, lu)
					case *ast.AssignStmt:
						for i, lh := range x.Lhs {
							id, ok := lh.(*ast.Ident)
							if !ok {
								continue
							}
							ob := p.info.Defs[id]
							if ob == nil {
								ob = p.info.Uses[id]
							}
							if ob == nil {
								continue
							}
							cnt[ob]++
							if len(x.Lhs) == len(x.Rhs) && cnt[ob] == 1 && x.Tok == token.DEFINE {
								switch r := ast.Unparen(x.Rhs[i]).(type) {
								case *ast.CallExpr:
									v.rels[ob] = r
								case *ast.FuncLit:
									v.lits[ob] = r
								case *ast.SelectorExpr:
									if _, is := prim[r.Sel.Name]; is {
										v.vals[ob] = r
									} else {
										v.u = du
										if s := p.info.Selections[r]; s != nil && s.Kind() == types.FieldVal {
											v.alias[ob] = v.canon(r)
										}
									}
								case *ast.UnaryExpr:
									if se, is := r.X.(*ast.SelectorExpr); is && r.Op == token.AND {
										v.u = du
										v.alias[ob] = v.canon(se)
									}
								}
							}
						}
					case *ast.IncDecStmt:
					}
					return true
				})
				for ob, k := range cnt {
					if k > 1 {
						delete(v.lits, ob)
						delete(v.vals, ob)
						delete(v.rels, ob)
						delete(v.alias, ob)
					}
				}
			}
		}
	}
	for round := 0; round < 3; round++ {
		for _, u := range units {
			v.analyse(u)
			if u.obj != nil {
				if _, is := prim[u.obj.Name()]; is {
					continue // used by name
				}
				if s := v.summary(u); s != nil {
					v.sums[u.obj] = s
				} else {
					delete(v.sums, u.obj)
				}
			}
		}
	}
	v.final = true
	for _, u := range units {
		v.analyse(u)
	}
	net := func(u *unit, k string) map[int]bool {
		m := map[int]bool{}
		for _, x := range u.exits {
			if x.how != "panic" && !x.s.lost[k] {
				m[x.s.held[k]] = true
			}
		}
		return m
	}
	// does some caller release what is left locked?
	var released func(u *unit, seen map[*unit]bool) bool
	released = func(u *unit, seen map[*unit]bool) bool {
		if u.obj == nil || seen[u] {
			return false
		}
		seen[u] = true
		for _, c := range callers[u.obj] {
			for k := range c.handed[u.obj] {
				m := map[int]bool{}
				for _, x := range c.exits {
					if _, has := x.s.base[k]; has && x.how != "panic" && !x.s.lost[k] {
						m[x.s.held[k]] = true
					}
				}
				held := false
				for d := range m {
					held = held || d > 0
				}
				if len(m) > 0 && (!held || len(m) == 1 && released(c, seen)) {
					return true
				}
			}
		}
		return false
	}
	enc := json.NewEncoder(os.Stdout)
	for _, u := range units {
		if len(u.sites) == 0 && len(u.bad) == 0 || u.used {
			continue
		}
		nm := filepath.Base(u.name)
		if u.obj != nil {
			if _, is := prim[u.obj.Name()]; is {
				continue
			}
		}
		_ = nm
		r := lockRes{Fn: u.name, At: ev.at(u.at), Err: u.err, Exits: len(u.exits), Sites: map[string]string{}}
		var ks []string
		for k := range u.sites {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.Sites[short(k)] = u.sites[k]
			m := net(u, k)
			pos := false
			for d := range m {
				if d > 0 {
					pos = true
				}
			}
			if !pos {
				continue
			}
			where := ""
			for _, x := range u.exits {
				if x.how != "panic" && x.s.held[k] > 0 {
					where = ev.at(x.at)
					break
				}
			}
			if len(m) == 1 && (released(u, map[*unit]bool{}) || u.returnsLocker(k)) {
				r.Hand = append(r.Hand, short(k))
				continue
			}
			if len(m) > 1 && (u.wrapper() || u.onSuccess(k)) {
				r.Hand = append(r.Hand, short(k))
				continue
			}
			what := "held on every way out"
			if len(m) > 1 {
				what = "held on some ways out but not on others"
			}
			r.Bad = append(r.Bad, [3]string{"released " + short(k), where, what})
		}
		var bk []string
		for k := range u.bad {
			bk = append(bk, k)
		}
		sort.Strings(bk)
		for _, k := range bk {
			r.Bad = append(r.Bad, [3]string{k, u.bad[k][0], u.bad[k][1]})
		}
		enc.Encode(r)
	}
}

// the function hands out what releases the lock
func (u *unit) returnsLocker(k string) bool {
	found := false
	ast.Inspect(u.body, func(n ast.Node) bool {
		if r, ok := n.(*ast.ReturnStmt); ok {
			for _, x := range r.Results {
				ast.Inspect(x, func(m ast.Node) bool {
					if se, ok := m.(*ast.SelectorExpr); ok && (se.Sel.Name == "Unlock" || se.Sel.Name == "RUnlock") {
						found = true
					}
					return true
				})
				if t := u.p.info.Types[x].Type; t != nil {
					o, _, _ := types.LookupFieldOrMethod(t, true, u.p.tp, "Unlock")
					l, _, _ := types.LookupFieldOrMethod(t, true, u.p.tp, "Lock")
					if _, is := o.(*types.Func); is && l == nil {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

// a method of something that is itself released: what it holds is in its state
func (u *unit) wrapper() bool {
	if u.obj == nil {
		return false
	}
	sig, _ := u.obj.Type().(*types.Signature)
	if sig == nil || sig.Recv() == nil {
		return false
	}
	o, idx, _ := types.LookupFieldOrMethod(sig.Recv().Type(), true, u.obj.Pkg(), "Unlock")
	_, is := o.(*types.Func)
	return is && len(idx) == 1
}

// locked exactly where the function says that it has succeeded: left to those who asked
func (u *unit) onSuccess(k string) bool {
	if u.obj == nil || u.obj.Exported() {
		return false
	}
	held := false
	for _, x := range u.exits {
		if x.how == "panic" {
			continue
		}
		r, ok := x.at.(*ast.ReturnStmt)
		if !ok || len(r.Results) == 0 {
			return false
		}
		id, ok := ast.Unparen(r.Results[len(r.Results)-1]).(*ast.Ident)
		good := ok && (id.Name == "true" || id.Name == "nil")
		if good != (x.s.held[k] > 0) {
			return false
		}
		held = held || good
	}
	return held
}
