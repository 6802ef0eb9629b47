// goan: path enumeration over Go source, without building or running it.
//
// The packages named in the job are parsed and type-checked as far as the
// source at hand allows (packages that are not there count as empty).  Each
// entry function is evaluated over symbolic values: one result per path, with
// the calls, conditions, field writes and returned values of that path.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Job struct {
	Root    string   `json:"root"`
	Dirs    []string `json:"dirs"`    // packages analysed (relative to root)
	Entries []string `json:"entries"` // "dir:Type.Method" or "dir:Func" or "dir:*"
	Calls   []string `json:"calls"`   // names of the calls that matter
	Fields  []string `json:"fields"`  // names of the fields that matter
	Limit   int      `json:"limit"`   // paths per entry
	Loops   int      `json:"loops"`   // unrolling
	Locks   bool     `json:"locks"`   // lock analysis of everything instead
	List    bool     `json:"list"`    // list methods and interfaces
	Inline  []string `json:"inline"`  // functions evaluated in any case
	Opaque  []string `json:"opaque"`  // functions never looked into
	Ask     []string `json:"ask"`     // calls that make a function worth looking into, though not recorded
	Pure    []string `json:"pure"`    // calls whose result does not change on a path
}

type Event struct {
	K    string   `json:"k"`
	F    string   `json:"f,omitempty"`
	Recv string   `json:"recv,omitempty"`
	RT   string   `json:"rt,omitempty"`
	Args []string `json:"args,omitempty"`
	Res  string   `json:"res,omitempty"`
	V    bool     `json:"v,omitempty"`
	At   string   `json:"at"`
	In   string   `json:"in,omitempty"`
}

type Path struct {
	Events []*Event          `json:"events"`
	Ret    []string          `json:"ret"`
	How    string            `json:"how"`
	Heap   map[string]string `json:"heap"`
}

type Result struct {
	Entry  string   `json:"entry"`
	At     string   `json:"at"`
	Err    string   `json:"err,omitempty"`
	Paths  []*Path  `json:"paths"`
	Params []string `json:"params"`
	Note   []string `json:"note,omitempty"`
}

// ------------------------------------------------------------------ loading

type pkg struct {
	dir   string
	files []*ast.File
	tp    *types.Package
	info  *types.Info
}

type loader struct {
	root, mod string
	fset      *token.FileSet
	pk        map[string]*pkg
	std       types.ImporterFrom
	bodies    map[string]bool
	fakes     map[string]*types.Package
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == l.mod || strings.HasPrefix(path, l.mod+"/") {
		d := strings.TrimPrefix(strings.TrimPrefix(path, l.mod), "/")
		p := l.load(d)
		if p != nil {
			return p.tp, nil
		}
		return l.fake(path), nil
	}
	if !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		if p, err := l.std.ImportFrom(path, l.root, 0); err == nil {
			return p, nil
		}
	}
	return l.fake(path), nil
}

func (l *loader) fake(path string) *types.Package {
	if p := l.fakes[path]; p != nil {
		return p
	}
	n := filepath.Base(path)
	if len(n) > 1 && n[0] == 'v' && n[1] >= '0' && n[1] <= '9' {
		n = filepath.Base(filepath.Dir(path))
	}
	p := types.NewPackage(path, strings.TrimPrefix(strings.ReplaceAll(n, "-", "_"), "go_"))
	p.MarkComplete()
	l.fakes[path] = p
	return p
}

func (l *loader) load(dir string) *pkg {
	if p, ok := l.pk[dir]; ok {
		return p
	}
	l.pk[dir] = nil
	full := filepath.Join(l.root, dir)
	es, err := os.ReadDir(full)
	if err != nil {
		return nil
	}
	ctx := build.Default
	ctx.CgoEnabled = false
	ctx.GOOS, ctx.GOARCH = "linux", "amd64"
	p := &pkg{dir: dir}
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(full, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(full, n), nil, 0)
		if err != nil {
			continue
		}
		p.files = append(p.files, f)
	}
	if len(p.files) == 0 {
		return nil
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	cfg := &types.Config{Importer: l, Error: func(error) {}, IgnoreFuncBodies: !l.bodies[dir], FakeImportC: true}
	name := l.mod
	if dir != "" && dir != "." {
		name += "/" + dir
	}
	p.tp, _ = cfg.Check(name, l.fset, p.files, p.info)
	l.pk[dir] = p
	return p
}

// ------------------------------------------------------------------ state

type fn struct {
	obj  *types.Func
	decl *ast.FuncDecl
	p    *pkg
	name string
}

type deferred struct {
	run func(*state) []*state
}

type state struct {
	env    map[types.Object]string
	heap   map[string]string
	facts  map[string]bool
	ev     []*Event
	defers [][]deferred
	n      int
	rets   [][]string // named results in scope
}

func (s *state) clone() *state {
	t := &state{env: make(map[types.Object]string, len(s.env)), heap: make(map[string]string, len(s.heap)), facts: make(map[string]bool, len(s.facts)), n: s.n}
	for k, v := range s.env {
		t.env[k] = v
	}
	for k, v := range s.heap {
		t.heap[k] = v
	}
	for k, v := range s.facts {
		t.facts[k] = v
	}
	t.ev = s.ev[:len(s.ev):len(s.ev)]
	t.defers = append([][]deferred(nil), s.defers...)
	return t
}

func (s *state) add(e *Event) { s.ev = append(s.ev, e) }

func (s *state) fresh(what string) string {
	s.n++
	return fmt.Sprintf("%s#%d", what, s.n)
}

type outcome struct {
	s     *state
	how   string // "", return, break, continue, panic, fallthrough, goto
	label string
	vals  []string
}

type vals struct {
	s *state
	v []string
	p bool // panicked
}

type tooMany struct{ what string }

type eval struct {
	l        *loader
	job      *Job
	fns      map[*types.Func]*fn
	relevant map[*types.Func]bool
	calls    map[string]bool
	fields   map[string]bool
	opaque   map[string]bool
	pure     map[string]bool
	steps    int
	stack    []*fn
	cur      *pkg
	notes    map[string]bool
	lits     map[string]*closure
}

type closure struct {
	lit *ast.FuncLit
	p   *pkg
}

func (e *eval) at(n ast.Node) string {
	p := e.l.fset.Position(n.Pos())
	r, err := filepath.Rel(e.l.root, p.Filename)
	if err != nil {
		r = p.Filename
	}
	return fmt.Sprintf("%s:%d", r, p.Line)
}

func (e *eval) in() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.stack[len(e.stack)-1].name
}

func (e *eval) tick() {
	e.steps++
	if e.steps > 4000000 {
		panic(tooMany{"steps"})
	}
}

func funcName(f *types.Func) string {
	sig, _ := f.Type().(*types.Signature)
	if sig != nil && sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ------------------------------------------------------------------ expressions

func (e *eval) obj(id *ast.Ident) types.Object {
	if o := e.cur.info.Uses[id]; o != nil {
		return o
	}
	return e.cur.info.Defs[id]
}

func (e *eval) one(x ast.Expr, s *state) []vals {
	rs := e.expr(x, s)
	for i := range rs {
		if len(rs[i].v) == 0 {
			rs[i].v = []string{"void"}
		}
	}
	return rs
}

func bind(rs []vals, f func(vals) []vals) []vals {
	var out []vals
	for _, r := range rs {
		if r.p {
			out = append(out, r)
			continue
		}
		out = append(out, f(r)...)
	}
	return out
}

func (e *eval) many(xs []ast.Expr, s *state) []vals {
	out := []vals{{s: s}}
	for _, x := range xs {
		x := x
		out = bind(out, func(r vals) []vals {
			return bind(e.one(x, r.s), func(q vals) []vals {
				v := append(append([]string(nil), r.v...), q.v...)
				if len(xs) > 1 {
					v = append(append([]string(nil), r.v...), q.v[0])
				}
				return []vals{{s: q.s, v: v}}
			})
		})
	}
	return out
}

func isConst(t string) bool {
	return t == "nil" || t == "true" || t == "false" || strings.HasPrefix(t, "const:")
}

func nonNil(t string) bool {
	return strings.HasPrefix(t, "new#") || strings.HasPrefix(t, "&") || strings.HasPrefix(t, "lit#") || strings.HasPrefix(t, "made#") || strings.HasPrefix(t, "error#")
}

func eqTerm(a, b string) string {
	if a == b {
		return "true"
	}
	if isConst(a) && isConst(b) {
		return "false"
	}
	if a == "nil" && nonNil(b) || b == "nil" && nonNil(a) {
		return "false"
	}
	if strings.HasPrefix(a, "new#") && strings.HasPrefix(b, "new#") {
		return "false"
	}
	if a == "true" {
		return b
	}
	if b == "true" {
		return a
	}
	if a == "false" {
		return neg(b)
	}
	if b == "false" {
		return neg(a)
	}
	if a > b {
		a, b = b, a
	}
	// constants and nil come second
	if isConst(a) && !isConst(b) || a == "nil" {
		a, b = b, a
	}
	return "eq(" + a + "," + b + ")"
}

func neg(t string) string {
	switch {
	case t == "true":
		return "false"
	case t == "false":
		return "true"
	case strings.HasPrefix(t, "!"):
		return t[1:]
	}
	return "!" + t
}

type branch struct {
	s *state
	b bool
}

func (e *eval) decide(t string, s *state, n ast.Node) []branch {
	if t == "true" {
		return []branch{{s, true}}
	}
	if t == "false" {
		return []branch{{s, false}}
	}
	if strings.HasPrefix(t, "!") {
		rs := e.decide(t[1:], s, n)
		for i := range rs {
			rs[i].b = !rs[i].b
		}
		return rs
	}
	if v, ok := s.facts[t]; ok {
		return []branch{{s, v}}
	}
	// order: lt(a,b) and friends
	e.tick()
	a, b := s.clone(), s
	a.facts[t] = true
	b.facts[t] = false
	if strings.HasPrefix(t, "lt(") {
		if i := splitArgs(t[3 : len(t)-1]); len(i) == 2 {
			a.facts["lt("+i[1]+","+i[0]+")"] = false
			a.facts[eqTerm(i[0], i[1])] = false
		}
	}
	a.add(&Event{K: "cond", F: t, V: true, At: e.at(n), In: e.in()})
	b.add(&Event{K: "cond", F: t, V: false, At: e.at(n), In: e.in()})
	return []branch{{a, true}, {b, false}}
}

func splitArgs(t string) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, t[last:i])
				last = i + 1
			}
		}
	}
	return append(out, t[last:])
}

func (e *eval) cond(x ast.Expr, s *state) ([]branch, []vals) {
	x = ast.Unparen(x)
	switch n := x.(type) {
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			l, dead := e.cond(n.X, s)
			var out []branch
			for _, b := range l {
				if b.b == (n.Op == token.LOR) {
					out = append(out, b)
					continue
				}
				r, d := e.cond(n.Y, b.s)
				dead = append(dead, d...)
				out = append(out, r...)
			}
			return out, dead
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			l, dead := e.cond(n.X, s)
			for i := range l {
				l[i].b = !l[i].b
			}
			return l, dead
		}
	}
	var out []branch
	var dead []vals
	for _, r := range e.one(x, s) {
		if r.p {
			dead = append(dead, r)
			continue
		}
		out = append(out, e.decide(r.v[0], r.s, x)...)
	}
	return out, dead
}

func (s *state) load(base, field string) string {
	base = strings.TrimPrefix(base, "&")
	k := base + "." + field
	if v, ok := s.heap[k]; ok {
		return v
	}
	if strings.HasPrefix(base, "new#") {
		return "zero(" + k + ")"
	}
	return k
}

func (s *state) elem(x string, i int) string {
	k := fmt.Sprintf("%s[%d]", x, i)
	if v, ok := s.heap[k]; ok {
		return v
	}
	return k
}

// path through embedded fields of a selection
func (e *eval) through(base string, sel *types.Selection, s *state) string {
	t := sel.Recv()
	idx := sel.Index()
	for _, i := range idx[:len(idx)-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return base
		}
		base = s.load(base, st.Field(i).Name())
		t = st.Field(i).Type()
	}
	return base
}

func isIface(t types.Type) bool {
	return t != nil && types.IsInterface(t)
}

func (e *eval) expr(x ast.Expr, s *state) []vals {
	e.tick()
	ok := func(s *state, t ...string) []vals { return []vals{{s: s, v: t}} }
	if tv, has := e.cur.info.Types[x]; has {
		if tv.Value != nil {
			if tv.Value.Kind() == constant.Bool {
				return ok(s, tv.Value.String())
			}
			return ok(s, "const:"+tv.Value.ExactString())
		}
		if tv.IsNil() {
			return ok(s, "nil")
		}
	}
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.expr(n.X, s)
	case *ast.BasicLit:
		return ok(s, "const:"+n.Value)
	case *ast.Ident:
		o := e.obj(n)
		if o == nil {
			switch n.Name {
			case "nil", "true", "false":
				return ok(s, n.Name)
			}
			return ok(s, "?"+n.Name)
		}
		if v, has := s.env[o]; has {
			return ok(s, v)
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return ok(s, o.Pkg().Name()+"."+o.Name())
		}
		return ok(s, n.Name)
	case *ast.FuncLit:
		t := s.fresh("lit")
		e.lits[fmt.Sprintf("%s@%d", t, n.Pos())] = &closure{n, e.cur}
		return ok(s, fmt.Sprintf("%s@%d", t, n.Pos()))
	case *ast.CompositeLit:
		t := s.fresh("new")
		out := ok(s, t)
		var st *types.Struct
		if tv, has := e.cur.info.Types[n]; has && tv.Type != nil {
			st, _ = tv.Type.Underlying().(*types.Struct)
		}
		if tv, has := e.cur.info.Types[n]; has && tv.Type != nil {
			plain := true
			for _, el := range n.Elts {
				if _, is := el.(*ast.KeyValueExpr); is {
					plain = false
				}
			}
			switch tv.Type.Underlying().(type) {
			case *types.Slice, *types.Array:
				if plain {
					for k := range out {
						out[k].s.heap["count("+t+")"] = fmt.Sprint(len(n.Elts))
					}
				}
			}
		}
		for i, el := range n.Elts {
			i := i
			if kv, is := el.(*ast.KeyValueExpr); is {
				name := ""
				if id, isID := kv.Key.(*ast.Ident); isID && (st != nil || e.cur.info.Types[n].Type == nil) {
					name = id.Name
				}
				out = bind(out, func(r vals) []vals {
					return bind(e.boolVal(kv.Value, r.s), func(q vals) []vals {
						if name != "" {
							q.s.heap[t+"."+name] = q.v[0]
						}
						return ok(q.s, t)
					})
				})
			} else {
				out = bind(out, func(r vals) []vals {
					return bind(e.one(el, r.s), func(q vals) []vals {
						if st != nil && i < st.NumFields() {
							q.s.heap[t+"."+st.Field(i).Name()] = q.v[0]
						} else {
							q.s.heap[fmt.Sprintf("%s[%d]", t, i)] = q.v[0]
						}
						return ok(q.s, t)
					})
				})
			}
		}
		return out
	case *ast.SelectorExpr:
		if sel := e.cur.info.Selections[n]; sel != nil {
			return bind(e.one(n.X, s), func(r vals) []vals {
				base := e.through(r.v[0], sel, r.s)
				if sel.Kind() == types.FieldVal {
					return ok(r.s, r.s.load(base, n.Sel.Name))
				}
				return ok(r.s, base+"·"+n.Sel.Name)
			})
		}
		if id, is := n.X.(*ast.Ident); is {
			if pn, is := e.obj(id).(*types.PkgName); is {
				return ok(s, pn.Imported().Name()+"."+n.Sel.Name)
			}
		}
		return bind(e.one(n.X, s), func(r vals) []vals { return ok(r.s, r.s.load(r.v[0], n.Sel.Name)) })
	case *ast.StarExpr:
		return bind(e.one(n.X, s), func(r vals) []vals {
			if strings.HasPrefix(r.v[0], "&") {
				return ok(r.s, r.v[0][1:])
			}
			return ok(r.s, r.v[0])
		})
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			return e.boolVal(x, s)
		}
		return bind(e.one(n.X, s), func(r vals) []vals {
			switch n.Op {
			case token.AND:
				if strings.HasPrefix(r.v[0], "new#") {
					return ok(r.s, r.v[0])
				}
				return ok(r.s, "&"+r.v[0])
			case token.ARROW:
				t := r.s.fresh("recv")
				return ok(r.s, t, t+".ok")
			}
			return ok(r.s, n.Op.String()+"("+r.v[0]+")")
		})
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			return e.boolVal(x, s)
		}
		return bind(e.one(n.X, s), func(a vals) []vals {
			return bind(e.one(n.Y, a.s), func(b vals) []vals {
				p, q := a.v[0], b.v[0]
				if (n.Op == token.EQL || n.Op == token.NEQ) && e.isBool(n.X) && e.isBool(n.Y) {
					var out []vals
					for _, l := range e.decide(p, b.s, n.X) {
						t := q
						if l.b != (n.Op == token.EQL) {
							t = neg(q)
						}
						out = append(out, vals{s: l.s, v: []string{t}})
					}
					return out
				}
				switch n.Op {
				case token.EQL:
					return ok(b.s, eqTerm(p, q))
				case token.NEQ:
					return ok(b.s, neg(eqTerm(p, q)))
				case token.LSS:
					return ok(b.s, "lt("+p+","+q+")")
				case token.GTR:
					return ok(b.s, "lt("+q+","+p+")")
				case token.GEQ:
					return ok(b.s, neg("lt("+p+","+q+")"))
				case token.LEQ:
					return ok(b.s, neg("lt("+q+","+p+")"))
				}
				return ok(b.s, n.Op.String()+"("+p+","+q+")")
			})
		})
	case *ast.IndexExpr:
		return bind(e.one(n.X, s), func(a vals) []vals {
			return bind(e.one(n.Index, a.s), func(b vals) []vals {
				k := a.v[0] + "[" + b.v[0] + "]"
				if v, has := b.s.heap[k]; has {
					return ok(b.s, v, k+".ok")
				}
				return ok(b.s, k, k+".ok")
			})
		})
	case *ast.IndexListExpr:
		return e.one(n.X, s)
	case *ast.SliceExpr:
		return bind(e.one(n.X, s), func(a vals) []vals {
			xs := []ast.Expr{}
			for _, y := range []ast.Expr{n.Low, n.High, n.Max} {
				if y != nil {
					xs = append(xs, y)
				}
			}
			return bind(e.many(xs, a.s), func(b vals) []vals {
				return ok(b.s, "slice("+a.v[0]+","+strings.Join(b.v, ":")+")")
			})
		})
	case *ast.TypeAssertExpr:
		return bind(e.one(n.X, s), func(a vals) []vals {
			tn := ""
			if n.Type != nil {
				tn = typeName(e.cur.info.Types[n.Type].Type)
			}
			return ok(a.s, a.v[0], "is("+a.v[0]+","+tn+")")
		})
	case *ast.CallExpr:
		return e.call(n, s)
	case *ast.KeyValueExpr:
		return e.one(n.Value, s)
	case *ast.ArrayType, *ast.MapType, *ast.ChanType, *ast.FuncType, *ast.InterfaceType, *ast.StructType:
		return ok(s, "type")
	}
	return ok(s, s.fresh("x"))
}

func (e *eval) isBool(x ast.Expr) bool {
	t := e.cur.info.Types[x].Type
	if t == nil {
		return false
	}
	b, is := t.Underlying().(*types.Basic)
	return is && b.Info()&types.IsBoolean != 0
}

// boolean operators used as values
func (e *eval) boolVal(x ast.Expr, s *state) []vals {
	y := ast.Unparen(x)
	b, isB := y.(*ast.BinaryExpr)
	u, isU := y.(*ast.UnaryExpr)
	if isB && (b.Op == token.LAND || b.Op == token.LOR) || isU && u.Op == token.NOT {
		br, out := e.cond(y, s)
		for _, r := range br {
			out = append(out, vals{s: r.s, v: []string{fmt.Sprint(r.b)}})
		}
		return out
	}
	return e.one(x, s)
}

func (e *eval) call(n *ast.CallExpr, s *state) []vals {
	ok := func(s *state, t ...string) []vals { return []vals{{s: s, v: t}} }
	fun := ast.Unparen(n.Fun)
	if tv, has := e.cur.info.Types[fun]; has && tv.IsType() {
		return e.many(n.Args, s)
	}
	if ix, is := fun.(*ast.IndexExpr); is {
		if tv := e.cur.info.Types[ix.Index]; tv.IsType() {
			fun = ix.X
		}
	}
	if id, is := fun.(*ast.Ident); is {
		if _, is := e.obj(id).(*types.Builtin); is {
			return bind(e.many(n.Args, s), func(r vals) []vals {
				switch id.Name {
				case "panic":
					r.s.add(&Event{K: "panic", At: e.at(n), In: e.in()})
					return []vals{{s: r.s, p: true}}
				case "make":
					return ok(r.s, r.s.fresh("made"))
				case "new":
					return ok(r.s, r.s.fresh("new"))
				case "len", "cap":
					return ok(r.s, id.Name+"("+strings.Join(r.v, ",")+")")
				case "append":
					return ok(r.s, "append("+strings.Join(r.v, ",")+")")
				}
				return ok(r.s, r.s.fresh(id.Name))
			})
		}
	}
	var target *types.Func
	var sel *types.Selection
	name := ""
	var recvX ast.Expr
	switch f := fun.(type) {
	case *ast.Ident:
		target, _ = e.obj(f).(*types.Func)
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
		if sel = e.cur.info.Selections[f]; sel != nil {
			target, _ = sel.Obj().(*types.Func)
			recvX = f.X
		} else if o, is := e.cur.info.Uses[f.Sel].(*types.Func); is {
			target = o
		} else {
			isPkg := false
			if id, is := f.X.(*ast.Ident); is {
				_, isPkg = e.obj(id).(*types.PkgName)
			}
			if !isPkg {
				recvX = f.X
			}
		}
	}
	start := []vals{{s: s, v: []string{""}}}
	if recvX != nil {
		start = bind(e.one(recvX, s), func(r vals) []vals {
			if sel != nil {
				return ok(r.s, e.through(r.v[0], sel, r.s))
			}
			return ok(r.s, r.v[0])
		})
	} else if target == nil {
		if _, is := fun.(*ast.SelectorExpr); !is {
			start = e.one(fun, s)
		}
	}
	rt := ""
	if sel != nil {
		rt = typeName(sel.Recv())
		if target != nil {
			rt = funcName(target)
			rt = rt[:max(0, strings.LastIndex(rt, "."))]
			if target.Pkg() != nil {
				rt = target.Pkg().Name() + "." + rt
			}
		}
	} else if recvX != nil {
		rt = "?"
	}
	return bind(start, func(r vals) []vals {
		recv := r.v[0]
		return bind(e.many(n.Args, r.s), func(q vals) []vals {
			args := q.v
			// a function literal called directly or through a variable
			if c := e.lits[recv]; c != nil && target == nil {
				return e.runLit(c, args, q.s)
			}
			if target != nil && (sel == nil || !isIface(sel.Recv())) {
				if f := e.fns[target]; f != nil && e.relevant[target] && !e.opaque[funcName(target)] && !e.onStack(f) && len(e.stack) < 12 {
					return e.runFunc(f, recv, args, q.s, n.Ellipsis.IsValid())
				}
			}
			res := ""
			if e.pure[name] {
				res = strings.TrimPrefix(recv, "&") + "." + name + "(" + strings.Join(args, ",") + ")"
			} else {
				res = q.s.fresh(name)
			}
			if strings.HasPrefix(name, "Err") || strings.Contains(name, "Error") || name == "New" || name == "Wrap" || name == "Wrapf" || name == "Errorf" {
				if tv, has := e.cur.info.Types[n]; has && tv.Type != nil && typeName(tv.Type) == "error" {
					res = q.s.fresh("error")
				}
			}
			if e.calls[name] || e.calls["*"] {
				q.s.add(&Event{K: "call", F: name, Recv: recv, RT: rt, Args: args, Res: res, At: e.at(n), In: e.in()})
			}
			if name == "Panicf" || name == "Panicln" || name == "Panic" || name == "Fatalf" || name == "Fatalln" {
				return []vals{{s: q.s, p: true}}
			}
			out := []vals{{s: q.s}}
			for _, a := range args {
				if c := e.lits[a]; c != nil {
					out = bind(out, func(w vals) []vals { return e.runLit(c, nil, w.s) })
				}
			}
			k := 1
			if tv, has := e.cur.info.Types[n]; has {
				if tu, is := tv.Type.(*types.Tuple); is {
					k = tu.Len()
				}
			}
			return bind(out, func(w vals) []vals {
				if k == 1 {
					return ok(w.s, res)
				}
				v := make([]string, max(k, 1))
				for i := range v {
					v[i] = fmt.Sprintf("%s.%d", res, i)
				}
				return ok(w.s, v...)
			})
		})
	})
}

func (e *eval) onStack(f *fn) bool {
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

func (e *eval) bindParams(fl *ast.FieldList, args []string, s *state) {
	i := 0
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		_, variadic := f.Type.(*ast.Ellipsis)
		names := f.Names
		if len(names) == 0 {
			i++
			continue
		}
		for _, id := range names {
			t := "?" + id.Name
			if variadic {
				t = s.fresh("args")
				for j := i; j < len(args); j++ {
					s.heap[fmt.Sprintf("%s[const:%d]", t, j-i)] = args[j]
				}
			} else if i < len(args) {
				t = args[i]
			}
			if o := e.cur.info.Defs[id]; o != nil {
				s.env[o] = t
			}
			i++
		}
	}
}

func (e *eval) results(fl *ast.FieldList, s *state) []types.Object {
	var out []types.Object
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		for _, id := range f.Names {
			o := e.cur.info.Defs[id]
			out = append(out, o)
			if o != nil {
				z := "zero(" + id.Name + ")"
				if t := typeName(o.Type()); t == "error" {
					z = "nil"
				} else if t == "bool" {
					z = "false"
				} else if _, is := o.Type().Underlying().(*types.Pointer); is || isIface(o.Type()) {
					z = "nil"
				}
				s.env[o] = z
			}
		}
	}
	return out
}

func (e *eval) runBody(body *ast.BlockStmt, ftype *ast.FuncType, s *state) []vals {
	named := e.results(ftype.Results, s)
	s.defers = append(s.defers[:len(s.defers):len(s.defers)], nil)
	var out []vals
	for _, o := range e.block(body.List, s) {
		o := o
		if o.how == "cut" {
			out = append(out, vals{s: o.s, p: true})
			continue
		}
		if o.how == "return" && len(named) > 0 {
			for i, ob := range named {
				if ob != nil && i < len(o.vals) {
					o.s.env[ob] = o.vals[i]
				}
			}
		}
		ds := o.s.defers[len(o.s.defers)-1]
		o.s.defers = o.s.defers[: len(o.s.defers)-1 : len(o.s.defers)-1]
		cur := []*state{o.s}
		for i := len(ds) - 1; i >= 0; i-- {
			var nxt []*state
			for _, c := range cur {
				nxt = append(nxt, ds[i].run(c)...)
			}
			cur = nxt
		}
		for _, c := range cur {
			v := o.vals
			if len(named) > 0 && o.how != "panic" {
				v = nil
				for _, ob := range named {
					v = append(v, c.env[ob])
				}
			}
			out = append(out, vals{s: c, v: v, p: o.how == "panic"})
		}
	}
	return out
}

func (e *eval) runFunc(f *fn, recv string, args []string, s *state, spread bool) []vals {
	old, n := e.cur, len(e.stack)
	e.cur = f.p
	e.stack = append(e.stack, f)
	defer func() { e.cur, e.stack = old, e.stack[:n] }()
	if f.decl.Recv != nil && len(f.decl.Recv.List) > 0 && len(f.decl.Recv.List[0].Names) > 0 {
		if o := f.p.info.Defs[f.decl.Recv.List[0].Names[0]]; o != nil {
			s.env[o] = strings.TrimPrefix(recv, "&")
		}
	}
	e.bindParams(f.decl.Type.Params, args, s)
	return e.runBody(f.decl.Body, f.decl.Type, s)
}

func (e *eval) runLit(c *closure, args []string, s *state) []vals {
	old, n := e.cur, len(e.stack)
	e.cur = c.p
	if n > 14 {
		return []vals{{s: s, v: []string{s.fresh("deep")}}}
	}
	e.stack = append(e.stack, &fn{name: e.in() + "·func"})
	defer func() { e.cur, e.stack = old, e.stack[:n] }()
	e.bindParams(c.lit.Type.Params, args, s)
	return e.runBody(c.lit.Body, c.lit.Type, s)
}

// ------------------------------------------------------------------ statements

func (e *eval) block(list []ast.Stmt, s *state) []outcome {
	cur := []*state{s}
	var out []outcome
	for _, st := range list {
		var nxt []*state
		for _, c := range cur {
			for _, o := range e.stmt(st, c, "") {
				if o.how == "" {
					nxt = append(nxt, o.s)
				} else {
					out = append(out, o)
				}
			}
		}
		cur = e.dedup(nxt)
		if len(cur)+len(out) > e.job.Limit {
			panic(tooMany{"paths"})
		}
		if len(cur) == 0 {
			return out
		}
	}
	for _, c := range cur {
		out = append(out, outcome{s: c})
	}
	return out
}

// states that differ only in the names of values nobody can see any more are
// not merged: only exact duplicates are
func (e *eval) dedup(ss []*state) []*state { return ss }

func (e *eval) assignTo(x ast.Expr, v string, s *state, define bool) []vals {
	x = ast.Unparen(x)
	switch n := x.(type) {
	case *ast.Ident:
		if n.Name == "_" {
			return []vals{{s: s}}
		}
		o := e.cur.info.Defs[n]
		if o == nil {
			o = e.cur.info.Uses[n]
		}
		if o != nil {
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				s.add(&Event{K: "set", F: o.Pkg().Name() + "." + o.Name(), Args: []string{v}, At: e.at(x), In: e.in()})
			}
			s.env[o] = v
		}
		return []vals{{s: s}}
	case *ast.SelectorExpr:
		return bind(e.one(n.X, s), func(r vals) []vals {
			base := r.v[0]
			if sel := e.cur.info.Selections[n]; sel != nil {
				base = e.through(base, sel, r.s)
			}
			base = strings.TrimPrefix(base, "&")
			r.s.heap[base+"."+n.Sel.Name] = v
			if e.fields[n.Sel.Name] {
				r.s.add(&Event{K: "set", F: n.Sel.Name, Recv: base, Args: []string{v}, At: e.at(x), In: e.in()})
			}
			return []vals{{s: r.s}}
		})
	case *ast.IndexExpr:
		return bind(e.one(n.X, s), func(r vals) []vals {
			return bind(e.one(n.Index, r.s), func(q vals) []vals {
				q.s.heap[r.v[0]+"["+q.v[0]+"]"] = v
				return []vals{{s: q.s}}
			})
		})
	case *ast.StarExpr:
		return bind(e.one(n.X, s), func(r vals) []vals {
			r.s.heap["*"+r.v[0]] = v
			return []vals{{s: r.s}}
		})
	}
	return []vals{{s: s}}
}

func dead(rs []vals) (live []vals, out []outcome) {
	for _, r := range rs {
		if r.p {
			out = append(out, outcome{s: r.s, how: "panic"})
		} else {
			live = append(live, r)
		}
	}
	return
}

func (e *eval) stmt(st ast.Stmt, s *state, label string) []outcome {
	e.tick()
	next := func(s *state) []outcome { return []outcome{{s: s}} }
	switch n := st.(type) {
	case nil, *ast.EmptyStmt:
		return next(s)
	case *ast.ExprStmt:
		live, out := dead(e.expr(n.X, s))
		for _, r := range live {
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.BlockStmt:
		return e.block(n.List, s)
	case *ast.LabeledStmt:
		return e.stmt(n.Stmt, s, n.Label.Name)
	case *ast.DeclStmt:
		gd, _ := n.Decl.(*ast.GenDecl)
		rs := []vals{{s: s}}
		if gd != nil && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, id := range vs.Names {
						if o := e.cur.info.Defs[id]; o != nil {
							z := "zero(" + id.Name + ")"
							switch u := o.Type().Underlying().(type) {
							case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
								z = "nil"
							case *types.Basic:
								if u.Kind() == types.Bool {
									z = "false"
								}
							case *types.Struct:
								z = s.fresh("new")
							}
							for _, r := range rs {
								r.s.env[o] = z
							}
						}
					}
					continue
				}
				rs = bind(rs, func(r vals) []vals {
					return bind(e.many(vs.Values, r.s), func(q vals) []vals {
						for i, id := range vs.Names {
							if o := e.cur.info.Defs[id]; o != nil && i < len(q.v) {
								q.s.env[o] = q.v[i]
							}
						}
						return []vals{{s: q.s}}
					})
				})
			}
		}
		live, out := dead(rs)
		for _, r := range live {
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.AssignStmt:
		var rs []vals
		if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
			op := strings.TrimSuffix(n.Tok.String(), "=")
			rs = bind(e.one(n.Lhs[0], s), func(a vals) []vals {
				return bind(e.one(n.Rhs[0], a.s), func(b vals) []vals {
					return []vals{{s: b.s, v: []string{op + "(" + a.v[0] + "," + b.v[0] + ")"}}}
				})
			})
		} else if len(n.Rhs) == 1 && len(n.Lhs) > 1 {
			rs = e.expr(n.Rhs[0], s)
		} else if len(n.Rhs) == 1 {
			rs = e.boolVal(n.Rhs[0], s)
		} else {
			rs = e.many(n.Rhs, s)
		}
		rs = bind(rs, func(r vals) []vals {
			out := []vals{{s: r.s}}
			for i, x := range n.Lhs {
				v := "?"
				if i < len(r.v) {
					v = r.v[i]
				}
				x := x
				out = bind(out, func(w vals) []vals { return e.assignTo(x, v, w.s, n.Tok == token.DEFINE) })
			}
			return out
		})
		live, out := dead(rs)
		for _, r := range live {
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.IncDecStmt:
		live, out := dead(bind(e.one(n.X, s), func(r vals) []vals {
			return e.assignTo(n.X, n.Tok.String()+"("+r.v[0]+")", r.s, false)
		}))
		for _, r := range live {
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.ReturnStmt:
		var rs []vals
		if len(n.Results) == 1 {
			rs = e.boolVal(n.Results[0], s)
		} else {
			rs = e.many(n.Results, s)
		}
		live, out := dead(rs)
		for _, r := range live {
			r.s.add(&Event{K: "return", Args: r.v, At: e.at(n), In: e.in()})
			out = append(out, outcome{s: r.s, how: "return", vals: r.v})
		}
		return out
	case *ast.IfStmt:
		var out []outcome
		for _, o := range e.stmt(n.Init, s, "") {
			if o.how != "" {
				out = append(out, o)
				continue
			}
			bs, d := e.cond(n.Cond, o.s)
			for _, r := range d {
				out = append(out, outcome{s: r.s, how: "panic"})
			}
			for _, b := range bs {
				if b.b {
					out = append(out, e.block(n.Body.List, b.s)...)
				} else {
					out = append(out, e.stmt(n.Else, b.s, "")...)
				}
			}
		}
		return out
	case *ast.SwitchStmt:
		var out []outcome
		for _, o := range e.stmt(n.Init, s, "") {
			if o.how != "" {
				out = append(out, o)
				continue
			}
			tags := []vals{{s: o.s, v: []string{"true"}}}
			if n.Tag != nil {
				tags = e.one(n.Tag, o.s)
			}
			live, d := dead(tags)
			out = append(out, d...)
			for _, t := range live {
				out = append(out, e.switchOn(n.Body, t.v[0], n.Tag != nil, t.s, label)...)
			}
		}
		return out
	case *ast.TypeSwitchStmt:
		var out []outcome
		for _, o := range e.stmt(n.Init, s, "") {
			if o.how != "" {
				out = append(out, o)
				continue
			}
			var x ast.Expr
			switch a := n.Assign.(type) {
			case *ast.ExprStmt:
				x = a.X.(*ast.TypeAssertExpr).X
			case *ast.AssignStmt:
				x = a.Rhs[0].(*ast.TypeAssertExpr).X
			}
			live, d := dead(e.one(x, o.s))
			out = append(out, d...)
			for _, t := range live {
				cur := []*state{t.s}
				var def *ast.CaseClause
				for _, cl := range n.Body.List {
					cc := cl.(*ast.CaseClause)
					if cc.List == nil {
						def = cc
						continue
					}
					for _, ty := range cc.List {
						var nxt []*state
						for _, c := range cur {
							lit := "is(" + t.v[0] + "," + typeName(e.cur.info.Types[ty].Type) + ")"
							for _, b := range e.decide(lit, c, cc) {
								if b.b {
									if ob := e.cur.info.Implicits[cc]; ob != nil {
										b.s.env[ob] = t.v[0]
									}
									out = append(out, e.breaks(e.block(cc.Body, b.s), label)...)
								} else {
									nxt = append(nxt, b.s)
								}
							}
						}
						cur = nxt
					}
				}
				for _, c := range cur {
					if def != nil {
						if ob := e.cur.info.Implicits[def]; ob != nil {
							c.env[ob] = t.v[0]
						}
						out = append(out, e.breaks(e.block(def.Body, c), label)...)
					} else {
						out = append(out, outcome{s: c})
					}
				}
			}
		}
		return out
	case *ast.SelectStmt:
		var out []outcome
		for i, cl := range n.Body.List {
			cc := cl.(*ast.CommClause)
			c := s
			if i < len(n.Body.List)-1 {
				c = s.clone()
			}
			c.add(&Event{K: "select", F: fmt.Sprint(i), At: e.at(cc), In: e.in()})
			for _, o := range e.stmt(cc.Comm, c, "") {
				if o.how != "" {
					out = append(out, o)
					continue
				}
				out = append(out, e.breaks(e.block(cc.Body, o.s), label)...)
			}
		}
		return out
	case *ast.ForStmt:
		var out []outcome
		for _, o := range e.stmt(n.Init, s, "") {
			if o.how != "" {
				out = append(out, o)
				continue
			}
			out = append(out, e.loop(o.s, label, func(c *state, i int) ([]branch, []vals) {
				if n.Cond == nil {
					return []branch{{c, true}}, nil
				}
				return e.cond(n.Cond, c)
			}, n.Body.List, n.Post)...)
		}
		return out
	case *ast.RangeStmt:
		var out []outcome
		live, d := dead(e.one(n.X, s))
		out = append(out, d...)
		for _, r := range live {
			x := r.v[0]
			if cnt, has := r.s.heap["count("+strings.TrimPrefix(x, "&")+")"]; has {
				k, _ := strconv.Atoi(cnt)
				x = strings.TrimPrefix(x, "&")
				if k <= 8 {
					out = append(out, e.loopN(k+1, r.s, label, func(c *state, i int) ([]branch, []vals) {
						if i >= k {
							return []branch{{c, false}}, nil
						}
						if n.Key != nil {
							e.assignTo(n.Key, fmt.Sprintf("const:%d", i), c, true)
						}
						if n.Value != nil {
							e.assignTo(n.Value, c.elem(x, i), c, true)
						}
						return []branch{{c, true}}, nil
					}, n.Body.List, nil)...)
					continue
				}
			}
			out = append(out, e.loop(r.s, label, func(c *state, i int) ([]branch, []vals) {
				var bs []branch
				for _, b := range e.decide(fmt.Sprintf("lt(const:%d,len(%s))", i, x), c, n) {
					if b.b {
						if n.Key != nil {
							e.assignTo(n.Key, fmt.Sprintf("key(%s,%d)", x, i), b.s, true)
						}
						if n.Value != nil {
							e.assignTo(n.Value, fmt.Sprintf("%s[key(%s,%d)]", x, x, i), b.s, true)
						}
					}
					bs = append(bs, b)
				}
				return bs, nil
			}, n.Body.List, nil)...)
		}
		return out
	case *ast.BranchStmt:
		l := ""
		if n.Label != nil {
			l = n.Label.Name
		}
		if n.Tok == token.GOTO {
			e.notes["goto at "+e.at(n)] = true
			panic(tooMany{"goto"})
		}
		return []outcome{{s: s, how: n.Tok.String(), label: l}}
	case *ast.DeferStmt:
		call := n.Call
		cur, stack := e.cur, append([]*fn(nil), e.stack...)
		_ = stack
		// the receiver and arguments are evaluated now
		var lit *closure
		if fl, is := call.Fun.(*ast.FuncLit); is {
			lit = &closure{fl, cur}
		}
		args := e.many(call.Args, s)
		var out []outcome
		live, d := dead(args)
		out = append(out, d...)
		for _, r := range live {
			v := r.v
			run := func(c *state) []*state {
				old := e.cur
				e.cur = cur
				defer func() { e.cur = old }()
				var rs []vals
				if lit != nil {
					rs = e.runLit(lit, v, c)
				} else {
					rs = e.call(call, c)
				}
				var ss []*state
				for _, q := range rs {
					ss = append(ss, q.s)
				}
				return ss
			}
			k := len(r.s.defers) - 1
			r.s.defers = append([][]deferred(nil), r.s.defers...)
			r.s.defers[k] = append(r.s.defers[k][:len(r.s.defers[k]):len(r.s.defers[k])], deferred{run})
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.GoStmt:
		s.add(&Event{K: "go", At: e.at(n), In: e.in()})
		live, out := dead(e.call(n.Call, s))
		for _, r := range live {
			r.s.add(&Event{K: "endgo", At: e.at(n), In: e.in()})
			out = append(out, outcome{s: r.s})
		}
		return out
	case *ast.SendStmt:
		live, out := dead(e.many([]ast.Expr{n.Chan, n.Value}, s))
		for _, r := range live {
			r.s.add(&Event{K: "send", Args: r.v, At: e.at(n), In: e.in()})
			out = append(out, outcome{s: r.s})
		}
		return out
	}
	return next(s)
}

func (e *eval) breaks(os []outcome, label string) []outcome {
	for i := range os {
		if os[i].how == "break" && (os[i].label == "" || os[i].label == label) {
			os[i].how, os[i].label = "", ""
		}
	}
	return os
}

func (e *eval) switchOn(body *ast.BlockStmt, tag string, tagged bool, s *state, label string) []outcome {
	var out []outcome
	cur := []*state{s}
	var def int = -1
	run := func(i int, c *state) {
		for {
			cc := body.List[i].(*ast.CaseClause)
			os := e.block(cc.Body, c)
			again := false
			for _, o := range os {
				if o.how == "fallthrough" && i+1 < len(body.List) {
					c, again = o.s, true
				} else {
					out = append(out, e.breaks([]outcome{o}, label)...)
				}
			}
			if !again {
				return
			}
			i++
		}
	}
	for i, cl := range body.List {
		cc := cl.(*ast.CaseClause)
		if cc.List == nil {
			def = i
			continue
		}
		for _, x := range cc.List {
			var nxt []*state
			for _, c := range cur {
				var bs []branch
				var d []vals
				if tagged {
					for _, r := range e.one(x, c) {
						bs = append(bs, e.decide(eqTerm(tag, r.v[0]), r.s, x)...)
					}
				} else {
					bs, d = e.cond(x, c)
				}
				for _, r := range d {
					out = append(out, outcome{s: r.s, how: "panic"})
				}
				for _, b := range bs {
					if b.b {
						run(i, b.s)
					} else {
						nxt = append(nxt, b.s)
					}
				}
			}
			cur = nxt
		}
	}
	for _, c := range cur {
		if def >= 0 {
			run(def, c)
		} else {
			out = append(out, outcome{s: c})
		}
	}
	return out
}

func (e *eval) loop(s *state, label string, guard func(*state, int) ([]branch, []vals), body []ast.Stmt, post ast.Stmt) []outcome {
	return e.loopN(e.job.Loops, s, label, guard, body, post)
}

func (e *eval) loopN(bound int, s *state, label string, guard func(*state, int) ([]branch, []vals), body []ast.Stmt, post ast.Stmt) []outcome {
	var out []outcome
	cur := []*state{s}
	for i := 0; i <= bound && len(cur) > 0; i++ {
		var nxt []*state
		for _, c := range cur {
			bs, d := guard(c, i)
			for _, r := range d {
				out = append(out, outcome{s: r.s, how: "panic"})
			}
			for _, b := range bs {
				if !b.b {
					out = append(out, outcome{s: b.s})
					continue
				}
				if i == bound {
					b.s.add(&Event{K: "cut", At: "", In: e.in()})
					out = append(out, outcome{s: b.s, how: "cut"})
					continue
				}
				for _, o := range e.block(body, b.s) {
					switch {
					case o.how == "" || o.how == "continue" && (o.label == "" || o.label == label):
						for _, p := range e.stmt(post, o.s, "") {
							nxt = append(nxt, p.s)
						}
					case o.how == "break" && (o.label == "" || o.label == label):
						out = append(out, outcome{s: o.s})
					default:
						out = append(out, o)
					}
				}
			}
		}
		cur = nxt
		if len(cur)+len(out) > e.job.Limit {
			panic(tooMany{"paths"})
		}
	}
	return out
}

// ------------------------------------------------------------------ relevance

func (e *eval) computeRelevant() {
	uses := map[*types.Func][]*types.Func{}
	ask := map[string]bool{}
	for _, a := range e.job.Ask {
		ask[a] = true
	}
	for f, d := range e.fns {
		rel := false
		ast.Inspect(d.decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				if e.calls[x.Sel.Name] || ask[x.Sel.Name] {
					rel = true
				}
				if o, is := d.p.info.Uses[x.Sel].(*types.Func); is {
					uses[f] = append(uses[f], o)
				}
			case *ast.Ident:
				if o, is := d.p.info.Uses[x].(*types.Func); is {
					if e.calls[o.Name()] || ask[o.Name()] {
						rel = true
					}
					uses[f] = append(uses[f], o)
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if se, is := l.(*ast.SelectorExpr); is && e.fields[se.Sel.Name] {
						rel = true
					}
				}
			case *ast.KeyValueExpr:
				if id, is := x.Key.(*ast.Ident); is && e.fields[id.Name] {
					rel = true
				}
			}
			return true
		})
		// a function whose result speaks about a field that matters
		if !rel {
			ast.Inspect(d.decl.Body, func(n ast.Node) bool {
				if se, is := n.(*ast.SelectorExpr); is && e.fields[se.Sel.Name] {
					rel = true
				}
				return true
			})
		}
		if rel {
			e.relevant[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range e.fns {
			if e.relevant[f] {
				continue
			}
			for _, g := range uses[f] {
				if e.relevant[g] {
					e.relevant[f] = true
					changed = true
					break
				}
			}
		}
	}
}

func (e *eval) entry(f *fn) (r *Result) {
	r = &Result{Entry: f.p.dir + ":" + f.name, At: e.at(f.decl)}
	defer func() {
		if x := recover(); x != nil {
			if t, is := x.(tooMany); is {
				r.Err = "too many " + t.what
				r.Paths = nil
				return
			}
			r.Err = fmt.Sprint("internal: ", x)
			if os.Getenv("GOAN_DEBUG") != "" {
				panic(x)
			}
		}
	}()
	e.steps = 0
	e.stack = nil
	e.lits = map[string]*closure{}
	s := &state{env: map[types.Object]string{}, heap: map[string]string{}, facts: map[string]bool{}}
	var args []string
	i := 0
	if f.decl.Type.Params != nil {
		for _, fl := range f.decl.Type.Params.List {
			k := max(1, len(fl.Names))
			for j := 0; j < k; j++ {
				i++
				args = append(args, fmt.Sprintf("$%d", i))
				r.Params = append(r.Params, typeName(f.p.info.Types[fl.Type].Type))
			}
		}
	}
	for _, v := range e.runFunc(f, "$0", args, s, false) {
		how := "return"
		if v.p {
			how = "panic"
		}
		for _, ev := range v.s.ev {
			if ev.K == "cut" {
				how = "cut"
			}
		}
		r.Paths = append(r.Paths, &Path{Events: v.s.ev, Ret: v.v, How: how, Heap: v.s.heap})
	}
	return r
}

func main() {
	var job Job
	data, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(data, &job)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if job.Limit == 0 {
		job.Limit = 20000
	}
	if job.Loops == 0 {
		job.Loops = 2
	}
	mod := ""
	if b, err := os.ReadFile(filepath.Join(job.Root, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "module ") {
				mod = strings.TrimSpace(l[7:])
			}
		}
	}
	fset := token.NewFileSet()
	build.Default.CgoEnabled = false
	l := &loader{root: job.Root, mod: mod, fset: fset, pk: map[string]*pkg{}, bodies: map[string]bool{}, fakes: map[string]*types.Package{}}
	l.std = importer.ForCompiler(fset, "source", nil).(types.ImporterFrom)
	if job.Locks {
		locks(l, &job)
		return
	}
	for _, d := range job.Dirs {
		l.bodies[d] = true
	}
	e := &eval{l: l, job: &job, fns: map[*types.Func]*fn{}, relevant: map[*types.Func]bool{}, calls: map[string]bool{}, fields: map[string]bool{}, notes: map[string]bool{}, opaque: map[string]bool{}, pure: map[string]bool{}}
	for _, c := range job.Pure {
		e.pure[c] = true
	}
	for _, c := range job.Calls {
		e.calls[c] = true
	}
	for _, c := range job.Fields {
		e.fields[c] = true
	}
	for _, c := range job.Opaque {
		e.opaque[c] = true
	}
	names := map[string]*fn{}
	var order []string
	for _, d := range job.Dirs {
		p := l.load(d)
		if p == nil {
			continue
		}
		for _, f := range p.files {
			for _, dc := range f.Decls {
				fd, is := dc.(*ast.FuncDecl)
				if !is || fd.Body == nil {
					continue
				}
				o, _ := p.info.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				g := &fn{o, fd, p, funcName(o)}
				e.fns[o] = g
				names[d+":"+g.name] = g
				order = append(order, d+":"+g.name)
			}
		}
	}
	e.computeRelevant()
	for _, n := range job.Inline {
		if g := names[n]; g != nil {
			e.relevant[g.obj] = true
		}
	}
	sort.Strings(order)
	enc := json.NewEncoder(os.Stdout)
	if job.List {
		for _, n := range order {
			enc.Encode(map[string]any{"entry": n, "at": e.at(names[n].decl), "relevant": e.relevant[names[n].obj]})
		}
		for _, d := range job.Dirs {
			p := l.load(d)
			if p == nil {
				continue
			}
			sc := p.tp.Scope()
			for _, n := range sc.Names() {
				if it, is := sc.Lookup(n).Type().Underlying().(*types.Interface); is {
					ms := []string{}
					for i := 0; i < it.NumMethods(); i++ {
						ms = append(ms, it.Method(i).Name())
					}
					enc.Encode(map[string]any{"iface": d + ":" + n, "methods": ms})
				}
				if cn, is := sc.Lookup(n).(*types.Const); is && cn.Val() != nil {
					enc.Encode(map[string]any{"const": d + ":" + n, "value": "const:" + cn.Val().ExactString()})
				}
			}
			for _, f := range p.files {
				in := ""
				e.cur = p
				ast.Inspect(f, func(x ast.Node) bool {
					switch y := x.(type) {
					case *ast.FuncDecl:
						in = y.Name.Name
					case *ast.AssignStmt:
						for i, lh := range y.Lhs {
							if se, is := lh.(*ast.SelectorExpr); is && e.fields[se.Sel.Name] {
								v := "?"
								if i < len(y.Rhs) && len(y.Lhs) == len(y.Rhs) {
									v = types.ExprString(y.Rhs[i])
								}
								rt := ""
								if sl := p.info.Selections[se]; sl != nil {
									rt = typeName(sl.Recv())
								}
								enc.Encode(map[string]any{"write": se.Sel.Name, "recv": rt, "value": v, "at": e.at(y), "in": in})
							}
						}
					}
					return true
				})
			}
		}
		return
	}
	for _, n := range job.Entries {
		if g := names[n]; g != nil {
			e.cur = g.p
			enc.Encode(e.entry(g))
		} else {
			enc.Encode(&Result{Entry: n, Err: "not found"})
		}
	}
}
