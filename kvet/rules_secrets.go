package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C35", technique: "interprocedural, field-based taint analysis of the whole program (SSA) from the credential fields and the raw configuration file to every call that leaves the module",
		about: "the user name and password of the redis configuration, values computed from them, structures that contain them, and the bytes of the configuration file reach no function outside of the module (log, HTTP, files, standard output, redis keys and values, panics) except as the user name and password of the redis connection options; both reach those, not swapped",
		min:   150,
		run:   runSecrets})
}

// Labels. The upper half marks structures of which an encoder writes the
// credentials (encoders and printers see different parts of a structure).
const (
	lUser = 1 << iota
	lPass
	lFile
	_
	lUserEnc
	lPassEnc
)

type retKey struct {
	fn *ssa.Function
	i  int
}

type taint struct {
	c       *Check
	funcs   []*ssa.Function
	in      map[*ssa.Function]bool
	val     map[ssa.Value]int
	fld     map[*types.Var]int
	res     map[retKey]int
	wr      map[*ssa.Parameter]int // what is written through a parameter
	callers map[*ssa.Function][]ssa.CallInstruction
	binds   map[*ssa.FreeVar][]ssa.Value
	bySig   map[string][]*ssa.Function
	impl    map[string][]*ssa.Function
	boxed   []types.Type
	changed bool
	report  bool
	sinks   int
	reads   map[int]int
	reach   int // labels that arrive at the connection
}

func (t *taint) mark(v ssa.Value, l int) {
	if l == 0 {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if t.val[v]&l != l {
		t.val[v] |= l
		t.changed = true
	}
}

func (t *taint) markField(f *types.Var, l int) {
	if l != 0 && t.fld[f]&l != l {
		t.fld[f] |= l
		t.changed = true
	}
}

func fieldOf(x types.Type, i int) *types.Var {
	x = x.Underlying()
	if p, ok := x.(*types.Pointer); ok {
		x = p.Elem().Underlying()
	}
	return x.(*types.Struct).Field(i)
}

// into marks the variable or container that v denotes.
func (t *taint) into(v ssa.Value, l int) { t.into1(v, l, map[ssa.Value]bool{}) }

func (t *taint) into1(v ssa.Value, l int, seen map[ssa.Value]bool) {
	if l == 0 || seen[v] {
		return
	}
	seen[v] = true
	if f, ok := v.(*ssa.FieldAddr); ok {
		t.markField(fieldOf(f.X.Type(), f.Field), l)
		return
	}
	t.mark(v, l)
	switch v := v.(type) {
	case *ssa.Parameter:
		if t.wr[v]&l != l {
			t.wr[v] |= l
			t.changed = true
		}
	case *ssa.FreeVar:
		for _, b := range t.binds[v] {
			t.into1(b, l, seen)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			t.into1(v.X, l, seen)
		}
	case *ssa.IndexAddr:
		t.into1(v.X, l, seen)
	case *ssa.Lookup:
		t.into1(v.X, l, seen)
	case *ssa.Field:
		t.markField(fieldOf(v.X.Type(), v.Field), l)
	case *ssa.Slice:
		t.into1(v.X, l, seen)
	case *ssa.ChangeType:
		t.into1(v.X, l, seen)
	case *ssa.ChangeInterface:
		t.into1(v.X, l, seen)
	case *ssa.MakeInterface:
		t.into1(v.X, l, seen)
	case *ssa.TypeAssert:
		t.into1(v.X, l, seen)
	case *ssa.Convert:
		t.into1(v.X, l, seen)
	case *ssa.Extract:
		t.into1(v.Tuple, l, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.into1(e, l, seen)
		}
	}
}

var printMethods = map[string]bool{"String": true, "GoString": true, "Error": true, "Format": true}
var encodeMethods = map[string]bool{"MarshalJSON": true, "MarshalYAML": true, "MarshalText": true, "MarshalZerologObject": true, "MarshalBinary": true, "MarshalXML": true}

// holds is what a printer (or an encoder) finds in a value of type x.
func (t *taint) holds(x types.Type, encode bool, top bool, seen map[types.Type]bool) int {
	if seen[x] {
		return 0
	}
	seen[x] = true
	defer delete(seen, x)
	names := printMethods
	if encode {
		names = encodeMethods
	}
	ms := t.c.P.prog.MethodSets.MethodSet(x)
	own := false
	l := 0
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); names[o.Name()] {
			own = true
			if f := t.c.P.prog.MethodValue(ms.At(i)); f != nil {
				for j := 0; j < f.Signature.Results().Len(); j++ {
					l |= t.res[retKey{t.declared(f), j}]
				}
			}
		}
	}
	if own {
		return l
	}
	switch u := x.Underlying().(type) {
	case *types.Pointer:
		if top || encode {
			return t.holds(u.Elem(), encode, false, seen)
		}
	case *types.Slice:
		return t.holds(u.Elem(), encode, false, seen)
	case *types.Array:
		return t.holds(u.Elem(), encode, false, seen)
	case *types.Map:
		return t.holds(u.Elem(), encode, false, seen) | t.holds(u.Key(), encode, false, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if encode && (!f.Exported() || hiddenTag(u.Tag(i))) {
				continue
			}
			l |= t.fld[f] & (lUser | lPass)
			l |= t.holds(f.Type(), encode, false, seen)
		}
	}
	return l
}

// hiddenTag: no encoder writes the field.
func hiddenTag(tag string) bool {
	n := 0
	for _, k := range []string{"yaml", "json"} {
		if v, ok := reflect.StructTag(tag).Lookup(k); ok && v == "-" {
			n++
		}
	}
	return n == 2
}

// declared is the function that a wrapper stands for.
func (t *taint) declared(f *ssa.Function) *ssa.Function {
	if o, ok := f.Object().(*types.Func); ok {
		if d := t.c.P.prog.FuncValue(o); d != nil && len(d.Blocks) > 0 {
			return d
		}
	}
	return f
}

func (t *taint) box(m *ssa.MakeInterface) int {
	l := t.val[m.X]
	it, ok := m.Type().Underlying().(*types.Interface)
	if !ok {
		return l
	}
	shown := it.NumMethods() == 0
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		shown = shown || printMethods[n] || encodeMethods[n]
	}
	if shown {
		l |= t.holds(m.X.Type(), false, true, map[types.Type]bool{})
		l |= t.holds(m.X.Type(), true, true, map[types.Type]bool{}) << 4
	}
	return l
}

// reachable finds the functions that can run: called or mentioned by reachable
// functions, or methods of a type that is made an interface.
func (t *taint) reachable() {
	P := t.c.P
	mod := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		mod[f] = true
	}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		f = t.declared(f)
		if len(f.Blocks) == 0 || t.in[f] || !mod[f] && !inModule(fnPkgPath(f)) {
			return
		}
		t.in[f] = true
		t.funcs = append(t.funcs, f)
		work = append(work, f)
	}
	for _, p := range P.pkgs {
		if p.Pkg.Path() == specPath {
			continue
		}
		add(p.Func("init"))
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && (strings.HasPrefix(n, "init#") || n == "main" && p.Pkg.Name() == "main") {
				add(f)
			}
		}
	}
	seen := map[types.Type]bool{}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				m, ok := in.(*ssa.MakeInterface)
				if !ok || seen[m.X.Type()] {
					continue
				}
				seen[m.X.Type()] = true
				t.boxed = append(t.boxed, m.X.Type())
				ms := P.prog.MethodSets.MethodSet(m.X.Type())
				for i := 0; i < ms.Len(); i++ {
					if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Pkg() != nil && inModule(o.Pkg().Path()) {
						add(P.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for _, f := range t.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(isCall && call.Common().StaticCallee() == g && op == in.Operands(nil)[0]) {
						k := types.TypeString(g.Signature, nil)
						t.bySig[k] = append(t.bySig[k], t.declared(g))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, v := range g.FreeVars {
						t.binds[v] = append(t.binds[v], mc.Bindings[i])
					}
				}
			}
		}
	}
}

// callees are the functions of the module a call may run; ext says that a
// function outside of it may be called.
func (t *taint) callees(call ssa.CallInstruction) (fns []*ssa.Function, args []ssa.Value, ext bool) {
	cc := call.Common()
	args = cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		k := cc.Method.FullName() + "\x00" + types.TypeString(cc.Value.Type(), nil)
		fns, ok := t.impl[k]
		if !ok {
			it := cc.Value.Type().Underlying().(*types.Interface)
			for _, x := range t.boxed {
				if !types.Implements(x, it) {
					continue
				}
				if s := t.c.P.prog.MethodSets.MethodSet(x).Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
					if f := t.c.P.prog.MethodValue(s); f != nil && len(t.declared(f).Blocks) > 0 && inModule(fnPkgPath(t.declared(f))) {
						fns = append(fns, t.declared(f))
					}
				}
			}
			t.impl[k] = fns
		}
		p := cc.Method.Pkg()
		return fns, args, len(fns) == 0 || p == nil || !inModule(p.Path())
	}
	if f := cc.StaticCallee(); f != nil {
		f = t.declared(f)
		if len(f.Blocks) > 0 && inModule(fnPkgPath(f)) {
			return []*ssa.Function{f}, args, false
		}
		return nil, args, true
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, false
	}
	fns = t.bySig[types.TypeString(cc.Value.Type().Underlying(), nil)]
	if len(fns) == 0 {
		for k, v := range t.bySig {
			if k == types.TypeString(cc.Signature(), nil) {
				fns = v
			}
		}
	}
	return fns, args, len(fns) == 0
}

func (t *taint) step(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		l := t.val[in.Val]
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && l != 0 {
			f := fieldOf(fa.X.Type(), fa.Field)
			if f.Pkg() == nil || !inModule(f.Pkg().Path()) {
				t.external(fn, in, f, l)
			}
		}
		t.into(in.Addr, l)
	case *ssa.MapUpdate:
		t.into(in.Map, t.val[in.Key]|t.val[in.Value])
	case *ssa.Send:
		t.into(in.Chan, t.val[in.X])
	case *ssa.Select:
		l := 0
		for _, s := range in.States {
			if s.Dir == types.SendOnly {
				t.into(s.Chan, t.val[s.Send])
			} else {
				l |= t.val[s.Chan]
			}
		}
		t.mark(in, l)
	case *ssa.Panic:
		t.sink(fn, in, "panic", t.val[in.X])
	case *ssa.Return:
		for i, r := range in.Results {
			k := retKey{fn, i}
			if l := t.val[r]; l != 0 && t.res[k]&l != l {
				t.res[k] |= l
				t.changed = true
			}
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, v := range g.FreeVars {
			t.mark(v, t.val[in.Bindings[i]])
		}
	case ssa.CallInstruction:
		t.call(fn, in)
	case *ssa.BinOp:
		if in.Op == token.ADD {
			t.mark(in, t.val[in.X]|t.val[in.Y])
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			l := t.val[in.X]
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				l |= t.fld[fieldOf(fa.X.Type(), fa.Field)]
			}
			t.mark(in, l)
		case token.ARROW:
			t.mark(in, t.val[in.X])
		}
	case *ssa.FieldAddr:
		t.mark(in, t.val[in.X])
	case *ssa.Field:
		t.mark(in, t.val[in.X]|t.fld[fieldOf(in.X.Type(), in.Field)])
	case *ssa.IndexAddr:
		t.mark(in, t.val[in.X])
	case *ssa.Index:
		t.mark(in, t.val[in.X])
	case *ssa.Lookup:
		t.mark(in, t.val[in.X])
	case *ssa.Range:
		t.mark(in, t.val[in.X])
	case *ssa.Next:
		t.mark(in, t.val[in.Iter])
	case *ssa.Slice:
		t.mark(in, t.val[in.X])
	case *ssa.ChangeType:
		t.mark(in, t.val[in.X])
	case *ssa.ChangeInterface:
		t.mark(in, t.val[in.X])
	case *ssa.Convert:
		t.mark(in, t.val[in.X])
	case *ssa.MakeInterface:
		t.mark(in, t.box(in))
	case *ssa.TypeAssert:
		l := t.val[in.X]
		if _, iface := in.AssertedType.Underlying().(*types.Interface); !iface {
			l |= l >> 4
			l &= lUser | lPass | lFile
			if t.holds(in.AssertedType, false, true, map[types.Type]bool{})|t.holds(in.AssertedType, true, true, map[types.Type]bool{}) != 0 {
				l = 0 // followed by its fields
			}
		}
		t.mark(in, l)
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			if fns, _, ext := t.callees(c); len(fns) > 0 && !ext {
				for _, f := range fns {
					t.mark(in, t.res[retKey{f, in.Index}])
				}
				return
			}
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return
		}
		l := t.val[in.Tuple]
		if in.Type().String() == "error" {
			l &^= lFile // says why it was not read
		}
		t.mark(in, l)
	case *ssa.Phi:
		for _, e := range in.Edges {
			t.mark(in, t.val[e])
		}
	}
}

func (t *taint) call(fn *ssa.Function, call ssa.CallInstruction) {
	cc := call.Common()
	v := call.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		l := 0
		for _, a := range cc.Args {
			l |= t.val[a]
		}
		switch b.Name() {
		case "append":
			t.mark(v, l)
			t.into(cc.Args[0], l)
		case "copy":
			t.into(cc.Args[0], t.val[cc.Args[1]])
		case "min", "max":
			t.mark(v, l)
		case "print", "println":
			t.sink(fn, call, b.Name(), l)
		}
		return
	}
	fns, args, ext := t.callees(call)
	for _, f := range fns {
		for i, p := range f.Params {
			if i < len(args) {
				t.mark(p, t.val[args[i]])
				t.into(args[i], t.wr[p])
			}
		}
		if v != nil && f.Signature.Results().Len() == 1 {
			t.mark(v, t.res[retKey{f, 0}])
		} else if v != nil && ext {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				t.mark(v, t.res[retKey{f, i}])
			}
		}
	}
	if ext {
		t.outside(fn, call, args, len(fns) > 0)
	}
}

var passThrough = map[string]bool{"strings": true, "strconv": true, "bytes": true, "errors": true, "unicode": true, "unicode/utf8": true, "slices": true, "maps": true, "sort": true,
	"net/url": true, "path": true, "path/filepath": true, "encoding/base64": true, "encoding/hex": true, "regexp": true, "html": true, "sync": true, "sync/atomic": true, "reflect": true,
	"time": true, "math": true, "encoding/json": true, "gopkg.in/yaml.v3": true, "encoding/xml": true, "unsafe": true, "cmp": true, "iter": true}

// outside is a call of a function that is not part of the module.
func (t *taint) outside(fn *ssa.Function, call ssa.CallInstruction, args []ssa.Value, some bool) {
	cc := call.Common()
	name, pkg := "a function value", ""
	recv := 0
	if cc.IsInvoke() {
		name, recv = cc.Method.FullName(), 1
		if cc.Method.Pkg() != nil {
			pkg = cc.Method.Pkg().Path()
		}
	} else if f := cc.StaticCallee(); f != nil {
		name, pkg = fnName(f), fnPkgPath(f)
		if f.Signature.Recv() != nil {
			recv = 1
		}
	} else {
		recv = 0
	}
	short := name[strings.LastIndex(name, ".")+1:]
	l, rl := 0, 0
	for i, a := range args {
		if i < recv {
			rl = t.val[a]
		} else {
			l |= t.val[a]
		}
	}
	v := call.Value()
	if t.report {
		t.sinks++
	}
	if pkg == modPath+"/pkg/config" || strings.HasPrefix(fnPkgPath(fn), modPath+"/pkg/config") {
		switch name {
		case "os.ReadFile", "os.Open", "os.OpenFile", "io/ioutil.ReadFile", "io/fs.ReadFile":
			t.mark(v, lFile)
		}
	}
	if l|rl == 0 {
		return
	}
	out := l | rl
	switch {
	case strings.HasPrefix(short, "Decode") && recv == 1 || short == "Unmarshal" || short == "UnmarshalStrict":
		// The decoded structure is known by its fields.
		for _, a := range args[recv:] {
			t.into(a, (l|rl)&(lUser|lPass))
		}
		return
	case pkg == "fmt" && (strings.HasPrefix(short, "Sprint") || strings.HasPrefix(short, "Append") || short == "Errorf"):
		out &= lUser | lPass | lFile
	case short == "Marshal" || short == "MarshalIndent":
		out = out&7 | out>>4
	case strings.HasPrefix(short, "Encode") && (pkg == "encoding/json" || pkg == "gopkg.in/yaml.v3" || pkg == "encoding/xml" || pkg == "encoding/gob"),
		name == "encoding/json.NewEncoder", name == "gopkg.in/yaml.v3.NewEncoder":
		t.sink(fn, call, name, out)
		return
	case strings.HasPrefix(pkg, "crypto/") || strings.HasPrefix(pkg, "hash"):
		t.sink(fn, call, name, out&^lFile)
		return
	case pkg == "io" && (short == "Write" || short == "WriteString" || strings.HasPrefix(short, "Copy")) && len(args) > 0 && isHash(args[0]):
		t.sink(fn, call, name, l&^lFile)
		return
	case pkg == "io" && (short == "ReadAll" || short == "NopCloser" || short == "MultiReader" || short == "LimitReader" || short == "TeeReader" || recv == 1 && short != "Write" && l == 0 || short == "ReadFull"):
	case pkg == "os" && out&^lFile == 0 && recv == 1 && !strings.HasPrefix(short, "Write"):
	case pkg == "bufio" && (strings.HasPrefix(short, "NewReader") || strings.HasPrefix(short, "NewScanner") || recv == 1 && l == 0):
	case pkg == "runtime" || name == "context.WithValue" || name == "reflect.DeepEqual" || name == "errors.Is":
		return
	case strings.Contains(pkg, "go-redis") && (short == "ParseURL" || short == "Auth" || short == "AuthACL"):
		t.reach |= out
		return
	case passThrough[pkg]:
		out = out&7 | out&(7<<4)
		if strings.Contains(name, "Template") {
			t.sink(fn, call, name, out)
			return
		}
	case recv == 1 && l == 0:
		// A method of a value that was made of it.
		if !cc.IsInvoke() && !passThrough[pkg] && rl&lFile == 0 {
			t.sink(fn, call, name, rl)
			return
		}
	case some && cc.IsInvoke():
		t.sink(fn, call, name, l)
		return
	default:
		t.sink(fn, call, name, out)
		return
	}
	if v != nil {
		if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
			t.mark(v, out)
		}
	}
	for _, a := range args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			if l != 0 {
				t.into(a, out)
			}
		}
	}
}

func isHash(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		s := v.Type().String()
		return strings.HasPrefix(s, "hash.") || strings.HasPrefix(s, "*crypto/") || strings.HasPrefix(s, "*hash/")
	}
}

// external: a store to a field of a structure of another module.
func (t *taint) external(fn *ssa.Function, in ssa.Instruction, f *types.Var, l int) {
	if f.Pkg() != nil && strings.Contains(f.Pkg().Path(), "go-redis") && (f.Name() == "Username" || f.Name() == "Password") {
		t.reach |= l
		if t.report {
			want := lUser
			if f.Name() == "Password" {
				want = lPass
			}
			t.c.need(l == want, "credentials-not-swapped", t.where(fn, in), f.Name()+" of the connection gets "+labels(l))
		}
		return
	}
	t.sink(fn, in, "field "+f.Name()+" of another module", l)
}

func labels(l int) string {
	var out []string
	for i, n := range []string{"the user name", "the password", "the configuration file", "", "a structure with the user name", "a structure with the password"} {
		if l&(1<<i) != 0 && n != "" {
			out = append(out, n)
		}
	}
	return strings.Join(out, ", ")
}

func (t *taint) where(fn *ssa.Function, in ssa.Instruction) string {
	return fmt.Sprintf("%s (%s)", t.c.at(in.Pos()), fnName(fn))
}

func (t *taint) sink(fn *ssa.Function, in ssa.Instruction, what string, l int) {
	if t.report && l != 0 {
		t.c.fail("credentials-stay-inside", t.where(fn, in), labels(l)+" reach(es) "+what)
	}
}

func runSecrets(c *Check) {
	t := &taint{c: c, in: map[*ssa.Function]bool{}, val: map[ssa.Value]int{}, fld: map[*types.Var]int{}, res: map[retKey]int{}, wr: map[*ssa.Parameter]int{},
		binds: map[*ssa.FreeVar][]ssa.Value{}, bySig: map[string][]*ssa.Function{}, impl: map[string][]*ssa.Function{}}
	st := c.P.Named("provider", "RedisClientConfig").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		key := strings.Split(reflect.StructTag(st.Tag(i)).Get("yaml"), ",")[0]
		switch {
		case key == "username" || strings.EqualFold(f.Name(), "username"):
			t.fld[f] = lUser
		case key == "password" || strings.EqualFold(f.Name(), "password"):
			t.fld[f] = lPass
		}
	}
	c.need(len(t.fld) == 2, "anchor", "provider.RedisClientConfig", "user name and password")
	t.reachable()
	for i := 0; ; i++ {
		t.changed = false
		for _, fn := range t.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					t.step(fn, in)
				}
			}
		}
		if !t.changed {
			break
		}
	}
	t.report = true
	for _, fn := range t.funcs {
		c.tally("functions", 1)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				t.step(fn, in)
			}
		}
	}
	for i := 0; i < t.sinks; i++ {
		c.need(true, "credentials-stay-inside", "calls that leave the module")
	}
	c.tally("tainted values", len(t.val))
	c.need(t.reach&(lUser|lPass) == lUser|lPass, "credentials-reach-the-backend", "provider", "the connection is opened with "+labels(t.reach))
}
