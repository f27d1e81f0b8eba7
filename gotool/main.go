// gotool translates Go packages (through golang.org/x/tools/go/ssa, the compiler-independent SSA form of the same source) into
// LLVM IR text for the verification condition generator.  It reads a JSON job from stdin:
//   {"dir": ..., "modfile": ..., "overlay": {path: file}, "pkgs": [...], "harness": pkgpath, "out": file}
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type job struct {
	Dir, Modfile, Harness, Out string
	Overlay                    map[string]string
	Env                        []string
	NoInit                     []string
}

var sizes = types.SizesFor("gc", "amd64")

type tr struct {
	prog     *ssa.Program
	out      strings.Builder
	names    map[*ssa.Function]string
	used     map[string]bool
	queue    []*ssa.Function
	seen     map[*ssa.Function]bool
	globals  map[*ssa.Global]string
	gorder   []*ssa.Global
	strs     map[string]string
	strdefs  strings.Builder
	tids     typeutil.Map
	tidlist  []types.Type
	decls    map[string]string
	disp     map[string]*dispatcher
	disporder []string
	fvals    map[*ssa.Function]bool
	msets    typeutil.MethodSetCache
	harness  *ssa.Package
	inits    map[*ssa.Package]bool
	neededG  map[*ssa.Global]bool
	noinit   map[string]bool
	eqs      map[string]string
	eqdefs   []string
	overrides map[string]*ssa.Function
	unsupported []string
}

type dispatcher struct {
	name   string
	iface  *types.Interface
	method *types.Func
	sig    *types.Signature
	emitted int
}

func clean(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else if c == '.' || c == '/' {
			b.WriteByte('_')
		} else if c == '*' || c == '(' || c == ')' {
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *tr) fname(f *ssa.Function) string {
	if n, ok := t.names[f]; ok {
		return n
	}
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/Fantom-foundation/Tosca/go/", "")
	if f.Pkg == t.harness && strings.HasPrefix(f.Name(), "vcontract_") {
		s = f.Name()
	}
	n := clean(s)
	for i := 0; t.used[n]; i++ {
		n = fmt.Sprintf("%s_%d", clean(s), i)
	}
	t.used[n] = true
	t.names[f] = n
	return n
}

func (t *tr) want(f *ssa.Function) string {
	if !t.seen[f] {
		t.seen[f] = true
		t.queue = append(t.queue, f)
	}
	return "@" + t.fname(f)
}

// ---------------------------------------------------------------- types
func byteArray(a *types.Array) bool {
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) && a.Len() > 0 && a.Len() <= 64
}

// register type
func rt(x types.Type) string {
	switch u := x.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Invalid: // an unused part of a tuple
			return "i8"
		case types.Bool, types.UntypedBool:
			return "i1"
		case types.Int8, types.Uint8:
			return "i8"
		case types.Int16, types.Uint16:
			return "i16"
		case types.Int32, types.Uint32, types.UntypedRune:
			return "i32"
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return "i64"
		case types.Float64, types.UntypedFloat:
			return "double"
		case types.Float32:
			return "float"
		case types.String, types.UntypedString:
			return "{ ptr, i64 }"
		case types.UnsafePointer, types.UntypedNil:
			return "ptr"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "ptr"
	case *types.Slice:
		return "{ ptr, i64, i64 }"
	case *types.Interface:
		return "{ i64, ptr }"
	case *types.Array:
		if byteArray(u) {
			return fmt.Sprintf("i%d", 8*u.Len())
		}
		return fmt.Sprintf("[%d x %s]", u.Len(), rt(u.Elem()))
	case *types.Struct:
		var p []string
		for i := 0; i < u.NumFields(); i++ {
			p = append(p, rt(u.Field(i).Type()))
		}
		return "{ " + strings.Join(p, ", ") + " }"
	case *types.Tuple:
		var p []string
		for i := 0; i < u.Len(); i++ {
			p = append(p, rt(u.At(i).Type()))
		}
		if len(p) == 0 {
			return "void"
		}
		return "{ " + strings.Join(p, ", ") + " }"
	}
	panic(fmt.Sprintf("type %v", x))
}

// offsets of the fields of a struct
func offsets(s *types.Struct) []int64 {
	var f []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		f = append(f, s.Field(i))
	}
	return sizes.Offsetsof(f)
}

func resType(s *types.Signature) string {
	switch s.Results().Len() {
	case 0:
		return "void"
	case 1:
		return rt(s.Results().At(0).Type())
	}
	return rt(s.Results())
}

func signed(x types.Type) bool {
	b, ok := x.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}
func bits(x types.Type) int { return int(sizes.Sizeof(x.Underlying()) * 8) }
func isFloat(x types.Type) bool {
	b, ok := x.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(x types.Type) bool {
	b, ok := x.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *tr) tid(x types.Type) int {
	if v := t.tids.At(x); v != nil {
		return v.(int)
	}
	n := t.tids.Len() + 1
	t.tids.Set(x, n)
	t.tidlist = append(t.tidlist, x)
	return n
}

func (t *tr) str(s string) string {
	if n, ok := t.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("@.str.%d", len(t.strs))
	t.strs[s] = n
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= 32 && c < 127 && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\%02X", c)
		}
	}
	fmt.Fprintf(&t.strdefs, "%s = private unnamed_addr constant [%d x i8] c\"%s\\00\"\n", n, len(s)+1, b.String())
	return n
}

func (t *tr) decl(name, sig string) string {
	t.decls[name] = sig
	return "@" + name
}

// ---------------------------------------------------------------- function translation
type fx struct {
	t    *tr
	f    *ssa.Function
	b    strings.Builder
	n    int
	vals map[ssa.Value]string
	entry strings.Builder // allocas of the entry block
	keep map[ssa.Instruction]bool // nil: all
	defers []*ssa.Defer
	dslots map[*ssa.Defer][]string
	cur  string // current LLVM block label
	last map[*ssa.BasicBlock]string
}

func (x *fx) tmp() string { x.n++; return fmt.Sprintf("%%v%d", x.n) }
func (x *fx) emit(f string, a ...any) { fmt.Fprintf(&x.b, "  "+f+"\n", a...) }
func (x *fx) def(f string, a ...any) string {
	r := x.tmp()
	x.emit("%s = "+f, append([]any{r}, a...)...)
	return r
}
func (x *fx) label(l string) { fmt.Fprintf(&x.b, "%s:\n", l); x.cur = l }

func (x *fx) alloca(ty string) string {
	r := x.tmp()
	fmt.Fprintf(&x.entry, "  %s = alloca %s, align 8\n", r, ty)
	return r
}

func (x *fx) where(label string) string {
	if x.f == nil {
		return label
	}
	return label + " [" + x.f.String() + "]"
}

func (x *fx) check(c string, label string) {
	x.emit("call void %s(i1 zeroext %s, ptr %s)", x.t.decl("__vc_check", "void (i1 zeroext, ptr)"), c, x.t.str(x.where(label)))
}

func (x *fx) fail(label string) {
	x.check("false", label)
	x.emit("unreachable")
	x.n++
	x.label(fmt.Sprintf("dead%d", x.n))
}

// load of a value of Go type ty
func (x *fx) load(p string, ty types.Type) string {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if rt(ty) == "i1" {
			v := x.def("load i8, ptr %s, align 1", p)
			return x.def("trunc i8 %s to i1", v)
		}
		if isString(ty) {
			return x.loadparts(p, []string{"ptr", "i64"})
		}
	case *types.Slice:
		return x.loadparts(p, []string{"ptr", "i64", "i64"})
	case *types.Interface:
		return x.loadparts(p, []string{"i64", "ptr"})
	case *types.Struct:
		r := "undef"
		offs := offsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			v := x.load(x.gep(p, offs[i]), ft)
			r = x.def("insertvalue %s %s, %s %s, %d", rt(ty), r, rt(ft), v, i)
		}
		return r
	case *types.Array:
		if byteArray(u) {
			return x.def("load %s, ptr %s, align 1", rt(ty), p)
		}
		r := "undef"
		es := sizes.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			v := x.load(x.gep(p, i*es), u.Elem())
			r = x.def("insertvalue %s %s, %s %s, %d", rt(ty), r, rt(u.Elem()), v, i)
		}
		return r
	}
	return x.def("load %s, ptr %s, align %d", rt(ty), p, sizes.Alignof(ty))
}
func (x *fx) loadparts(p string, parts []string) string {
	ty := "{ " + strings.Join(parts, ", ") + " }"
	r := "undef"
	for i, q := range parts {
		v := x.def("load %s, ptr %s, align 8", q, x.gep(p, int64(8*i)))
		r = x.def("insertvalue %s %s, %s %s, %d", ty, r, q, v, i)
	}
	return r
}
func (x *fx) store(p, v string, ty types.Type) {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if rt(ty) == "i1" {
			w := x.def("zext i1 %s to i8", v)
			x.emit("store i8 %s, ptr %s, align 1", w, p)
			return
		}
		if isString(ty) {
			x.storeparts(p, v, []string{"ptr", "i64"})
			return
		}
	case *types.Slice:
		x.storeparts(p, v, []string{"ptr", "i64", "i64"})
		return
	case *types.Interface:
		x.storeparts(p, v, []string{"i64", "ptr"})
		return
	case *types.Struct:
		offs := offsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			e := x.def("extractvalue %s %s, %d", rt(ty), v, i)
			x.store(x.gep(p, offs[i]), e, ft)
		}
		return
	case *types.Array:
		if byteArray(u) {
			x.emit("store %s %s, ptr %s, align 1", rt(ty), v, p)
			return
		}
		es := sizes.Sizeof(u.Elem())
		if (v == "zeroinitializer" || u.Len() > 64) && v == "zeroinitializer" {
			x.zero(p, u.Len()*es)
			return
		}
		for i := int64(0); i < u.Len(); i++ {
			e := x.def("extractvalue %s %s, %d", rt(ty), v, i)
			x.store(x.gep(p, i*es), e, u.Elem())
		}
		return
	}
	x.emit("store %s %s, ptr %s, align %d", rt(ty), v, p, sizes.Alignof(ty))
}
func (x *fx) storeparts(p, v string, parts []string) {
	ty := "{ " + strings.Join(parts, ", ") + " }"
	for i, q := range parts {
		e := x.def("extractvalue %s %s, %d", ty, v, i)
		x.emit("store %s %s, ptr %s, align 8", q, e, x.gep(p, int64(8*i)))
	}
}
func (x *fx) gep(p string, off int64) string {
	if off == 0 {
		return p
	}
	return x.def("getelementptr i8, ptr %s, i64 %d", p, off)
}
func (x *fx) zero(p string, n int64) {
	if n > 0 {
		x.emit("call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %d, i1 false)", p, n)
	}
}
func (x *fx) malloc(n int64) string {
	p := x.def("call ptr %s(i64 %d)", x.t.decl("__vc_calloc1", "ptr (i64)"), n)
	return p
}
func (x *fx) ev(v, ty string, i int) string { return x.def("extractvalue %s %s, %d", ty, v, i) }

const sliceT, strT, ifaceT = "{ ptr, i64, i64 }", "{ ptr, i64 }", "{ i64, ptr }"

func (x *fx) agg(ty string, parts ...string) string { // parts: "type value"
	r := "undef"
	for i, p := range parts {
		r = x.def("insertvalue %s %s, %s, %d", ty, r, p, i)
	}
	return r
}

func zeroOf(ty types.Type) string {
	switch r := rt(ty); {
	case r == "i1":
		return "false"
	case r == "ptr":
		return "null"
	case r[0] == 'i':
		return "0"
	case r == "double" || r == "float":
		return "0.0"
	}
	return "zeroinitializer"
}

func (x *fx) constant(c *ssa.Const) string {
	ty := c.Type()
	if c.Value == nil {
		return zeroOf(ty)
	}
	if tp, ok := ty.Underlying().(*types.Interface); ok {
		_ = tp
		panic("interface const")
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return "true"
		}
		return "false"
	case constant.String:
		s := constant.StringVal(c.Value)
		return fmt.Sprintf("{ ptr %s, i64 %d }", x.t.str(s), len(s))
	case constant.Int, constant.Float:
		if isFloat(ty) {
			f, _ := constant.Float64Val(c.Value)
			return fmt.Sprintf("%e", f)
		}
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic("const")
		}
		return b.String()
	}
	panic(fmt.Sprintf("const %v", c))
}

func (x *fx) val(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.Const:
		return x.constant(u)
	case *ssa.Global:
		return x.t.global(u)
	case *ssa.Function:
		return x.t.funcval(u)
	case *ssa.Builtin:
		panic("builtin value")
	}
	if r, ok := x.vals[v]; ok {
		return r
	}
	if x.keep != nil { // dropped initialiser
		return zeroOf(v.Type())
	}
	// forward reference (phi): reserve the name
	x.n++
	r := fmt.Sprintf("%%f%d", x.n)
	x.vals[v] = r
	return r
}

func (t *tr) global(g *ssa.Global) string {
	if n, ok := t.globals[g]; ok {
		return n
	}
	n := "@g." + clean(strings.ReplaceAll(g.String(), "github.com/Fantom-foundation/Tosca/go/", ""))
	t.globals[g] = n
	t.gorder = append(t.gorder, g)
	return n
}

func (t *tr) funcval(f *ssa.Function) string {
	f = t.override(f)
	t.want(f)
	t.fvals[f] = true
	return "@fv." + t.fname(f)
}

func (t *tr) override(f *ssa.Function) *ssa.Function {
	if o, ok := t.overrides[f.String()]; ok {
		return o
	}
	if f.Origin() != nil {
		if o, ok := t.overrides[f.Origin().String()]; ok {
			return o
		}
	}
	return f
}

func (x *fx) bind(v ssa.Value, r string) {
	if old, ok := x.vals[v]; ok && old != r {
		// a forward reference exists: give it this value
		ty := rt(v.Type())
		if ty == "void" {
			return
		}
		x.emit("%s = select i1 true, %s %s, %s %s", old, ty, r, ty, r)
		return
	}
	x.vals[v] = r
}

func sigParams(f *ssa.Function) []types.Type {
	var p []types.Type
	for _, q := range f.Params {
		p = append(p, q.Type())
	}
	return p
}

func (t *tr) translate(f *ssa.Function) {
	name := t.fname(f)
	if f.Blocks == nil {
		t.external(f)
		return
	}
	x := &fx{t: t, f: f, vals: map[ssa.Value]string{}, last: map[*ssa.BasicBlock]string{}, dslots: map[*ssa.Defer][]string{}}
	if f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil && f.Signature.Recv() == nil {
		x.keep = t.initSlice(f)
	}
	params := []string{"ptr %env"}
	for i, p := range f.Params {
		n := fmt.Sprintf("%%p%d", i)
		x.vals[p] = n
		params = append(params, rt(p.Type())+" "+n)
	}
	defer func() {
		if e := recover(); e != nil {
			panic(fmt.Sprintf("%v in %v: %v", e, f, ""))
		}
	}()
	for i, fv := range f.FreeVars {
		// layout of a closure: code, then the bindings
		off := int64(8)
		for j := 0; j < i; j++ {
			off += (sizes.Sizeof(f.FreeVars[j].Type()) + 7) / 8 * 8
		}
		x.vals[fv] = x.load(x.gep("%env", off), fv.Type())
	}
	// defers
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				x.defers = append(x.defers, d)
				slot := x.alloca("i8")
				x.emit("store i8 0, ptr %s, align 1", slot)
				s := []string{slot}
				var vs []ssa.Value
				vs = append(vs, d.Call.Args...)
				if d.Call.StaticCallee() == nil || len(d.Call.StaticCallee().FreeVars) > 0 {
					vs = append(vs, d.Call.Value)
				}
				for _, a := range vs {
					s = append(s, x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(a.Type()))))
				}
				x.dslots[d] = s
			}
		}
	}
	pre := x.b.String()
	x.b.Reset()
	for _, b := range f.Blocks {
		x.block(b)
	}
	body := x.b.String()
	fmt.Fprintf(&t.out, "define %s @%s(%s) #0 {\nentry:\n%s%s  br label %%b0\n", resType(f.Signature), name, strings.Join(params, ", "), x.entry.String(), pre)
	// phis refer to the LLVM block that ends the Go block
	for b, l := range x.last {
		body = strings.ReplaceAll(body, fmt.Sprintf("%%END%d.", b.Index), "%"+l)
	}
	fmt.Fprintf(&t.out, "%s}\n\n", body)
}

func (x *fx) block(b *ssa.BasicBlock) {
	x.label(fmt.Sprintf("b%d", b.Index))
	for _, ins := range b.Instrs {
		if x.keep != nil && !x.keep[ins] {
			switch ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Panic:
			default:
				continue
			}
		}
		x.instr(ins)
	}
	x.last[b] = x.cur
}

func (x *fx) unsupported(ins ssa.Instruction, why string) {
	pos := x.f.Prog.Fset.Position(ins.Pos())
	m := fmt.Sprintf("unsupported: %s (%v at %s:%d)", why, ins, pos.Filename, pos.Line)
	x.emit("call void %s(ptr %s)", x.t.decl("__vc_unsupported", "void (ptr)"), x.t.str(m))
	if v, ok := ins.(ssa.Value); ok {
		if ty := rt(v.Type()); ty != "void" {
			x.bind(v, x.def("freeze %s undef", ty))
		}
	}
}

func (x *fx) instr(ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		ty := i.Type().Underlying().(*types.Pointer).Elem()
		n := sizes.Sizeof(ty)
		if i.Heap {
			x.bind(i, x.malloc(n))
		} else {
			a := x.alloca(fmt.Sprintf("[%d x i8]", n))
			x.zero(a, n)
			x.bind(i, a)
		}
	case *ssa.BinOp:
		x.binop(i)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			x.bind(i, x.load(x.val(i.X), i.Type()))
		case token.SUB:
			if isFloat(i.Type()) {
				x.bind(i, x.def("fneg %s %s", rt(i.Type()), x.val(i.X)))
			} else {
				x.bind(i, x.def("sub %s 0, %s", rt(i.Type()), x.val(i.X)))
			}
		case token.XOR:
			x.bind(i, x.def("xor %s %s, -1", rt(i.Type()), x.val(i.X)))
		case token.NOT:
			x.bind(i, x.def("xor i1 %s, true", x.val(i.X)))
		default:
			x.unsupported(i, "operator")
		}
	case *ssa.ChangeType:
		x.bind(i, x.val(i.X))
	case *ssa.ChangeInterface:
		x.bind(i, x.val(i.X))
	case *ssa.Convert:
		x.convert(i)
	case *ssa.MakeInterface:
		x.bind(i, x.makeIface(i.X.Type(), x.val(i.X)))
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		x.t.want(f)
		n := int64(8)
		for _, b := range i.Bindings {
			n += (sizes.Sizeof(b.Type()) + 7) / 8 * 8
		}
		p := x.malloc(n)
		x.emit("store ptr @%s, ptr %s, align 8", x.t.fname(f), p)
		off := int64(8)
		for _, b := range i.Bindings {
			x.store(x.gep(p, off), x.val(b), b.Type())
			off += (sizes.Sizeof(b.Type()) + 7) / 8 * 8
		}
		x.bind(i, p)
	case *ssa.MakeSlice:
		es := sizes.Sizeof(i.Type().Underlying().(*types.Slice).Elem())
		l, c := x.toI64(i.Len), x.toI64(i.Cap)
		ok := x.def("icmp sge i64 %s, 0", l)
		x.check(ok, "no panic: makeslice length in range")
		ok = x.def("icmp sle i64 %s, %s", l, c)
		x.check(ok, "no panic: makeslice length within capacity")
		n := x.def("mul i64 %s, %d", c, es)
		p := x.def("call ptr %s(i64 %s)", x.t.decl("__vc_calloc1", "ptr (i64)"), n)
		x.bind(i, x.agg(sliceT, "ptr "+p, "i64 "+l, "i64 "+c))
	case *ssa.MakeMap:
		x.bind(i, x.def("call ptr %s()", x.t.decl("vcgo_map_new", "ptr ()")))
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		k, ok := x.mapKey(m, x.val(i.Key))
		if !ok {
			x.unsupported(i, "map key")
			return
		}
		v := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(m.Elem())))
		x.store(v, x.val(i.Value), m.Elem())
		x.emit("call void %s(ptr %s, ptr %s, i64 %d, i64 %d, ptr %s, i64 %d)", x.t.decl("vcgo_map_set", "void (ptr, ptr, i64, i64, ptr, i64)"), x.val(i.Map), k, sizes.Sizeof(m.Key()), b2i(isString(m.Key())), v, sizes.Sizeof(m.Elem()))
	case *ssa.Lookup:
		x.lookup(i)
	case *ssa.Slice:
		x.slice(i)
	case *ssa.FieldAddr:
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		x.bind(i, x.gepn(x.val(i.X), offsets(st)[i.Field]))
	case *ssa.Field:
		x.bind(i, x.ev(x.val(i.X), rt(i.X.Type()), i.Field))
	case *ssa.IndexAddr:
		idx := x.toI64(i.Index)
		var p string
		var es int64
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(i.X)
			l := x.ev(s, sliceT, 1)
			c := x.def("icmp ult i64 %s, %s", idx, l)
			x.check(c, "no panic: slice index in range")
			p = x.ev(s, sliceT, 0)
			es = sizes.Sizeof(u.Elem())
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			if _, k := i.Index.(*ssa.Const); !k {
				c := x.def("icmp ult i64 %s, %d", idx, a.Len())
				x.check(c, "no panic: array index in range")
			}
			p = x.val(i.X)
			es = sizes.Sizeof(a.Elem())
		}
		o := idx
		if es != 1 {
			o = x.def("mul i64 %s, %d", idx, es)
		}
		x.bind(i, x.def("getelementptr i8, ptr %s, i64 %s", p, o))
	case *ssa.Index:
		idx := x.toI64(i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			c := x.def("icmp ult i64 %s, %d", idx, u.Len())
			x.check(c, "no panic: array index in range")
			a := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(u)))
			x.store(a, x.val(i.X), i.X.Type())
			o := x.def("mul i64 %s, %d", idx, sizes.Sizeof(u.Elem()))
			x.bind(i, x.load(x.def("getelementptr i8, ptr %s, i64 %s", a, o), i.Type()))
		default: // string
			s := x.val(i.X)
			c := x.def("icmp ult i64 %s, %s", idx, x.ev(s, strT, 1))
			x.check(c, "no panic: string index in range")
			x.bind(i, x.def("load i8, ptr %s, align 1", x.def("getelementptr i8, ptr %s, i64 %s", x.ev(s, strT, 0), idx)))
		}
	case *ssa.Store:
		x.store(x.val(i.Addr), x.val(i.Val), i.Val.Type())
	case *ssa.Extract:
		x.bind(i, x.ev(x.val(i.Tuple), rt(i.Tuple.Type()), i.Index))
	case *ssa.TypeAssert:
		x.typeAssert(i)
	case *ssa.Phi:
		name, ok := x.vals[i]
		if !ok {
			x.n++
			name = fmt.Sprintf("%%f%d", x.n)
			x.vals[i] = name
		}
		var e []string
		for k, v := range i.Edges {
			e = append(e, fmt.Sprintf("[ %s, %%END%d. ]", x.val(v), i.Block().Preds[k].Index))
		}
		x.emit("%s = phi %s %s", name, rt(i.Type()), strings.Join(e, ", "))
	case *ssa.If:
		x.emit("br i1 %s, label %%b%d, label %%b%d", x.val(i.Cond), i.Block().Succs[0].Index, i.Block().Succs[1].Index)
	case *ssa.Jump:
		x.emit("br label %%b%d", i.Block().Succs[0].Index)
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
			x.emit("ret void")
		case 1:
			x.emit("ret %s %s", rt(i.Results[0].Type()), x.val(i.Results[0]))
		default:
			var p []string
			for _, r := range i.Results {
				p = append(p, rt(r.Type())+" "+x.val(r))
			}
			ty := rt(x.f.Signature.Results())
			x.emit("ret %s %s", ty, x.agg(ty, p...))
		}
	case *ssa.Panic:
		x.check("false", "no panic: explicit panic")
		x.emit("unreachable")
	case *ssa.RunDefers:
		x.runDefers()
	case *ssa.Defer:
		s := x.dslots[i]
		x.emit("store i8 1, ptr %s, align 1", s[0])
		vs := append([]ssa.Value{}, i.Call.Args...)
		if len(s) > len(vs)+1 {
			vs = append(vs, i.Call.Value)
		}
		for k, a := range vs {
			x.store(s[k+1], x.val(a), a.Type())
		}
	case *ssa.Call:
		x.call(i)
	case *ssa.SliceToArrayPointer:
		a := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s := x.val(i.X)
		c := x.def("icmp uge i64 %s, %d", x.ev(s, sliceT, 1), a.Len())
		x.check(c, "no panic: slice long enough for the array")
		x.bind(i, x.ev(s, sliceT, 0))
	case *ssa.Range:
		x.vals[i] = x.val(i.X)
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			it := x.malloc(16)
			x.emit("store ptr %s, ptr %s, align 8", x.val(i.X), it)
			x.vals[i] = it
		} else {
			x.unsupported(i, "range over string")
		}
	case *ssa.Next:
		r, ok := i.Iter.(*ssa.Range)
		m, isMap := r.X.Type().Underlying().(*types.Map)
		if !ok || !isMap {
			x.unsupported(i, "next")
			return
		}
		k := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(m.Key())))
		v := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(m.Elem())))
		okv := x.def("call i8 %s(ptr %s, ptr %s, i64 %d, ptr %s, i64 %d)", x.t.decl("vcgo_map_next", "i8 (ptr, ptr, i64, ptr, i64)"), x.val(i.Iter), k, sizes.Sizeof(m.Key()), v, sizes.Sizeof(m.Elem()))
		tt := i.Type().(*types.Tuple)
		parts := []string{"i1 " + x.def("trunc i8 %s to i1", okv)}
		for j, q := range []string{k, v} {
			ft := tt.At(j + 1).Type()
			if b, bad := ft.(*types.Basic); bad && b.Kind() == types.Invalid {
				x.unsupported(i, "blank range")
				return
			}
			parts = append(parts, rt(ft)+" "+x.load(q, ft))
		}
		x.bind(i, x.agg(rt(tt), parts...))
	default:
		x.unsupported(ins, fmt.Sprintf("%T", ins))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *fx) gepn(p string, off int64) string {
	if off == 0 {
		return p
	}
	return x.def("getelementptr i8, ptr %s, i64 %d", p, off)
}

func (x *fx) mapKey(m *types.Map, k string) (string, bool) {
	a := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(m.Key())))
	switch m.Key().Underlying().(type) {
	case *types.Interface, *types.Struct:
		return "", false
	}
	x.store(a, k, m.Key())
	return a, true
}

func (x *fx) lookup(i *ssa.Lookup) {
	m, ok := i.X.Type().Underlying().(*types.Map)
	if !ok { // string
		idx := x.toI64(i.Index)
		s := x.val(i.X)
		c := x.def("icmp ult i64 %s, %s", idx, x.ev(s, strT, 1))
		x.check(c, "no panic: string index in range")
		x.bind(i, x.def("load i8, ptr %s, align 1", x.def("getelementptr i8, ptr %s, i64 %s", x.ev(s, strT, 0), idx)))
		return
	}
	k, ok := x.mapKey(m, x.val(i.Index))
	if !ok {
		x.unsupported(i, "map key")
		return
	}
	v := x.alloca(fmt.Sprintf("[%d x i8]", sizes.Sizeof(m.Elem())))
	f := x.def("call i8 %s(ptr %s, ptr %s, i64 %d, i64 %d, ptr %s, i64 %d)", x.t.decl("vcgo_map_get", "i8 (ptr, ptr, i64, i64, ptr, i64)"), x.val(i.X), k, sizes.Sizeof(m.Key()), b2i(isString(m.Key())), v, sizes.Sizeof(m.Elem()))
	r := x.load(v, m.Elem())
	if i.CommaOk {
		x.bind(i, x.agg(rt(i.Type()), rt(m.Elem())+" "+r, "i1 "+x.def("trunc i8 %s to i1", f)))
	} else {
		x.bind(i, r)
	}
}

// an integer operand as a 64 bit number
func (x *fx) toI64(v ssa.Value) string {
	if v == nil {
		return ""
	}
	s := x.val(v)
	w := bits(v.Type())
	if w == 64 {
		return s
	}
	if _, ok := v.(*ssa.Const); ok {
		return s
	}
	op := "zext"
	if signed(v.Type()) {
		op = "sext"
	}
	return x.def("%s i%d %s to i64", op, w, s)
}

func (x *fx) slice(i *ssa.Slice) {
	var p, l, c string
	es := int64(1)
	isStr := false
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(i.X)
		p, l, c = x.ev(s, sliceT, 0), x.ev(s, sliceT, 1), x.ev(s, sliceT, 2)
		es = sizes.Sizeof(u.Elem())
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p = x.val(i.X)
		l = fmt.Sprint(a.Len())
		c = l
		es = sizes.Sizeof(a.Elem())
	default:
		s := x.val(i.X)
		p, l = x.ev(s, strT, 0), x.ev(s, strT, 1)
		c = l
		isStr = true
	}
	lo, hi, mx := "0", l, c
	if i.Low != nil {
		lo = x.toI64(i.Low)
	}
	if i.High != nil {
		hi = x.toI64(i.High)
	}
	if i.Max != nil {
		mx = x.toI64(i.Max)
		x.check(x.def("icmp ule i64 %s, %s", mx, c), "no panic: slice bounds in range")
	}
	if i.High != nil {
		x.check(x.def("icmp ule i64 %s, %s", hi, mx), "no panic: slice bounds in range")
	}
	if i.Low != nil {
		x.check(x.def("icmp ule i64 %s, %s", lo, hi), "no panic: slice bounds in range")
	}
	nl := hi
	nc := mx
	q := p
	if i.Low != nil {
		nl = x.def("sub i64 %s, %s", hi, lo)
		nc = x.def("sub i64 %s, %s", mx, lo)
		o := lo
		if es != 1 {
			o = x.def("mul i64 %s, %d", lo, es)
		}
		q = x.def("getelementptr i8, ptr %s, i64 %s", p, o)
	}
	if isStr {
		x.bind(i, x.agg(strT, "ptr "+q, "i64 "+nl))
	} else {
		x.bind(i, x.agg(sliceT, "ptr "+q, "i64 "+nl, "i64 "+nc))
	}
}

func (x *fx) binop(i *ssa.BinOp) {
	a, b := x.val(i.X), x.val(i.Y)
	ty := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		e := x.equal(i.X, i.Y, a, b)
		if i.Op == token.NEQ {
			e = x.def("xor i1 %s, true", e)
		}
		x.bind(i, e)
		return
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(ty) {
			x.unsupported(i, "string order")
			return
		}
		p := map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[i.Op]
		if isFloat(ty) {
			x.bind(i, x.def("fcmp o%s %s %s, %s", p, rt(ty), a, b))
			return
		}
		s := "u"
		if signed(ty) {
			s = "s"
		}
		x.bind(i, x.def("icmp %s%s %s %s, %s", s, p, rt(ty), a, b))
		return
	}
	if isString(ty) && i.Op == token.ADD {
		p := x.alloca("[16 x i8]")
		x.emit("call void %s(ptr %s, ptr %s, i64 %s, ptr %s, i64 %s)", x.t.decl("vcgo_concat", "void (ptr, ptr, i64, ptr, i64)"), p, x.ev(a, strT, 0), x.ev(a, strT, 1), x.ev(b, strT, 0), x.ev(b, strT, 1))
		x.bind(i, x.loadparts(p, []string{"ptr", "i64"}))
		return
	}
	r := rt(ty)
	if isFloat(ty) {
		op := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[i.Op]
		x.bind(i, x.def("%s %s %s, %s", op, r, a, b))
		return
	}
	sg := signed(ty)
	switch i.Op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		op := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.AND: "and", token.OR: "or", token.XOR: "xor"}[i.Op]
		x.bind(i, x.def("%s %s %s, %s", op, r, a, b))
	case token.AND_NOT:
		x.bind(i, x.def("and %s %s, %s", r, a, x.def("xor %s %s, -1", r, b)))
	case token.QUO, token.REM:
		x.check(x.def("icmp ne %s %s, 0", r, b), "no panic: division by zero")
		op := map[token.Token]string{token.QUO: "udiv", token.REM: "urem"}[i.Op]
		if !sg {
			x.bind(i, x.def("%s %s %s, %s", op, r, a, b))
			return
		}
		op = "s" + op[1:]
		m1 := x.def("icmp eq %s %s, -1", r, b)
		d := x.def("select i1 %s, %s 1, %s %s", m1, r, r, b)
		q := x.def("%s %s %s, %s", op, r, a, d)
		var o string
		if i.Op == token.QUO {
			o = x.def("sub %s 0, %s", r, a)
		} else {
			o = "0"
		}
		x.bind(i, x.def("select i1 %s, %s %s, %s %s", m1, r, o, r, q))
	case token.SHL, token.SHR:
		w := bits(ty)
		yt := i.Y.Type()
		yw := bits(yt)
		if signed(yt) {
			if _, ok := i.Y.(*ssa.Const); !ok {
				x.check(x.def("icmp sge %s %s, 0", rt(yt), b), "no panic: negative shift")
			}
		}
		var big, amt string
		if c, ok := i.Y.(*ssa.Const); ok {
			v, _ := constant.Uint64Val(constant.ToInt(c.Value))
			big, amt = "false", fmt.Sprint(v)
			if v >= uint64(w) {
				big, amt = "true", "0"
			}
		} else {
			y := b
			if yw < 64 {
				y = x.def("zext i%d %s to i64", yw, b)
			}
			big = x.def("icmp uge i64 %s, %d", y, w)
			m := x.def("select i1 %s, i64 0, i64 %s", big, y)
			amt = m
			if w < 64 {
				amt = x.def("trunc i64 %s to %s", m, r)
			}
		}
		over := "0"
		op := "shl"
		if i.Op == token.SHR {
			op = "lshr"
			if sg {
				op = "ashr"
				over = x.def("ashr %s %s, %d", r, a, w-1)
			}
		}
		v := x.def("%s %s %s, %s", op, r, a, amt)
		x.bind(i, x.def("select i1 %s, %s %s, %s %s", big, r, over, r, v))
	default:
		x.unsupported(i, "operator")
	}
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *fx) equal(X, Y ssa.Value, a, b string) string {
	if isNil(X) && !isNil(Y) {
		X, Y, a, b = Y, X, b, a
	}
	ty := X.Type()
	switch ty.Underlying().(type) {
	case *types.Slice:
		return x.def("icmp eq ptr %s, null", x.ev(a, sliceT, 0))
	case *types.Interface:
		if isNil(Y) {
			return x.def("icmp eq i64 %s, 0", x.ev(a, ifaceT, 0))
		}
		if _, ok := Y.Type().Underlying().(*types.Interface); !ok {
			panic("mixed comparison")
		}
	}
	return x.eq(ty, a, b)
}

func (x *fx) eq(ty types.Type, a, b string) string {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if isString(ty) {
			r := x.def("call i8 %s(ptr %s, i64 %s, ptr %s, i64 %s)", x.t.decl("vcgo_streq", "i8 (ptr, i64, ptr, i64)"), x.ev(a, strT, 0), x.ev(a, strT, 1), x.ev(b, strT, 0), x.ev(b, strT, 1))
			return x.def("trunc i8 %s to i1", r)
		}
		if isFloat(ty) {
			return x.def("fcmp oeq %s %s, %s", rt(ty), a, b)
		}
	case *types.Interface:
		return x.def("call i1 %s(%s %s, %s %s)", "@vcgo_ifaceeq", ifaceT, a, ifaceT, b)
	case *types.Struct:
		r := "true"
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			e := x.eq(ft, x.ev(a, rt(ty), i), x.ev(b, rt(ty), i))
			if r == "true" {
				r = e
			} else {
				r = x.def("and i1 %s, %s", r, e)
			}
		}
		return r
	case *types.Array:
		if !byteArray(u) {
			r := "true"
			for i := int64(0); i < u.Len(); i++ {
				e := x.eq(u.Elem(), x.ev(a, rt(ty), int(i)), x.ev(b, rt(ty), int(i)))
				if r == "true" {
					r = e
				} else {
					r = x.def("and i1 %s, %s", r, e)
				}
			}
			return r
		}
	}
	return x.def("icmp eq %s %s, %s", rt(ty), a, b)
}

func (x *fx) convert(i *ssa.Convert) {
	from, to := i.X.Type(), i.Type()
	v := x.val(i.X)
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		fw, tw := bits(from), bits(to)
		if c, ok := i.X.(*ssa.Const); ok {
			_ = c
		}
		switch {
		case fw == tw:
			x.bind(i, v)
		case fw > tw:
			x.bind(i, x.def("trunc i%d %s to i%d", fw, v, tw))
		case signed(from):
			x.bind(i, x.def("sext i%d %s to i%d", fw, v, tw))
		default:
			x.bind(i, x.def("zext i%d %s to i%d", fw, v, tw))
		}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		x.bind(i, v)
	case fok && fb.Info()&types.IsString != 0: // to []byte
		if s, ok := tu.(*types.Slice); ok && bits(s.Elem()) == 8 {
			p, l := x.ev(v, strT, 0), x.ev(v, strT, 1)
			q := x.def("call ptr %s(ptr %s, i64 %s)", x.t.decl("vcgo_dup", "ptr (ptr, i64)"), p, l)
			x.bind(i, x.agg(sliceT, "ptr "+q, "i64 "+l, "i64 "+l))
			return
		}
		x.unsupported(i, "conversion")
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := fu.(*types.Slice); ok && bits(s.Elem()) == 8 {
			p, l := x.ev(v, sliceT, 0), x.ev(v, sliceT, 1)
			q := x.def("call ptr %s(ptr %s, i64 %s)", x.t.decl("vcgo_dup", "ptr (ptr, i64)"), p, l)
			x.bind(i, x.agg(strT, "ptr "+q, "i64 "+l))
			return
		}
		x.unsupported(i, "conversion")
	case fok && fb.Kind() == types.UnsafePointer && tok && tb.Kind() == types.Uintptr:
		x.bind(i, x.def("ptrtoint ptr %s to i64", v))
	case fok && fb.Kind() == types.Uintptr && rt(to) == "ptr":
		x.bind(i, x.def("inttoptr i64 %s to ptr", v))
	case rt(from) == "ptr" && rt(to) == "ptr":
		x.bind(i, v)
	case fok && tok && isFloat(to) && fb.Info()&types.IsInteger != 0:
		op := "uitofp"
		if signed(from) {
			op = "sitofp"
		}
		x.bind(i, x.def("%s %s %s to %s", op, rt(from), v, rt(to)))
	case fok && tok && isFloat(from) && tb.Info()&types.IsInteger != 0:
		op := "fptoui"
		if signed(to) {
			op = "fptosi"
		}
		x.bind(i, x.def("%s %s %s to %s", op, rt(from), v, rt(to)))
	default:
		x.unsupported(i, "conversion")
	}
}

// ---------------------------------------------------------------- interfaces
func pointerLike(ty types.Type) bool {
	switch ty.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (x *fx) makeIface(ty types.Type, v string) string {
	id := x.t.tid(ty)
	p := v
	if !pointerLike(ty) {
		n := sizes.Sizeof(ty)
		if n == 0 {
			p = "@vcgo_zerobase"
		} else {
			p = x.malloc(n)
			x.store(p, v, ty)
		}
	}
	return x.agg(ifaceT, fmt.Sprintf("i64 %d", id), "ptr "+p)
}

func (x *fx) unbox(ty types.Type, data string) string {
	if pointerLike(ty) {
		return data
	}
	if sizes.Sizeof(ty) == 0 {
		return zeroOf(ty)
	}
	return x.load(data, ty)
}

func (x *fx) typeAssert(i *ssa.TypeAssert) {
	v := x.val(i.X)
	id, data := x.ev(v, ifaceT, 0), x.ev(v, ifaceT, 1)
	var ok, r string
	if it, is := i.AssertedType.Underlying().(*types.Interface); is {
		name := "implements_" + clean(i.AssertedType.String())
		x.t.implements(name, it)
		ok = x.def("call i1 @%s(i64 %s)", name, id)
		r = v
		if i.CommaOk {
			r = x.def("select i1 %s, %s %s, %s zeroinitializer", ok, ifaceT, v, ifaceT)
		}
	} else {
		ok = x.def("icmp eq i64 %s, %d", id, x.t.tid(i.AssertedType))
		if i.CommaOk {
			// read the value only when the type matches
			yes, no, end := fmt.Sprintf("ta%d", x.n+1), fmt.Sprintf("tb%d", x.n+1), fmt.Sprintf("tc%d", x.n+1)
			x.n++
			x.emit("br i1 %s, label %%%s, label %%%s", ok, yes, no)
			x.label(yes)
			w := x.unbox(i.AssertedType, data)
			x.emit("br label %%%s", end)
			x.label(no)
			x.emit("br label %%%s", end)
			x.label(end)
			r = x.def("phi %s [ %s, %%%s ], [ %s, %%%s ]", rt(i.AssertedType), w, yes, zeroOf(i.AssertedType), no)
		}
	}
	if i.CommaOk {
		x.bind(i, x.agg(rt(i.Type()), rt(i.AssertedType)+" "+r, "i1 "+ok))
		return
	}
	x.check(ok, "no panic: type assertion holds")
	if r == "" {
		r = x.unbox(i.AssertedType, data)
	}
	x.bind(i, r)
}

type impl struct {
	name  string
	iface *types.Interface
}

var impls []impl

func (t *tr) implements(name string, it *types.Interface) {
	for _, i := range impls {
		if i.name == name {
			return
		}
	}
	impls = append(impls, impl{name, it})
}

func (x *fx) invoke(c *ssa.CallCommon) (string, string) {
	it := c.Value.Type().Underlying().(*types.Interface)
	sig := c.Method.Type().(*types.Signature)
	key := clean(strings.ReplaceAll(c.Value.Type().String(), "github.com/Fantom-foundation/Tosca/go/", "")) + "_" + c.Method.Name()
	d, ok := x.t.disp[key]
	if !ok {
		d = &dispatcher{name: "invoke_" + key, iface: it, method: c.Method, sig: sig}
		x.t.disp[key] = d
		x.t.disporder = append(x.t.disporder, key)
	}
	v := x.val(c.Value)
	args := []string{ifaceT + " " + v}
	for _, a := range c.Args {
		args = append(args, rt(a.Type())+" "+x.val(a))
	}
	return "@" + d.name, strings.Join(args, ", ")
}

func (t *tr) emitDispatchers() bool {
	// methods of the types seen so far
	more := false
	for _, k := range t.disporder {
		d := t.disp[k]
		for _, ty := range t.tidlist[d.emitted:] {
			if types.Implements(ty, d.iface) {
				if m := t.method(ty, d.method); m != nil {
					t.want(t.override(m))
					more = true
				}
			}
		}
		d.emitted = len(t.tidlist)
	}
	return more
}

func (t *tr) method(ty types.Type, m *types.Func) *ssa.Function {
	sel := t.msets.MethodSet(ty).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return t.prog.MethodValue(sel)
}

func (t *tr) writeDispatchers() {
	for _, k := range t.disporder {
		d := t.disp[k]
		x := &fx{t: t, vals: map[ssa.Value]string{}}
		params := []string{ifaceT + " %p"}
		for i := 0; i < d.sig.Params().Len(); i++ {
			params = append(params, fmt.Sprintf("%s %%a%d", rt(d.sig.Params().At(i).Type()), i))
		}
		rty := resType(d.sig)
		x.emit("%%id = extractvalue %s %%p, 0", ifaceT)
		x.emit("%%data = extractvalue %s %%p, 1", ifaceT)
		var cases []string
		for _, ty := range t.tidlist {
			if types.Implements(ty, d.iface) && t.method(ty, d.method) != nil {
				cases = append(cases, fmt.Sprintf("i64 %d, label %%t%d", t.tid(ty), t.tid(ty)))
			}
		}
		x.emit("switch i64 %%id, label %%bad [ %s ]", strings.Join(cases, " "))
		for _, ty := range t.tidlist {
			if !types.Implements(ty, d.iface) {
				continue
			}
			m := t.method(ty, d.method)
			if m == nil {
				continue
			}
			m = t.override(m)
			x.label(fmt.Sprintf("t%d", t.tid(ty)))
			args := []string{"ptr null", rt(ty) + " " + x.unbox(ty, "%data")}
			for i := 0; i < d.sig.Params().Len(); i++ {
				args = append(args, fmt.Sprintf("%s %%a%d", rt(d.sig.Params().At(i).Type()), i))
			}
			if rty == "void" {
				x.emit("call void @%s(%s)", t.fname(m), strings.Join(args, ", "))
				x.emit("ret void")
			} else {
				x.emit("ret %s %s", rty, x.def("call %s @%s(%s)", rty, t.fname(m), strings.Join(args, ", ")))
			}
		}
		x.label("bad")
		x.check("false", "no panic: method call on nil or unknown interface value")
		x.emit("unreachable")
		fmt.Fprintf(&t.out, "define %s @%s(%s) #0 {\nentry:\n%s%s}\n\n", rty, d.name, strings.Join(params, ", "), x.entry.String(), x.b.String())
	}
	for _, im := range impls {
		var c []string
		for _, ty := range t.tidlist {
			if types.Implements(ty, im.iface) {
				c = append(c, fmt.Sprintf("i64 %d, label %%yes", t.tid(ty)))
			}
		}
		fmt.Fprintf(&t.out, "define i1 @%s(i64 %%id) #0 {\nentry:\n  switch i64 %%id, label %%no [ %s ]\nyes:\n  ret i1 true\nno:\n  ret i1 false\n}\n\n", im.name, strings.Join(c, " "))
	}
	// equality of interface values
	x := &fx{t: t, vals: map[ssa.Value]string{}}
	x.emit("%%ia = extractvalue %s %%a, 0", ifaceT)
	x.emit("%%ib = extractvalue %s %%b, 0", ifaceT)
	x.emit("%%da = extractvalue %s %%a, 1", ifaceT)
	x.emit("%%db = extractvalue %s %%b, 1", ifaceT)
	x.emit("%%same = icmp eq i64 %%ia, %%ib")
	x.emit("br i1 %%same, label %%go, label %%no")
	x.label("no")
	x.emit("ret i1 false")
	x.label("go")
	var cases []string
	var body []types.Type
	for _, ty := range t.tidlist {
		if types.Comparable(ty) {
			body = append(body, ty)
			cases = append(cases, fmt.Sprintf("i64 %d, label %%t%d", t.tid(ty), t.tid(ty)))
		}
	}
	cases = append(cases, "i64 0, label %yes")
	x.emit("switch i64 %%ia, label %%bad [ %s ]", strings.Join(cases, " "))
	for _, ty := range body {
		x.label(fmt.Sprintf("t%d", t.tid(ty)))
		if sizes.Sizeof(ty) == 0 {
			x.emit("ret i1 true")
			continue
		}
		if st, ok := ty.Underlying().(*types.Struct); ok && st.NumFields() > 8 {
			x.emit("call void %s(ptr %s)", t.decl("__vc_unsupported", "void (ptr)"), t.str("comparison of interface values"))
			x.emit("ret i1 false")
			continue
		}
		x.emit("ret i1 %s", x.eq(ty, x.unbox(ty, "%da"), x.unbox(ty, "%db")))
	}
	x.label("yes")
	x.emit("ret i1 true")
	x.label("bad")
	x.check("false", "no panic: comparing uncomparable type")
	x.emit("unreachable")
	fmt.Fprintf(&t.out, "define i1 @vcgo_ifaceeq(%s %%a, %s %%b) #0 {\nentry:\n%s%s}\n\n", ifaceT, ifaceT, x.entry.String(), x.b.String())
}

// ---------------------------------------------------------------- calls
func (x *fx) callArgs(c *ssa.CallCommon) []string {
	var a []string
	for _, v := range c.Args {
		a = append(a, rt(v.Type())+" "+x.val(v))
	}
	return a
}

func (x *fx) call(i *ssa.Call) {
	c := &i.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(i, b)
		return
	}
	rty := resType(c.Signature())
	var callee, args string
	if c.IsInvoke() {
		callee, args = x.invoke(c)
	} else if f := c.StaticCallee(); f != nil {
		if x.intrinsic(i, f) {
			return
		}
		f = x.t.override(f)
		env := "null"
		if _, isClosure := c.Value.(*ssa.MakeClosure); isClosure {
			env = x.val(c.Value)
		}
		callee = x.t.want(f)
		args = strings.Join(append([]string{"ptr " + env}, x.callArgs(c)...), ", ")
	} else {
		fv := x.val(c.Value)
		p := x.def("load ptr, ptr %s, align 8", fv)
		callee = p
		args = strings.Join(append([]string{"ptr " + fv}, x.callArgs(c)...), ", ")
	}
	if rty == "void" {
		x.emit("call void %s(%s)", callee, args)
		return
	}
	x.bind(i, x.def("call %s %s(%s)", rty, callee, args))
}

func (x *fx) runDefers() {
	for k := len(x.defers) - 1; k >= 0; k-- {
		d := x.defers[k]
		s := x.dslots[d]
		on := x.def("load i8, ptr %s, align 1", s[0])
		c := x.def("trunc i8 %s to i1", on)
		x.n++
		yes, no := fmt.Sprintf("dy%d", x.n), fmt.Sprintf("dn%d", x.n)
		x.emit("br i1 %s, label %%%s, label %%%s", c, yes, no)
		x.label(yes)
		var args []string
		for j, a := range d.Call.Args {
			args = append(args, rt(a.Type())+" "+x.load(s[j+1], a.Type()))
		}
		if b, ok := d.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "recover" {
				x.unsupported(d, "deferred builtin")
			}
		} else if d.Call.IsInvoke() {
			x.unsupported(d, "deferred interface call")
		} else if f := d.Call.StaticCallee(); f != nil && len(f.FreeVars) == 0 {
			f = x.t.override(f)
			r := resType(f.Signature)
			x.emit("call %s %s(%s)", r, x.t.want(f), strings.Join(append([]string{"ptr null"}, args...), ", "))
		} else {
			fv := x.load(s[len(s)-1], d.Call.Value.Type())
			p := x.def("load ptr, ptr %s, align 8", fv)
			x.emit("call %s %s(%s)", resType(d.Call.Signature()), p, strings.Join(append([]string{"ptr " + fv}, args...), ", "))
		}
		x.emit("br label %%%s", no)
		x.label(no)
	}
}

func (x *fx) builtin(i *ssa.Call, b *ssa.Builtin) {
	c := &i.Call
	arg := func(k int) string { return x.val(c.Args[k]) }
	switch b.Name() {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			k := 1
			if b.Name() == "cap" {
				k = 2
			}
			x.bind(i, x.ev(arg(0), sliceT, k))
		case *types.Array:
			x.bind(i, fmt.Sprint(u.Len()))
		case *types.Pointer:
			x.bind(i, fmt.Sprint(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			x.bind(i, x.def("call i64 %s(ptr %s)", x.t.decl("vcgo_map_len", "i64 (ptr)"), arg(0)))
		default:
			x.bind(i, x.ev(arg(0), strT, 1))
		}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		es := sizes.Sizeof(st.Elem())
		s := arg(0)
		var q, n string
		if isString(c.Args[1].Type()) {
			q, n = x.ev(arg(1), strT, 0), x.ev(arg(1), strT, 1)
		} else {
			q, n = x.ev(arg(1), sliceT, 0), x.ev(arg(1), sliceT, 1)
		}
		r := x.alloca("[24 x i8]")
		x.emit("call void %s(ptr %s, ptr %s, i64 %s, i64 %s, ptr %s, i64 %s, i64 %d)", x.t.decl("vcgo_append", "void (ptr, ptr, i64, i64, ptr, i64, i64)"), r, x.ev(s, sliceT, 0), x.ev(s, sliceT, 1), x.ev(s, sliceT, 2), q, n, es)
		x.bind(i, x.loadparts(r, []string{"ptr", "i64", "i64"}))
	case "copy":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		es := sizes.Sizeof(st.Elem())
		s := arg(0)
		var q, n string
		if isString(c.Args[1].Type()) {
			q, n = x.ev(arg(1), strT, 0), x.ev(arg(1), strT, 1)
		} else {
			q, n = x.ev(arg(1), sliceT, 0), x.ev(arg(1), sliceT, 1)
		}
		l := x.ev(s, sliceT, 1)
		m := x.def("select i1 %s, i64 %s, i64 %s", x.def("icmp ult i64 %s, %s", l, n), l, n)
		by := m
		if es != 1 {
			by = x.def("mul i64 %s, %d", m, es)
		}
		x.emit("call void @llvm.memmove.p0.p0.i64(ptr %s, ptr %s, i64 %s, i1 false)", x.ev(s, sliceT, 0), q, by)
		x.bind(i, m)
	case "min", "max":
		r := arg(0)
		ty := i.Type()
		p := "u"
		if signed(ty) {
			p = "s"
		}
		op := "lt"
		if b.Name() == "max" {
			op = "gt"
		}
		for k := 1; k < len(c.Args); k++ {
			r = x.def("select i1 %s, %s %s, %s %s", x.def("icmp %s%s %s %s, %s", p, op, rt(ty), r, arg(k)), rt(ty), r, rt(ty), arg(k))
		}
		x.bind(i, r)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		k, ok := x.mapKey(m, arg(1))
		if !ok {
			x.unsupported(i, "map key")
			return
		}
		x.emit("call void %s(ptr %s, ptr %s, i64 %d, i64 %d)", x.t.decl("vcgo_map_del", "void (ptr, ptr, i64, i64)"), arg(0), k, sizes.Sizeof(m.Key()), b2i(isString(m.Key())))
	case "clear":
		st, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			x.unsupported(i, "clear")
			return
		}
		by := x.def("mul i64 %s, %d", x.ev(arg(0), sliceT, 1), sizes.Sizeof(st.Elem()))
		x.emit("call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %s, i1 false)", x.ev(arg(0), sliceT, 0), by)
	case "Slice": // unsafe.Slice
		n := x.toI64(c.Args[1])
		x.bind(i, x.agg(sliceT, "ptr "+arg(0), "i64 "+n, "i64 "+n))
	case "recover":
		x.bind(i, zeroOf(i.Type()))
	case "print", "println":
	case "ssa:wrapnilchk":
		p := arg(0)
		x.check(x.def("icmp ne ptr %s, null", p), "no panic: nil receiver")
		x.bind(i, p)
	default:
		x.unsupported(i, "builtin "+b.Name())
	}
}

// functions with a meaning of their own
func (x *fx) intrinsic(i *ssa.Call, f *ssa.Function) bool {
	t := x.t
	name := f.String()
	c := &i.Call
	arg := func(k int) string { return x.val(c.Args[k]) }
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "vc" {
		cs := func(k int) string { return x.ev(arg(k), strT, 0) }
		any := func(n int) {
			p := x.alloca(fmt.Sprintf("i%d", 8*n))
			x.emit("call void %s(ptr %s, i64 %d, ptr %s)", t.decl("__vc_any", "void (ptr, i64, ptr)"), p, n, cs(0))
			x.bind(i, x.def("load i%d, ptr %s, align 1", 8*n, p))
		}
		switch f.Name() {
		case "U64", "I64", "Int":
			any(8)
		case "U32", "I32":
			any(4)
		case "U16":
			any(2)
		case "U8":
			any(1)
		case "Word":
			any(32)
		case "Addr":
			any(20)
		case "Bool":
			p := x.alloca("i8")
			x.emit("call void %s(ptr %s, i64 1, ptr %s)", t.decl("__vc_any", "void (ptr, i64, ptr)"), p, cs(0))
			v := x.def("load i8, ptr %s, align 1", p)
			x.bind(i, x.def("trunc i8 %s to i1", v))
		case "Bytes":
			p := x.def("call ptr %s(i64 %s, i64 16, ptr %s)", t.decl("__vc_buffer", "ptr (i64, i64, ptr)"), arg(0), cs(1))
			x.bind(i, x.agg(sliceT, "ptr "+p, "i64 "+arg(0), "i64 "+arg(0)))
		case "Fill": // names the arbitrary contents of storage: Fill(ptr unsafe.Pointer, n, name)
			x.emit("call void %s(ptr %s, i64 %s, ptr %s)", t.decl("__vc_any", "void (ptr, i64, ptr)"), arg(0), arg(1), cs(2))
		case "Buffer": // Buffer(n, name) unsafe.Pointer
			x.bind(i, x.def("call ptr %s(i64 %s, i64 16, ptr %s)", t.decl("__vc_buffer", "ptr (i64, i64, ptr)"), arg(0), cs(1)))
		case "Requires":
			x.emit("call void %s(i1 zeroext %s)", t.decl("__vc_assume", "void (i1 zeroext)"), arg(0))
		case "Fact":
			x.emit("call void %s(i1 zeroext %s)", t.decl("__vc_fact", "void (i1 zeroext)"), arg(0))
		case "Inv":
			x.emit("call void %s(i1 zeroext %s)", t.decl("__vc_inv", "void (i1 zeroext)"), arg(0))
		case "Ensures":
			x.emit("call void %s(i1 zeroext %s, ptr %s)", t.decl("__vc_assert", "void (i1 zeroext, ptr)"), arg(1), x.ensures(c.Args[0]))
		case "Lemma":
			x.emit("call void %s(i1 zeroext %s, ptr %s)", t.decl("__vc_lemma", "void (i1 zeroext, ptr)"), arg(1), cs(0))
		case "Cover":
			x.emit("call void %s(ptr %s)", t.decl("__vc_cover", "void (ptr)"), cs(0))
		case "Symbolic":
			x.bind(i, "true")
		case "Split":
			x.bind(i, x.def("call zeroext i1 %s(i1 zeroext %s)", t.decl("__vc_split", "i1 (i1 zeroext)"), arg(0)))
		case "Concretize":
			x.bind(i, x.def("call i64 %s(i64 %s, i64 %s)", t.decl("__vc_concretize", "i64 (i64, i64)"), arg(0), arg(1)))
		case "Forget":
			x.emit("call void %s(ptr %s)", t.decl("__vc_forget", "void (ptr)"), arg(0))
		case "Peek": // Peek(c bool, b []byte, i uint64) byte
			x.bind(i, x.def("call i8 %s(i1 zeroext %s, ptr %s, i64 %s)", t.decl("__vc_peek", "i8 (i1 zeroext, ptr, i64)"), arg(0), x.ev(arg(1), sliceT, 0), arg(2)))
		case "MemoryFee":
			x.bind(i, x.def("call i64 %s(i64 %s, i64 %s)", t.decl("__vc_memory_fee56", "i64 (i64, i64)"), arg(0), arg(1)))
		case "HashOf": // HashOf(name, data []byte) [32]byte: uninterpreted function
			p := x.alloca("[32 x i8]")
			x.emit("call void %s(ptr %s, ptr %s, i64 32, ptr %s, i64 %s)", t.decl("__vc_ufseq", "void (ptr, ptr, i64, ptr, i64)"), cs(0), p, x.ev(arg(1), sliceT, 0), x.ev(arg(1), sliceT, 1))
			x.bind(i, x.def("load i256, ptr %s, align 1", p))
		case "UF32": // UF32(name, in *[N]byte as unsafe.Pointer, n) [32]byte
			p := x.alloca("[32 x i8]")
			x.emit("call void %s(ptr %s, ptr %s, i64 32, ptr %s, i64 %s)", t.decl("__vc_uf", "void (ptr, ptr, i64, ptr, i64)"), cs(0), p, arg(1), arg(2))
			x.bind(i, x.def("load i256, ptr %s, align 1", p))
		default:
			return false
		}
		return true
	}
	un := func(op string, w int) {
		r := x.def("call i%d @llvm.%s.i%d(i%d %s%s)", w, op, w, w, arg(0), map[bool]string{true: ", i1 false"}[op == "ctlz" || op == "cttz"])
		if op == "bswap" {
			x.bind(i, r)
			return
		}
		if w < 64 {
			r = x.def("zext i%d %s to i64", w, r)
		}
		x.bind(i, r)
	}
	switch name {
	case "math/bits.LeadingZeros64":
		un("ctlz", 64)
	case "math/bits.LeadingZeros32":
		un("ctlz", 32)
	case "math/bits.TrailingZeros64":
		un("cttz", 64)
	case "math/bits.OnesCount64":
		un("ctpop", 64)
	case "math/bits.ReverseBytes64":
		un("bswap", 64)
	case "math/bits.Len64":
		r := x.def("call i64 @llvm.ctlz.i64(i64 %s, i1 false)", arg(0))
		x.bind(i, x.def("sub i64 64, %s", r))
	case "math/bits.Add64", "math/bits.Sub64":
		op := "add"
		if strings.HasSuffix(name, "Sub64") {
			op = "sub"
		}
		a, b := x.def("zext i64 %s to i65", arg(0)), x.def("zext i64 %s to i65", arg(1))
		k := x.def("zext i64 %s to i65", arg(2))
		s := x.def("%s i65 %s, %s", op, x.def("%s i65 %s, %s", op, a, b), k)
		v := x.def("trunc i65 %s to i64", s)
		cy := x.def("zext i1 %s to i64", x.def("trunc i65 %s to i1", x.def("lshr i65 %s, 64", s)))
		x.bind(i, x.agg("{ i64, i64 }", "i64 "+v, "i64 "+cy))
	case "math/bits.Mul64":
		a, b := x.def("zext i64 %s to i128", arg(0)), x.def("zext i64 %s to i128", arg(1))
		s := x.def("mul i128 %s, %s", a, b)
		hi := x.def("trunc i128 %s to i64", x.def("lshr i128 %s, 64", s))
		x.bind(i, x.agg("{ i64, i64 }", "i64 "+hi, "i64 "+x.def("trunc i128 %s to i64", s)))
	default:
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "github.com/holiman/uint256" && strings.HasPrefix(f.Name(), "u_") {
			x.callC(i, "vcgo_"+f.Name())
			return true
		}
		if sym, ok := externs[name]; ok {
			x.callC(i, sym)
			return true
		}
		return false
	}
	return true
}

func (x *fx) ensures(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return x.t.str(constant.StringVal(c.Value))
	}
	return x.ev(x.val(v), strT, 0)
}

// Go functions replaced by C functions of the runtime (scalars and pointers only; slices as pointer and length)
var externs = map[string]string{
	"bytes.Compare": "vcgo_bytes_compare",
	"bytes.Equal":   "vcgo_bytes_equal",
}

func (x *fx) callC(i *ssa.Call, sym string) {
	var args, tys []string
	for _, a := range i.Call.Args {
		v := x.val(a)
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			args = append(args, "ptr "+x.ev(v, sliceT, 0), "i64 "+x.ev(v, sliceT, 1))
			tys = append(tys, "ptr", "i64")
			continue
		}
		r := rt(a.Type())
		if r == "i1" {
			v = x.def("zext i1 %s to i8", v)
			r = "i8"
		}
		args = append(args, r+" "+v)
		tys = append(tys, r)
	}
	rty := resType(i.Call.Signature())
	c := rty
	if rty == "i1" {
		c = "i8"
	}
	f := x.t.decl(sym, c+" ("+strings.Join(tys, ", ")+")")
	if c == "void" {
		x.emit("call void %s(%s)", f, strings.Join(args, ", "))
		return
	}
	r := x.def("call %s %s(%s)", c, f, strings.Join(args, ", "))
	if rty == "i1" {
		r = x.def("trunc i8 %s to i1", r)
	}
	x.bind(i, r)
}

func (t *tr) external(f *ssa.Function) {
	// no body: a call is reported when reached
	var params []string
	params = append(params, "ptr %env")
	for i, p := range f.Params {
		params = append(params, fmt.Sprintf("%s %%p%d", rt(p.Type()), i))
	}
	x := &fx{t: t}
	x.emit("call void %s(ptr %s)", t.decl("__vc_unsupported", "void (ptr)"), t.str("unsupported: function without body "+f.String()))
	x.emit("unreachable")
	fmt.Fprintf(&t.out, "define %s @%s(%s) #0 {\nentry:\n%s}\n\n", resType(f.Signature), t.fname(f), strings.Join(params, ", "), x.b.String())
}

// ---------------------------------------------------------------- package initialisation
// Keeps the initialisers of the globals in use (and of what they refer to).
func (t *tr) initSlice(f *ssa.Function) map[ssa.Instruction]bool {
	keep := map[ssa.Instruction]bool{}
	var root func(v ssa.Value) ssa.Value
	root = func(v ssa.Value) ssa.Value {
		switch u := v.(type) {
		case *ssa.FieldAddr:
			return root(u.X)
		case *ssa.IndexAddr:
			return root(u.X)
		case *ssa.Slice:
			return root(u.X)
		case *ssa.ChangeType:
			return root(u.X)
		case *ssa.Convert:
			return root(u.X)
		case *ssa.UnOp:
			if u.Op == token.MUL {
				return root(u.X)
			}
		}
		return v
	}
	roots := map[ssa.Value]bool{}
	for g := range t.neededG {
		if g.Pkg == f.Pkg && !strings.HasPrefix(g.Name(), "init$") {
			roots[g] = true
		}
	}
	var mark func(i ssa.Instruction)
	mark = func(i ssa.Instruction) {
		if keep[i] {
			return
		}
		keep[i] = true
		for _, o := range i.Operands(nil) {
			if *o == nil {
				continue
			}
			if j, ok := (*o).(ssa.Instruction); ok {
				mark(j)
			}
			switch r := root(*o).(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Global:
				if g, ok := r.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$") {
					continue
				}
				roots[r] = true
			}
		}
	}
	for changed := true; changed; {
		n := len(keep)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch u := i.(type) {
				case *ssa.Store:
					if roots[root(u.Addr)] {
						mark(i)
					}
				case *ssa.MapUpdate:
					if roots[root(u.Map)] {
						mark(i)
					}
				}
			}
		}
		changed = len(keep) != n
	}
	// loops and branches of an initialiser are rare: keep their conditions when anything is kept inside
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.If:
				if j, ok := u.Cond.(ssa.Instruction); ok && len(f.Blocks) > 3 {
					mark(j)
				} else if ok {
					mark(j)
				}
			}
		}
	}
	return keep
}

// the globals a function (transitively) refers to
func (t *tr) needs() {
	for f := range t.seen {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok {
						t.neededG[g] = true
					}
				}
			}
		}
	}
}

func main() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	ov := map[string][]byte{}
	for k, v := range j.Overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			panic(err)
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: j.Dir, Overlay: ov, Env: append(os.Environ(), j.Env...), BuildFlags: []string{"-modfile=" + j.Modfile, "-mod=mod"}}
	pk, err := packages.Load(cfg, j.Harness)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	bad := false
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Println(e)
			bad = true
		}
	})
	if bad {
		os.Exit(1)
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	h := prog.ImportedPackage(j.Harness)
	prog.Build()
	t := &tr{prog: prog, names: map[*ssa.Function]string{}, used: map[string]bool{}, seen: map[*ssa.Function]bool{}, globals: map[*ssa.Global]string{}, strs: map[string]string{}, decls: map[string]string{}, disp: map[string]*dispatcher{}, fvals: map[*ssa.Function]bool{}, harness: h, inits: map[*ssa.Package]bool{}, neededG: map[*ssa.Global]bool{}, noinit: map[string]bool{}, overrides: map[string]*ssa.Function{}}
	for _, n := range j.NoInit {
		t.noinit[n] = true
	}
	// functions of the runtime package stand in for library functions: func name in vcrt <- comment directive table
	if rtp := prog.ImportedPackage("vc/rt"); rtp != nil {
		if v, ok := rtp.Members["Overrides"]; ok {
			_ = v
		}
		for n, m := range rtp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			if q, ok := overrideNames[n]; ok {
				t.overrides[q] = f
			}
		}
	}
	var hs []*ssa.Function
	for n, m := range h.Members {
		if f, ok := m.(*ssa.Function); ok && (strings.HasPrefix(n, "vch_") || strings.HasPrefix(n, "vinv_") || strings.HasPrefix(n, "vinv2_") || strings.HasPrefix(n, "vcontract_")) {
			hs = append(hs, f)
		}
	}
	sort.Slice(hs, func(a, b int) bool { return hs[a].Name() < hs[b].Name() })
	for _, f := range hs {
		t.want(f)
	}
	// packages whose globals are in use are initialised, in dependency order
	order := []*ssa.Package{}
	visited := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if visited[p] {
			return
		}
		visited[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(h.Pkg)
	done := map[*ssa.Function]bool{}
	run := func() {
		for {
			for len(t.queue) > 0 {
				f := t.queue[0]
				t.queue = t.queue[1:]
				if done[f] {
					continue
				}
				done[f] = true
				t.translate(f)
			}
			if !t.emitDispatchers() && len(t.queue) == 0 {
				return
			}
			if len(t.queue) == 0 {
				return
			}
		}
	}
	run()
	saved := t.out.String()
	// initialisers: iterate until the set of globals in use is stable
	var initOut string
	for n := -1; n != len(t.neededG); {
		n = len(t.neededG)
		t.needs()
		for _, p := range order {
			f := p.Func("init")
			if f == nil || t.noinit[p.Pkg.Path()] {
				continue
			}
			for i := range t.initSlice(f) {
				for _, o := range i.Operands(nil) {
					switch u := (*o).(type) {
					case *ssa.Global:
						t.neededG[u] = true
					}
				}
			}
		}
		t.out.Reset()
		var calls []string
		t.fixNames(order)
		for _, p := range order {
			f := p.Func("init")
			if f == nil || t.noinit[p.Pkg.Path()] || len(t.initSlice(f)) <= 1 {
				continue
			}
			delete(t.seen, f)
			t.seen[f] = true
			t.translateInit(f)
			calls = append(calls, fmt.Sprintf("  call void @%s(ptr null)\n", t.fname(f)))
		}
		initOut = t.out.String() + "define void @vcgo_init() #0 {\nentry:\n" + strings.Join(calls, "") + "  ret void\n}\n\n"
		t.out.Reset()
		t.out.WriteString(saved)
		run()
		saved = t.out.String()
		t.needs()
	}
	t.out.Reset()
	t.out.WriteString(saved)
	t.out.WriteString(initOut)
	t.writeDispatchers()
	for _, f := range hs {
		if strings.HasPrefix(f.Name(), "vch_") {
			fmt.Fprintf(&t.out, "define void @%s() #0 {\nentry:\n  call void @vcgo_init()\n  call void @%s(ptr null)\n  ret void\n}\n\n", f.Name(), t.fname(f))
		} else if strings.HasPrefix(f.Name(), "vinv_") {
			fmt.Fprintf(&t.out, "define void @%s(i64 %%i) #0 {\nentry:\n  call void @%s(ptr null, i64 %%i)\n  ret void\n}\n\n", f.Name(), t.fname(f))
		} else if strings.HasPrefix(f.Name(), "vinv2_") {
			fmt.Fprintf(&t.out, "define void @%s(i64 %%i, i64 %%x) #0 {\nentry:\n  call void @%s(ptr null, i64 %%i, i64 %%x)\n  ret void\n}\n\n", f.Name(), t.fname(f))
		}
	}
	var o strings.Builder
	o.WriteString("target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128\"\ntarget triple = \"x86_64-pc-linux-gnu\"\n\n")
	o.WriteString(t.strdefs.String())
	o.WriteString("@vcgo_zerobase = global [8 x i8] zeroinitializer, align 8\n")
	for _, g := range t.gorder {
		ty := g.Type().(*types.Pointer).Elem()
		n := sizes.Sizeof(ty)
		if n == 0 {
			n = 1
		}
		fmt.Fprintf(&o, "%s = global [%d x i8] zeroinitializer, align 16\n", t.globals[g], n)
	}
	var fv []string
	for f := range t.fvals {
		fv = append(fv, fmt.Sprintf("@fv.%s = constant { ptr } { ptr @%s }\n", t.fname(f), t.fname(f)))
	}
	sort.Strings(fv)
	o.WriteString(strings.Join(fv, ""))
	o.WriteString(t.out.String())
	var ds []string
	for n, s := range t.decls {
		k := strings.Index(s, "(")
		ds = append(ds, fmt.Sprintf("declare %s@%s%s\n", s[:k], n, s[k:]))
	}
	sort.Strings(ds)
	o.WriteString(strings.Join(ds, ""))
	for _, d := range []string{"void @llvm.memset.p0.i64(ptr, i8, i64, i1)", "void @llvm.memmove.p0.p0.i64(ptr, ptr, i64, i1)", "i64 @llvm.ctlz.i64(i64, i1)", "i32 @llvm.ctlz.i32(i32, i1)", "i64 @llvm.cttz.i64(i64, i1)", "i64 @llvm.ctpop.i64(i64)", "i64 @llvm.bswap.i64(i64)"} {
		fmt.Fprintf(&o, "declare %s\n", d)
	}
	o.WriteString("attributes #0 = { nounwind null_pointer_is_valid }\n")
	if err := os.WriteFile(j.Out, []byte(o.String()), 0o644); err != nil {
		panic(err)
	}
}

func (t *tr) fixNames(order []*ssa.Package) {
	for _, p := range order {
		if f := p.Func("init"); f != nil {
			t.fname(f)
		}
	}
}

// an initialiser: straight-line, without the calls of other packages' initialisers and the guard
func (t *tr) translateInit(f *ssa.Function) {
	t.translate(f)
}
