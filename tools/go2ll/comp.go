package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type comp struct {
	prog     *ssa.Program
	names    map[*ssa.Function]string
	used     map[string]bool
	work     []*ssa.Function
	done     map[*ssa.Function]bool
	bodies   []string
	defs     []string
	globals  map[*ssa.Global]string
	gdefs    []string
	strs     map[string]string
	zeros    map[string]string
	fvs      map[string]string
	tds      typeutil.Map
	tdList   []*tdesc
	eqs      typeutil.Map
	cols     map[string]*column
	impls    typeutil.Map
	implList []types.Type
	externs  map[string]string // C functions: name -> declaration
	nthunk   int
	entries  []string
}

func newComp(p *ssa.Program) *comp {
	c := &comp{prog: p, names: map[*ssa.Function]string{}, used: map[string]bool{}, done: map[*ssa.Function]bool{}, globals: map[*ssa.Global]string{}, strs: map[string]string{},
		zeros: map[string]string{}, fvs: map[string]string{}, cols: map[string]*column{}, externs: map[string]string{}}
	h := typeutil.MakeHasher()
	c.tds.SetHasher(h)
	c.eqs.SetHasher(h)
	c.impls.SetHasher(h)
	return c
}

func sanitize(s string) string {
	s = strings.ReplaceAll(s, "github.com/Fantom-foundation/Tosca/go/", "")
	var b strings.Builder
	for _, r := range s {
		if r < 128 && (r == '.' || r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	r := b.String()
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}

func (c *comp) unique(s string) string {
	n := s
	for i := 1; c.used[n]; i++ {
		n = fmt.Sprintf("%s.%d", s, i)
	}
	c.used[n] = true
	return n
}

// fn returns the LLVM name of f, scheduling it for lowering
func (c *comp) fn(f *ssa.Function) string {
	if r := c.replacement(f); r != nil {
		f = r
	}
	n, ok := c.names[f]
	if !ok {
		n = "@" + c.unique("go."+sanitize(f.String()))
		c.names[f] = n
		c.work = append(c.work, f)
	}
	return n
}

// fval: static closure object of a plain function
func (c *comp) fval(f *ssa.Function) string {
	n := c.fn(f)
	v, ok := c.fvs[n]
	if !ok {
		v = "@fv." + n[1:]
		c.fvs[n] = v
		c.gdefs = append(c.gdefs, fmt.Sprintf("%s = internal constant {ptr} {ptr %s}\n", v, n))
	}
	return v
}

func (c *comp) entry(name string, f *ssa.Function) {
	n := c.fn(f)
	c.entries = append(c.entries, fmt.Sprintf("define void @%s() #0 {\n  call void %s(ptr null)\n  ret void\n}\n", name, n))
	in := c.fn(f.Pkg.Func("init"))
	c.entries = append(c.entries, fmt.Sprintf("define void @init_%s() #0 {\n  call void %s(ptr null)\n  ret void\n}\n", name, in))
}

func (c *comp) run() {
	for len(c.work) > 0 {
		f := c.work[len(c.work)-1]
		c.work = c.work[:len(c.work)-1]
		if c.done[f] {
			continue
		}
		c.done[f] = true
		c.bodies = append(c.bodies, c.lower(f))
	}
}

func (c *comp) global(g *ssa.Global) string {
	n, ok := c.globals[g]
	if !ok {
		n = "@" + c.unique("g."+sanitize(g.String()))
		c.globals[g] = n
		t := under(g.Type()).(*types.Pointer).Elem()
		c.gdefs = append(c.gdefs, fmt.Sprintf("%s = internal global %s zeroinitializer, align 8\n", n, c.mem(t)))
	}
	return n
}

func (c *comp) strGlobal(s string) string {
	n, ok := c.strs[s]
	if !ok {
		n = fmt.Sprintf("@str.%d", len(c.strs))
		c.strs[s] = n
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] < 32 || s[i] > 126 || s[i] == '"' || s[i] == '\\' {
				fmt.Fprintf(&b, "\\%02X", s[i])
			} else {
				b.WriteByte(s[i])
			}
		}
		c.gdefs = append(c.gdefs, fmt.Sprintf("%s = private constant [%d x i8] c\"%s\\00\"\n", n, len(s)+1, b.String()))
	}
	return n
}

func (c *comp) zero(t types.Type) string {
	m := c.mem(t)
	n, ok := c.zeros[m]
	if !ok {
		n = fmt.Sprintf("@zero.%d", len(c.zeros))
		c.zeros[m] = n
		c.gdefs = append(c.gdefs, fmt.Sprintf("%s = private constant %s zeroinitializer, align 8\n", n, m))
	}
	return n
}

func (c *comp) extern(name, decl string) string {
	if _, ok := c.externs[name]; !ok {
		c.externs[name] = decl
	}
	return "@" + name
}

func (c *comp) write(w io.Writer) {
	var tds []string
	for i := 0; i < len(c.tdList); i++ {
		tds = append(tds, c.tdDef(c.tdList[i]))
	}
	if len(c.work) > 0 {
		panic("work left")
	}
	var impls []string
	for _, t := range c.implList {
		impls = append(impls, c.implBody(t))
	}
	fmt.Fprintf(w, "target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128\"\ntarget triple = \"x86_64-pc-linux-gnu\"\n\n")
	for _, l := range [][]string{c.gdefs, tds, c.defs, impls, c.bodies, c.entries} {
		for _, s := range l {
			io.WriteString(w, s)
		}
		fmt.Fprintln(w)
	}
	var ex []string
	for _, d := range c.externs {
		ex = append(ex, d)
	}
	sort.Strings(ex)
	for _, s := range ex {
		fmt.Fprintln(w, s)
	}
	fmt.Fprint(w, prelude)
}

const prelude = `
declare i32 @memcmp(ptr, ptr, i64)
declare i1 @go_streq_mem(ptr, ptr)
declare i1 @go_ifaceeq_mem(ptr, ptr)
declare i1 @go_eq_uncomparable(ptr, ptr)
declare void @go_panic_msg(ptr) noreturn cold
declare void @go_panic(ptr, ptr) noreturn cold
declare void @go_extern(ptr)
declare noalias ptr @go_new(i64)
declare void @llvm.memmove.p0.p0.i64(ptr, ptr, i64, i1)
declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)
declare void @go_append(ptr, ptr, i64, i64, ptr, i64, i64)
declare i1 @go_streq(ptr, i64, ptr, i64)
declare i32 @go_strcmp(ptr, i64, ptr, i64)
declare {ptr, i64} @go_strcat(ptr, i64, ptr, i64)
declare i1 @go_ifaceeq(ptr, ptr, ptr, ptr)
declare ptr @go_makemap(i64, i64, ptr)
declare ptr @go_mapaccess(ptr, ptr)
declare ptr @go_mapassign(ptr, ptr)
declare void @go_mapdelete(ptr, ptr)
declare void @go_mapclear(ptr)
declare i64 @go_maplen(ptr)
declare ptr @go_mapiter(ptr)
declare ptr @go_mapnext(ptr)
declare ptr @go_makeslice(i64, i64, i64)
declare {ptr, i64} @go_bytes2str(ptr, i64)
declare ptr @go_str2bytes(ptr, i64)
declare void @go_str2runes(ptr, ptr, i64)
declare {ptr, i64} @go_runes2str(ptr, i64)
declare {ptr, i64} @go_rune2str(i32)
declare i64 @go_decoderune(ptr, i64, i64)
attributes #0 = { nounwind null_pointer_is_valid "no-builtins"="x" }
`

// ---- function lowering -----------------------------------------------------------
type fc struct {
	*comp
	f       *ssa.Function
	b       *strings.Builder
	vals    map[ssa.Value]string
	n       int
	lbl     string
	entry   strings.Builder
	endLbl  map[*ssa.BasicBlock]string
	blkBuf  map[*ssa.BasicBlock]*strings.Builder
	inSlot  map[*ssa.Phi]string
	sret    bool
	ret     string
	defers  bool
	panics  map[string]string
	tail    strings.Builder
	deferHd string
}

func (x *fc) tmp() string { x.n++; return fmt.Sprintf("%%t%d", x.n) }
func (x *fc) label() string {
	x.n++
	return fmt.Sprintf("l%d", x.n)
}
func (x *fc) o(f string, a ...any) { fmt.Fprintf(x.b, "  "+f+"\n", a...) }
func (x *fc) def(f string, a ...any) string {
	t := x.tmp()
	fmt.Fprintf(x.b, "  %s = ", t)
	fmt.Fprintf(x.b, f+"\n", a...)
	return t
}
func (x *fc) start(l string) {
	fmt.Fprintf(x.b, "%s:\n", l)
	x.lbl = l
}
func (x *fc) slot(t types.Type) string {
	x.n++
	s := fmt.Sprintf("%%s%d", x.n)
	fmt.Fprintf(&x.entry, "  %s = alloca %s, align 8\n", s, x.mem(t))
	return s
}
func (x *fc) slotT(m string) string {
	x.n++
	s := fmt.Sprintf("%%s%d", x.n)
	fmt.Fprintf(&x.entry, "  %s = alloca %s, align 8\n", s, m)
	return s
}
func (x *fc) copy(dst, src string, t types.Type) {
	if n := sizeof(t); n > 0 && dst != src {
		x.o("call void @llvm.memmove.p0.p0.i64(ptr %s, ptr %s, i64 %d, i1 false)", dst, src, n)
	}
}

// load reads a value of type t from memory; memory-class values are copied into a fresh slot
func (x *fc) load(p string, t types.Type) string {
	if isMem(t) {
		s := x.slot(t)
		x.copy(s, p, t)
		return s
	}
	if isBool(t) {
		v := x.def("load i8, ptr %s", p)
		return x.def("trunc i8 %s to i1", v)
	}
	return x.def("load %s, ptr %s", x.mem(t), p)
}
func (x *fc) store(p, v string, t types.Type) {
	switch {
	case isMem(t):
		x.copy(p, v, t)
	case isBool(t):
		z := x.def("zext i1 %s to i8", v)
		x.o("store i8 %s, ptr %s", z, p)
	default:
		x.o("store %s %s, ptr %s", x.mem(t), v, p)
	}
}

// spill returns the address of memory holding v
func (x *fc) spill(v string, t types.Type) string {
	if isMem(t) {
		return v
	}
	s := x.slot(t)
	x.store(s, v, t)
	return s
}
func (x *fc) gep(t types.Type, p string, idx int) string {
	return x.def("getelementptr %s, ptr %s, i32 0, i32 %d", x.mem(t), p, idx)
}
func (x *fc) panicIf(cond, msg string) {
	ok := x.label()
	pl, exists := x.panics[msg]
	if !exists {
		pl = x.label()
		x.panics[msg] = pl
		fmt.Fprintf(&x.tail, "%s:\n  call void @go_panic_msg(ptr %s)\n  unreachable\n", pl, x.strGlobal(msg))
	}
	x.o("br i1 %s, label %%%s, label %%%s", cond, pl, ok)
	x.start(ok)
}

func bname(b *ssa.BasicBlock) string { return fmt.Sprintf("b%d", b.Index) }

func (c *comp) constVal(k *ssa.Const) string {
	t := k.Type()
	if isMem(t) {
		return c.zero(t)
	}
	if k.Value == nil {
		switch under(t).(type) {
		case *types.Basic:
			if isUnsafePtr(t) {
				return "null"
			}
			if isFloat(t) {
				return "0.0"
			}
			if isStr(t) || isBool(t) {
				return "zeroinitializer"
			}
			return "0"
		case *types.Slice, *types.Interface, *types.Tuple:
			return "zeroinitializer"
		}
		return "null"
	}
	switch {
	case isStr(t):
		s := constant.StringVal(constant.ToInt(k.Value))
		if k.Value.Kind() == constant.String {
			s = constant.StringVal(k.Value)
		}
		if s == "" {
			return "zeroinitializer"
		}
		return fmt.Sprintf("{ptr %s, i64 %d}", c.strGlobal(s), len(s))
	case isBool(t):
		if constant.BoolVal(k.Value) {
			return "1"
		}
		return "0"
	case isFloat(t):
		f, _ := constant.Float64Val(k.Value)
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return fmt.Sprintf("0x%016X", math.Float64bits(f))
	}
	if n, signed, ok := basicInt(t); ok {
		if signed {
			return fmt.Sprint(k.Int64())
		}
		u := k.Uint64()
		if n < 64 {
			u &= 1<<n - 1
		}
		return fmt.Sprint(u)
	}
	if isUnsafePtr(t) {
		return fmt.Sprintf("inttoptr (i64 %d to ptr)", k.Uint64())
	}
	panic(fmt.Sprintf("const %v of %v", k, t))
}

func (x *fc) val(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.global(v)
	case *ssa.Function:
		return x.fval(v)
	}
	s, ok := x.vals[v]
	if !ok {
		panic(fmt.Sprintf("%v: no value for %v = %v", x.f, v.Name(), v))
	}
	return s
}

func (c *comp) lower(f *ssa.Function) string {
	name := c.names[f]
	ret, sret := c.retType(f.Signature.Results())
	if s, ok := c.cshim(f, name); ok {
		return s
	}
	x := &fc{comp: c, f: f, vals: map[ssa.Value]string{}, endLbl: map[*ssa.BasicBlock]string{}, blkBuf: map[*ssa.BasicBlock]*strings.Builder{}, inSlot: map[*ssa.Phi]string{}, sret: sret, ret: ret, panics: map[string]string{}}
	var ps []string
	if sret {
		ps = append(ps, "ptr %ret")
	}
	for i, p := range f.Params {
		n := fmt.Sprintf("%%p%d", i)
		x.vals[p] = n
		ps = append(ps, c.reg(p.Type())+" "+n)
	}
	ps = append(ps, "ptr %ctx")
	head := fmt.Sprintf("define internal %s %s(%s) #0 {\n", ret, name, strings.Join(ps, ", "))
	if f.Blocks == nil || !allowed(f) || f.Name() == "init" && f.Synthetic == "package initializer" && skipInit(f.Pkg.Pkg.Path()) {
		if f.Name() == "init" && f.Synthetic == "package initializer" {
			return head + "  ret void\n}\n"
		}
		x.b = &strings.Builder{}
		x.o("call void @go_extern(ptr %s)", c.strGlobal(f.String()))
		if sret && f.Signature.Results().Len() > 0 {
			var t types.Type = f.Signature.Results()
			if f.Signature.Results().Len() == 1 {
				t = f.Signature.Results().At(0).Type()
			}
			x.o("call void @llvm.memset.p0.i64(ptr %%ret, i8 0, i64 %d, i1 false)", x.tupSize(t))
		}
		if ret == "void" {
			x.o("ret void")
		} else {
			x.o("ret %s %s", ret, zeroOf(ret))
		}
		return head + x.b.String() + "}\n"
	}
	var fvT []string
	fvT = append(fvT, "ptr")
	for _, v := range f.FreeVars {
		fvT = append(fvT, c.mem(v.Type()))
	}
	x.b = &x.entry
	if len(f.FreeVars) > 0 {
		ct := "{" + strings.Join(fvT, ", ") + "}"
		for i, v := range f.FreeVars {
			p := x.def("getelementptr %s, ptr %%ctx, i32 0, i32 %d", ct, i+1)
			if isMem(v.Type()) {
				x.vals[v] = p
			} else if isBool(v.Type()) {
				t := x.def("load i8, ptr %s", p)
				x.vals[v] = x.def("trunc i8 %s to i1", t)
			} else {
				x.vals[v] = x.def("load %s, ptr %s", c.mem(v.Type()), p)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				x.defers = true
			}
		}
	}
	if x.defers {
		x.deferHd = x.slotT("ptr")
	}
	for _, b := range f.Blocks { // phi slots and names first
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if isMem(p.Type()) {
					x.vals[p] = x.slot(p.Type())
					x.inSlot[p] = x.slot(p.Type())
				} else {
					x.vals[p] = x.tmp()
				}
			}
		}
	}
	order := f.DomPreorder()
	live := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if b != f.Recover || len(b.Preds) > 0 {
			live[b] = true
		}
	}
	var out []*ssa.BasicBlock
	for _, b := range order {
		if !live[b] {
			continue
		}
		out = append(out, b)
		x.b = &strings.Builder{}
		x.blkBuf[b] = x.b
		x.lbl = bname(b)
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok && isMem(p.Type()) {
				x.copy(x.vals[p], x.inSlot[p], p.Type())
			}
		}
		for _, in := range b.Instrs {
			x.instr(in)
		}
		x.endLbl[b] = x.lbl
	}
	var s strings.Builder
	s.WriteString(head)
	s.WriteString("entry:\n")
	s.WriteString(x.entry.String())
	if x.defers {
		fmt.Fprintf(&s, "  store ptr null, ptr %s\n", x.deferHd)
	}
	fmt.Fprintf(&s, "  br label %%%s\n", bname(f.Blocks[0]))
	for _, b := range out {
		fmt.Fprintf(&s, "%s:\n", bname(b))
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isMem(p.Type()) {
				continue
			}
			var l []string
			for i, e := range p.Edges {
				if !live[b.Preds[i]] {
					continue
				}
				l = append(l, fmt.Sprintf("[%s, %%%s]", x.val(e), x.endLbl[b.Preds[i]]))
			}
			fmt.Fprintf(&s, "  %s = phi %s %s\n", x.vals[p], x.reg(p.Type()), strings.Join(l, ", "))
		}
		s.WriteString(x.blkBuf[b].String())
	}
	s.WriteString(x.tail.String())
	s.WriteString("}\n")
	return s.String()
}

func zeroOf(t string) string {
	switch {
	case t == "ptr":
		return "null"
	case strings.HasPrefix(t, "i"):
		return "0"
	case t == "float" || t == "double":
		return "0.0"
	}
	return "zeroinitializer"
}

// tupSize: size of the memory image of t (tuples included)
func (c *comp) tupSize(t types.Type) int64 {
	if tp, ok := t.(*types.Tuple); ok {
		var fs []*types.Var
		for i := 0; i < tp.Len(); i++ {
			fs = append(fs, types.NewField(token.NoPos, nil, fmt.Sprintf("f%d", i), tp.At(i).Type(), false))
		}
		return sizes.Sizeof(types.NewStruct(fs, nil))
	}
	return sizeof(t)
}

// edges: copies for memory phis of the successors
func (x *fc) edges(b *ssa.BasicBlock) {
	for _, s := range b.Succs {
		for i, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isMem(ph.Type()) {
					x.copy(x.inSlot[ph], x.val(ph.Edges[i]), ph.Type())
				}
			}
			break
		}
	}
}

// int64 value of an index operand
func (x *fc) idx(v ssa.Value) string {
	s := x.val(v)
	n, signed, _ := basicInt(v.Type())
	if n == 64 {
		return s
	}
	if signed {
		return x.def("sext i%d %s to i64", n, s)
	}
	return x.def("zext i%d %s to i64", n, s)
}

func isConstIdx(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return k.Int64(), true
	}
	return 0, false
}

func (x *fc) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		t := under(in.Type()).(*types.Pointer).Elem()
		if in.Heap {
			x.vals[in] = x.def("call ptr @go_new(i64 %d)", sizeof(t))
		} else {
			s := x.slot(t)
			if n := sizeof(t); n > 0 {
				x.o("call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %d, i1 false)", s, n)
			}
			x.vals[in] = s
		}
	case *ssa.BinOp:
		x.vals[in] = x.binop(in)
	case *ssa.UnOp:
		x.unop(in)
	case *ssa.Call:
		r := x.call(in.Common(), in.Type())
		x.vals[in] = r
	case *ssa.ChangeType:
		x.vals[in] = x.val(in.X)
	case *ssa.ChangeInterface:
		x.vals[in] = x.val(in.X)
	case *ssa.Convert:
		x.vals[in] = x.convert(x.val(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		x.vals[in] = x.convert(x.val(in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		v := x.val(in.X)
		n := under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
		x.panicIf(x.def("icmp slt i64 %s, %d", l, n), "slice to array conversion: length too short")
		x.vals[in] = x.def("extractvalue {ptr, i64, i64} %s, 0", v)
	case *ssa.MakeInterface:
		x.vals[in] = x.mkiface(x.val(in.X), in.X.Type())
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var ft []string
		var sz int64 = 8
		ft = append(ft, "ptr")
		for _, v := range in.Bindings {
			ft = append(ft, x.mem(v.Type()))
			al := sizes.Alignof(v.Type())
			sz = (sz + al - 1) / al * al
			sz += sizeof(v.Type())
		}
		ct := "{" + strings.Join(ft, ", ") + "}"
		o := x.def("call ptr @go_new(i64 %d)", (sz+7)/8*8)
		x.o("store ptr %s, ptr %s", x.fn(fn), o)
		for i, v := range in.Bindings {
			p := x.def("getelementptr %s, ptr %s, i32 0, i32 %d", ct, o, i+1)
			x.store(p, x.val(v), v.Type())
		}
		x.vals[in] = o
	case *ssa.MakeMap:
		m := under(in.Type()).(*types.Map)
		x.vals[in] = x.def("call ptr @go_makemap(i64 %d, i64 %d, ptr %s)", sizeof(m.Key()), sizeof(m.Elem()), x.eqfn(m.Key()))
	case *ssa.MakeSlice:
		l, cp := x.idx(in.Len), x.idx(in.Cap)
		e := under(in.Type()).(*types.Slice).Elem()
		p := x.def("call ptr @go_makeslice(i64 %s, i64 %s, i64 %d)", l, cp, sizeof(e))
		x.vals[in] = x.mkslice(p, l, cp)
	case *ssa.MakeChan, *ssa.Select, *ssa.Go, *ssa.Send:
		x.o("call void @go_extern(ptr %s)", x.strGlobal(fmt.Sprintf("%T", in)))
		if v, ok := in.(ssa.Value); ok {
			if isMem(v.Type()) {
				x.vals[v] = x.slotT(x.llt(v.Type(), true))
			} else {
				x.vals[v] = zeroOf(x.reg(v.Type()))
			}
		}
	case *ssa.Slice:
		x.slice(in)
	case *ssa.FieldAddr:
		t := under(in.X.Type()).(*types.Pointer).Elem()
		x.vals[in] = x.gep(t, x.val(in.X), in.Field)
	case *ssa.Field:
		p := x.gep(in.X.Type(), x.val(in.X), in.Field)
		if isMem(in.Type()) {
			x.vals[in] = p
		} else {
			x.vals[in] = x.load(p, in.Type())
		}
	case *ssa.IndexAddr:
		i := x.idx(in.Index)
		k, isk := isConstIdx(in.Index)
		switch t := under(in.X.Type()).(type) {
		case *types.Slice:
			v := x.val(in.X)
			l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
			x.panicIf(x.def("icmp uge i64 %s, %s", i, l), "index out of range")
			p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
			x.vals[in] = x.def("getelementptr %s, ptr %s, i64 %s", x.mem(t.Elem()), p, i)
		case *types.Pointer:
			a := under(t.Elem()).(*types.Array)
			if !isk || k < 0 || k >= a.Len() {
				x.panicIf(x.def("icmp uge i64 %s, %d", i, a.Len()), "index out of range")
			}
			x.vals[in] = x.def("getelementptr %s, ptr %s, i64 %s", x.mem(a.Elem()), x.val(in.X), i)
		default:
			panic("IndexAddr")
		}
	case *ssa.Index:
		x.index(in, in.X, in.Index)
	case *ssa.Lookup:
		if isStr(in.X.Type()) {
			x.index(in, in.X, in.Index)
			return
		}
		m := under(in.X.Type()).(*types.Map)
		kp := x.spill(x.val(in.Index), m.Key())
		p := x.def("call ptr @go_mapaccess(ptr %s, ptr %s)", x.val(in.X), kp)
		nz := x.def("icmp ne ptr %s, null", p)
		src := x.def("select i1 %s, ptr %s, ptr %s", nz, p, x.zero(m.Elem()))
		v := x.load(src, m.Elem())
		if in.CommaOk {
			x.vals[in] = x.tuple(in.Type().(*types.Tuple), v, nz)
		} else {
			x.vals[in] = v
		}
	case *ssa.Range:
		if isStr(in.X.Type()) {
			s := x.slotT("{ptr, i64, i64}")
			v := x.val(in.X)
			x.o("store {ptr, i64} %s, ptr %s", v, s)
			p := x.def("getelementptr {ptr, i64, i64}, ptr %s, i32 0, i32 2", s)
			x.o("store i64 0, ptr %s", p)
			x.vals[in] = s
		} else {
			x.vals[in] = x.def("call ptr @go_mapiter(ptr %s)", x.val(in.X))
		}
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		it := x.val(in.Iter)
		if in.IsString {
			v := x.def("load {ptr, i64}, ptr %s", it)
			pp := x.def("getelementptr {ptr, i64, i64}, ptr %s, i32 0, i32 2", it)
			pos := x.def("load i64, ptr %s", pp)
			ptr := x.def("extractvalue {ptr, i64} %s, 0", v)
			l := x.def("extractvalue {ptr, i64} %s, 1", v)
			ok := x.def("icmp slt i64 %s, %s", pos, l)
			r := x.def("call i64 @go_decoderune(ptr %s, i64 %s, i64 %s)", ptr, l, pos) // size<<32 | rune
			sz := x.def("lshr i64 %s, 32", r)
			np := x.def("add i64 %s, %s", pos, sz)
			x.o("store i64 %s, ptr %s", np, pp)
			ru := x.def("trunc i64 %s to i32", r)
			iv, rv := pos, ru
			if _, _, k := basicInt(tt.At(1).Type()); !k {
				iv = "0"
			}
			if _, _, k := basicInt(tt.At(2).Type()); !k {
				rv = "0"
			}
			x.vals[in] = x.tuple(tt, ok, iv, rv)
			return
		}
		m := under(in.Iter.(*ssa.Range).X.Type()).(*types.Map)
		e := x.def("call ptr @go_mapnext(ptr %s)", it)
		nz := x.def("icmp ne ptr %s, null", e)
		kv := "0"
		vv := "0"
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			src := x.def("select i1 %s, ptr %s, ptr %s", nz, e, x.zero(m.Key()))
			kv = x.load(src, m.Key())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			off := (sizeof(m.Key()) + 7) / 8 * 8
			p := x.def("getelementptr i8, ptr %s, i64 %d", e, off)
			src := x.def("select i1 %s, ptr %s, ptr %s", nz, p, x.zero(m.Elem()))
			vv = x.load(src, m.Elem())
		}
		x.vals[in] = x.tuple(tt, nz, kv, vv)
	case *ssa.TypeAssert:
		x.typeAssert(in)
	case *ssa.Extract:
		x.extract(in)
	case *ssa.Jump:
		x.edges(in.Block())
		x.o("br label %%%s", bname(in.Block().Succs[0]))
	case *ssa.If:
		c := x.val(in.Cond)
		x.edges(in.Block())
		x.o("br i1 %s, label %%%s, label %%%s", c, bname(in.Block().Succs[0]), bname(in.Block().Succs[1]))
	case *ssa.Return:
		x.doReturn(in)
	case *ssa.RunDefers:
		if !x.defers {
			return
		}
		h, bd, e := x.label(), x.label(), x.label()
		x.o("br label %%%s", h)
		x.start(h)
		r := x.def("load ptr, ptr %s", x.deferHd)
		z := x.def("icmp eq ptr %s, null", r)
		x.o("br i1 %s, label %%%s, label %%%s", z, e, bd)
		x.start(bd)
		nx := x.def("load ptr, ptr %s", r)
		x.o("store ptr %s, ptr %s", nx, x.deferHd)
		fp := x.def("getelementptr {ptr, ptr}, ptr %s, i32 0, i32 1", r)
		fn := x.def("load ptr, ptr %s", fp)
		x.o("call void %s(ptr %s)", fn, r)
		x.o("br label %%%s", h)
		x.start(e)
	case *ssa.Panic:
		v := x.val(in.X)
		a := x.def("extractvalue {ptr, ptr} %s, 0", v)
		b := x.def("extractvalue {ptr, ptr} %s, 1", v)
		x.o("call void @go_panic(ptr %s, ptr %s)", a, b)
		x.o("unreachable")
	case *ssa.Defer:
		x.deferCall(in)
	case *ssa.Store:
		x.store(x.val(in.Addr), x.val(in.Val), in.Val.Type())
	case *ssa.MapUpdate:
		m := under(in.Map.Type()).(*types.Map)
		kp := x.spill(x.val(in.Key), m.Key())
		p := x.def("call ptr @go_mapassign(ptr %s, ptr %s)", x.val(in.Map), kp)
		x.store(p, x.val(in.Value), m.Elem())
	default:
		panic(fmt.Sprintf("instruction %T", in))
	}
}

func (x *fc) doReturn(in *ssa.Return) {
	res := x.f.Signature.Results()
	switch {
	case res.Len() == 0:
		x.o("ret void")
	case res.Len() == 1:
		if x.sret {
			x.copy("%ret", x.val(in.Results[0]), res.At(0).Type())
			x.o("ret void")
		} else {
			x.o("ret %s %s", x.ret, x.val(in.Results[0]))
		}
	case x.sret:
		// results may alias each other only as values, so copying one by one is fine
		for i, r := range in.Results {
			p := x.def("getelementptr %s, ptr %%ret, i32 0, i32 %d", x.llt(res, true), i)
			x.store(p, x.val(r), r.Type())
		}
		x.o("ret void")
	default:
		cur := "undef"
		for i, r := range in.Results {
			cur = x.def("insertvalue %s %s, %s %s, %d", x.ret, cur, x.reg(r.Type()), x.val(r), i)
		}
		x.o("ret %s %s", x.ret, cur)
	}
}

// tuple builds a tuple value from component values
func (x *fc) tuple(t *types.Tuple, vs ...string) string {
	if isMem(t) {
		s := x.slotT(x.llt(t, true))
		for i, v := range vs {
			et := t.At(i).Type()
			if b, ok := et.(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			p := x.def("getelementptr %s, ptr %s, i32 0, i32 %d", x.llt(t, true), s, i)
			x.store(p, v, et)
		}
		return s
	}
	lt := x.llt(t, false)
	cur := "undef"
	for i, v := range vs {
		cur = x.def("insertvalue %s %s, %s %s, %d", lt, cur, x.reg(t.At(i).Type()), v, i)
	}
	return cur
}

func (x *fc) extract(in *ssa.Extract) {
	tt := in.Tuple.Type().(*types.Tuple)
	v := x.val(in.Tuple)
	if isMem(tt) {
		p := x.def("getelementptr %s, ptr %s, i32 0, i32 %d", x.llt(tt, true), v, in.Index)
		if isMem(in.Type()) {
			x.vals[in] = p
		} else {
			x.vals[in] = x.load(p, in.Type())
		}
		return
	}
	x.vals[in] = x.def("extractvalue %s %s, %d", x.llt(tt, false), v, in.Index)
}

func (x *fc) index(in ssa.Value, xs, iv ssa.Value) {
	i := x.idx(iv)
	if isStr(xs.Type()) {
		v := x.val(xs)
		l := x.def("extractvalue {ptr, i64} %s, 1", v)
		x.panicIf(x.def("icmp uge i64 %s, %s", i, l), "index out of range")
		p := x.def("extractvalue {ptr, i64} %s, 0", v)
		q := x.def("getelementptr i8, ptr %s, i64 %s", p, i)
		x.vals[in] = x.def("load i8, ptr %s", q)
		return
	}
	a := under(xs.Type()).(*types.Array)
	if k, ok := isConstIdx(iv); !ok || k < 0 || k >= a.Len() {
		x.panicIf(x.def("icmp uge i64 %s, %d", i, a.Len()), "index out of range")
	}
	p := x.def("getelementptr %s, ptr %s, i64 %s", x.mem(a.Elem()), x.val(xs), i)
	if isMem(a.Elem()) {
		x.vals[in] = p
	} else {
		x.vals[in] = x.load(p, a.Elem())
	}
}

func (x *fc) mkslice(p, l, c string) string {
	a := x.def("insertvalue {ptr, i64, i64} undef, ptr %s, 0", p)
	a = x.def("insertvalue {ptr, i64, i64} %s, i64 %s, 1", a, l)
	return x.def("insertvalue {ptr, i64, i64} %s, i64 %s, 2", a, c)
}

func (x *fc) mkiface(v string, t types.Type) string {
	d := x.runtimeType(t)
	p := v
	if !isPtrShaped(t) {
		p = x.def("call ptr @go_new(i64 %d)", sizeof(t))
		x.store(p, v, t)
	}
	a := x.def("insertvalue {ptr, ptr} undef, ptr %s, 0", d.name())
	return x.def("insertvalue {ptr, ptr} %s, ptr %s, 1", a, p)
}

func (x *fc) slice(in *ssa.Slice) {
	var p, l, c string
	var et types.Type
	str := false
	switch t := under(in.X.Type()).(type) {
	case *types.Slice:
		v := x.val(in.X)
		p = x.def("extractvalue {ptr, i64, i64} %s, 0", v)
		l = x.def("extractvalue {ptr, i64, i64} %s, 1", v)
		c = x.def("extractvalue {ptr, i64, i64} %s, 2", v)
		et = t.Elem()
	case *types.Basic:
		v := x.val(in.X)
		p = x.def("extractvalue {ptr, i64} %s, 0", v)
		l = x.def("extractvalue {ptr, i64} %s, 1", v)
		c = l
		et = types.Typ[types.Uint8]
		str = true
	case *types.Pointer:
		a := under(t.Elem()).(*types.Array)
		p = x.val(in.X)
		l = fmt.Sprint(a.Len())
		c = l
		et = a.Elem()
	}
	lo, hi, mx := "0", l, c
	if in.Low != nil {
		lo = x.idx(in.Low)
	}
	if in.High != nil {
		hi = x.idx(in.High)
	}
	if in.Max != nil {
		mx = x.idx(in.Max)
		x.panicIf(x.def("icmp ugt i64 %s, %s", mx, c), "slice bounds out of range")
	}
	if in.High != nil {
		x.panicIf(x.def("icmp ugt i64 %s, %s", hi, mx), "slice bounds out of range")
	}
	if in.Low != nil {
		x.panicIf(x.def("icmp ugt i64 %s, %s", lo, hi), "slice bounds out of range")
	}
	np := p
	if lo != "0" {
		np = x.def("getelementptr %s, ptr %s, i64 %s", x.mem(et), p, lo)
	}
	nl := x.def("sub i64 %s, %s", hi, lo)
	if str {
		a := x.def("insertvalue {ptr, i64} undef, ptr %s, 0", np)
		x.vals[in] = x.def("insertvalue {ptr, i64} %s, i64 %s, 1", a, nl)
		return
	}
	nc := x.def("sub i64 %s, %s", mx, lo)
	x.vals[in] = x.mkslice(np, nl, nc)
}

func (x *fc) typeAssert(in *ssa.TypeAssert) {
	v := x.val(in.X)
	td := x.def("extractvalue {ptr, ptr} %s, 0", v)
	d := x.def("extractvalue {ptr, ptr} %s, 1", v)
	t := in.AssertedType
	var ok string
	if isIface(t) {
		ok = x.def("call i1 %s(ptr %s)", x.implfn(t), td)
		if !in.CommaOk {
			x.panicIf(x.def("xor i1 %s, 1", ok), "interface conversion")
			x.vals[in] = v
			return
		}
		r := x.def("select i1 %s, {ptr, ptr} %s, {ptr, ptr} zeroinitializer", ok, v)
		x.vals[in] = x.tuple(in.Type().(*types.Tuple), r, ok)
		return
	}
	ok = x.def("icmp eq ptr %s, %s", td, x.td(t).name())
	if !in.CommaOk {
		x.panicIf(x.def("xor i1 %s, 1", ok), "interface conversion")
		if isPtrShaped(t) {
			x.vals[in] = d
		} else {
			x.vals[in] = x.load(d, t)
		}
		return
	}
	var r string
	if isPtrShaped(t) {
		r = x.def("select i1 %s, ptr %s, ptr null", ok, d)
	} else {
		src := x.def("select i1 %s, ptr %s, ptr %s", ok, d, x.zero(t))
		r = x.load(src, t)
	}
	x.vals[in] = x.tuple(in.Type().(*types.Tuple), r, ok)
}

func (x *fc) unop(in *ssa.UnOp) {
	t := in.Type()
	switch in.Op {
	case token.MUL:
		x.vals[in] = x.load(x.val(in.X), t)
	case token.NOT:
		x.vals[in] = x.def("xor i1 %s, 1", x.val(in.X))
	case token.SUB:
		if isFloat(t) {
			x.vals[in] = x.def("fneg %s %s", x.reg(t), x.val(in.X))
		} else {
			x.vals[in] = x.def("sub %s 0, %s", x.reg(t), x.val(in.X))
		}
	case token.XOR:
		x.vals[in] = x.def("xor %s %s, -1", x.reg(t), x.val(in.X))
	case token.ARROW:
		x.o("call void @go_extern(ptr %s)", x.strGlobal("channel receive"))
		if isMem(t) {
			x.vals[in] = x.slotT(x.llt(t, true))
		} else {
			x.vals[in] = zeroOf(x.reg(t))
		}
	default:
		panic("unop " + in.Op.String())
	}
}

var icmps = map[token.Token][2]string{token.LSS: {"ult", "slt"}, token.LEQ: {"ule", "sle"}, token.GTR: {"ugt", "sgt"}, token.GEQ: {"uge", "sge"}}
var fcmps = map[token.Token]string{token.LSS: "olt", token.LEQ: "ole", token.GTR: "ogt", token.GEQ: "oge", token.EQL: "oeq", token.NEQ: "une"}

func (x *fc) binop(in *ssa.BinOp) string {
	t := in.X.Type()
	a, b := x.val(in.X), x.val(in.Y)
	n, signed, isint := basicInt(t)
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(t, a, b, in.Y)
		if in.Op == token.NEQ {
			return x.def("xor i1 %s, 1", r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr(t) {
			pa, la := x.split(a)
			pb, lb := x.split(b)
			r := x.def("call i32 @go_strcmp(ptr %s, i64 %s, ptr %s, i64 %s)", pa, la, pb, lb)
			return x.def("icmp %s i32 %s, 0", icmps[in.Op][1], r)
		}
		if isFloat(t) {
			return x.def("fcmp %s %s %s, %s", fcmps[in.Op], x.reg(t), a, b)
		}
		k := 0
		if signed {
			k = 1
		}
		return x.def("icmp %s i%d %s, %s", icmps[in.Op][k], n, a, b)
	}
	if isStr(t) {
		pa, la := x.split(a)
		pb, lb := x.split(b)
		return x.def("call {ptr, i64} @go_strcat(ptr %s, i64 %s, ptr %s, i64 %s)", pa, la, pb, lb)
	}
	if isFloat(t) {
		return x.def("f%s %s %s, %s", map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[in.Op], x.reg(t), a, b)
	}
	if !isint {
		panic(fmt.Sprintf("binop %v on %v", in.Op, t))
	}
	ty := fmt.Sprintf("i%d", n)
	switch in.Op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		op := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.AND: "and", token.OR: "or", token.XOR: "xor"}[in.Op]
		return x.def("%s %s %s, %s", op, ty, a, b)
	case token.AND_NOT:
		nb := x.def("xor %s %s, -1", ty, b)
		return x.def("and %s %s, %s", ty, a, nb)
	case token.QUO, token.REM:
		if k, ok := isConstIdx(in.Y); !ok || k == 0 {
			x.panicIf(x.def("icmp eq %s %s, 0", ty, b), "integer divide by zero")
		}
		if !signed {
			return x.def("%s %s %s, %s", map[token.Token]string{token.QUO: "udiv", token.REM: "urem"}[in.Op], ty, a, b)
		}
		m1 := x.def("icmp eq %s %s, -1", ty, b)
		sb := x.def("select i1 %s, %s 1, %s %s", m1, ty, ty, b)
		if in.Op == token.QUO {
			q := x.def("sdiv %s %s, %s", ty, a, sb)
			ng := x.def("sub %s 0, %s", ty, a)
			return x.def("select i1 %s, %s %s, %s %s", m1, ty, ng, ty, q)
		}
		return x.def("srem %s %s, %s", ty, a, sb)
	case token.SHL, token.SHR:
		yn, ysigned, _ := basicInt(in.Y.Type())
		yt := fmt.Sprintf("i%d", yn)
		if k, ok := isConstIdx(in.Y); ysigned && !(ok && k >= 0) {
			x.panicIf(x.def("icmp slt %s %s, 0", yt, b), "negative shift amount")
		}
		small := x.def("icmp ult %s %s, %d", yt, b, n)
		sh := b
		if yn < n {
			sh = x.def("zext %s %s to %s", yt, b, ty)
		} else if yn > n {
			sh = x.def("trunc %s %s to %s", yt, b, ty)
		}
		if in.Op == token.SHR && signed {
			sh = x.def("select i1 %s, %s %s, %s %d", small, ty, sh, ty, n-1)
			return x.def("ashr %s %s, %s", ty, a, sh)
		}
		sh = x.def("select i1 %s, %s %s, %s 0", small, ty, sh, ty)
		op := "shl"
		if in.Op == token.SHR {
			op = "lshr"
		}
		r := x.def("%s %s %s, %s", op, ty, a, sh)
		return x.def("select i1 %s, %s %s, %s 0", small, ty, r, ty)
	}
	panic("binop " + in.Op.String())
}

func (x *fc) split(s string) (string, string) {
	return x.def("extractvalue {ptr, i64} %s, 0", s), x.def("extractvalue {ptr, i64} %s, 1", s)
}

func isNil(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (x *fc) equal(t types.Type, a, b string, y ssa.Value) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isStr(t):
			pa, la := x.split(a)
			pb, lb := x.split(b)
			return x.def("call i1 @go_streq(ptr %s, i64 %s, ptr %s, i64 %s)", pa, la, pb, lb)
		case isFloat(t):
			return x.def("fcmp oeq %s %s, %s", x.reg(t), a, b)
		}
		return x.def("icmp eq %s %s, %s", x.reg(t), a, b)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return x.def("icmp eq ptr %s, %s", a, b)
	case *types.Slice:
		pa := x.def("extractvalue {ptr, i64, i64} %s, 0", a)
		pb := x.def("extractvalue {ptr, i64, i64} %s, 0", b)
		return x.def("icmp eq ptr %s, %s", pa, pb)
	case *types.Interface:
		ta := x.def("extractvalue {ptr, ptr} %s, 0", a)
		tb := x.def("extractvalue {ptr, ptr} %s, 0", b)
		if isNil(y) {
			return x.def("icmp eq ptr %s, null", ta)
		}
		da := x.def("extractvalue {ptr, ptr} %s, 1", a)
		db := x.def("extractvalue {ptr, ptr} %s, 1", b)
		return x.def("call i1 @go_ifaceeq(ptr %s, ptr %s, ptr %s, ptr %s)", ta, tb, da, db)
	default:
		_ = u
		return x.def("call i1 %s(ptr %s, ptr %s)", x.eqfn(t), a, b)
	}
}

func (x *fc) convert(v string, from, to types.Type) string {
	fn, fs, fi := basicInt(from)
	tn, _, ti := basicInt(to)
	switch {
	case fi && ti:
		switch {
		case tn < fn:
			return x.def("trunc i%d %s to i%d", fn, v, tn)
		case tn > fn && fs:
			return x.def("sext i%d %s to i%d", fn, v, tn)
		case tn > fn:
			return x.def("zext i%d %s to i%d", fn, v, tn)
		}
		return v
	case fi && isFloat(to):
		op := "uitofp"
		if fs {
			op = "sitofp"
		}
		return x.def("%s i%d %s to %s", op, fn, v, x.reg(to))
	case isFloat(from) && ti:
		_, s, _ := basicInt(to)
		op := "fptoui"
		if s {
			op = "fptosi"
		}
		return x.def("%s %s %s to i%d", op, x.reg(from), v, tn)
	case isFloat(from) && isFloat(to):
		if x.reg(from) == x.reg(to) {
			return v
		}
		if x.reg(to) == "float" {
			return x.def("fptrunc double %s to float", v)
		}
		return x.def("fpext float %s to double", v)
	case isStr(to) && isStr(from):
		return v
	case isStr(to) && fi:
		r := v
		if fn > 32 {
			r = x.def("trunc i%d %s to i32", fn, v)
		} else if fn < 32 {
			r = x.def("zext i%d %s to i32", fn, v)
		}
		return x.def("call {ptr, i64} @go_rune2str(i32 %s)", r)
	case isStr(to) && isSlice(from):
		e := under(from).(*types.Slice).Elem()
		p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
		l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
		if n, _, _ := basicInt(e); n == 8 {
			return x.def("call {ptr, i64} @go_bytes2str(ptr %s, i64 %s)", p, l)
		}
		return x.def("call {ptr, i64} @go_runes2str(ptr %s, i64 %s)", p, l)
	case isStr(from) && isSlice(to):
		e := under(to).(*types.Slice).Elem()
		p, l := x.split(v)
		if n, _, _ := basicInt(e); n == 8 {
			q := x.def("call ptr @go_str2bytes(ptr %s, i64 %s)", p, l)
			return x.mkslice(q, l, l)
		}
		s := x.slotT("{ptr, i64, i64}")
		x.o("call void @go_str2runes(ptr %s, ptr %s, i64 %s)", s, p, l)
		return x.def("load {ptr, i64, i64}, ptr %s", s)
	case isUnsafePtr(to) && fi:
		return x.def("inttoptr i64 %s to ptr", v)
	case isUnsafePtr(from) && ti:
		return x.def("ptrtoint ptr %s to i64", v)
	case isUnsafePtr(from) || isUnsafePtr(to):
		return v
	case isSlice(from):
		if a, ok := under(to).(*types.Array); ok {
			l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
			x.panicIf(x.def("icmp slt i64 %s, %d", l, a.Len()), "slice to array conversion: length too short")
			p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
			return x.load(p, to)
		}
		return v
	}
	return v
}
