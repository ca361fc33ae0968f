package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type target struct {
	fn   string // LLVM callee operand
	args []string
	tys  []string
	ctx  string
	res  *types.Tuple
}

func (x *fc) call(cc *ssa.CallCommon, rt types.Type) string {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(b, cc, rt)
	}
	if f := cc.StaticCallee(); f != nil && f.Synthetic == "package initializer" && f.Name() == "init" && skipInit(f.Pkg.Pkg.Path()) {
		return ""
	}
	if f := cc.StaticCallee(); f != nil {
		if r := x.replacement(f); r == nil {
			if s, ok := inlineCalls[f.String()]; ok {
				return s(x, cc)
			}
		}
	}
	t := x.callTarget(cc)
	return x.emitCall(t)
}

func (x *fc) callTarget(cc *ssa.CallCommon) target {
	t := target{res: cc.Signature().Results(), ctx: "null"}
	if cc.IsInvoke() {
		v := x.val(cc.Value)
		td := x.def("extractvalue {ptr, ptr} %s, 0", v)
		d := x.def("extractvalue {ptr, ptr} %s, 1", v)
		col := x.column(cc.Method)
		p := x.def("getelementptr i8, ptr %s, i64 %d", td, tdHeader+8*col.id)
		t.fn = x.def("load ptr, ptr %s", p)
		t.args, t.tys = []string{d}, []string{"ptr"}
	} else if f := cc.StaticCallee(); f != nil {
		t.fn = x.fn(f)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			t.ctx = x.val(mc)
		}
	} else {
		c := x.val(cc.Value)
		x.panicIf(x.def("icmp eq ptr %s, null", c), "call of nil function")
		t.fn = x.def("load ptr, ptr %s", c)
		t.ctx = c
	}
	for _, a := range cc.Args {
		t.args = append(t.args, x.val(a))
		t.tys = append(t.tys, x.reg(a.Type()))
	}
	return t
}

func (x *fc) emitCall(t target) string {
	ret, sret := x.retType(t.res)
	var as []string
	var slot string
	if sret {
		if t.res.Len() == 1 {
			slot = x.slot(t.res.At(0).Type())
		} else {
			slot = x.slotT(x.llt(t.res, true))
		}
		as = append(as, "ptr "+slot)
	}
	for i := range t.args {
		as = append(as, t.tys[i]+" "+t.args[i])
	}
	as = append(as, "ptr "+t.ctx)
	if ret == "void" {
		x.o("call void %s(%s)", t.fn, strings.Join(as, ", "))
		return slot
	}
	return x.def("call %s %s(%s)", ret, t.fn, strings.Join(as, ", "))
}

// a deferred call is a record {next, thunk, closure/fn, args...}
func (x *fc) deferCall(in *ssa.Defer) {
	cc := in.Common()
	var tys, vals []string
	var ats []types.Type
	add := func(v string, t types.Type) { vals = append(vals, v); tys = append(tys, x.mem(t)); ats = append(ats, t) }
	ptrT := types.Typ[types.UnsafePointer]
	name := fmt.Sprintf("@defer.%d", x.nthunk)
	x.nthunk++
	bi, isB := cc.Value.(*ssa.Builtin)
	var t target
	if isB {
		for _, a := range cc.Args {
			add(x.val(a), a.Type())
		}
	} else {
		t = x.callTarget(cc)
		add(t.fn, ptrT)
		add(t.ctx, ptrT)
		k := 0
		if cc.IsInvoke() {
			add(t.args[0], ptrT)
			k = 1
		}
		for i, a := range cc.Args {
			add(t.args[k+i], a.Type())
		}
	}
	rt := "{ptr, ptr"
	var sz int64 = 16
	for i, m := range tys {
		rt += ", " + m
		al := sizes.Alignof(ats[i])
		sz = (sz+al-1)/al*al + sizeof(ats[i])
	}
	rt += "}"
	r := x.def("call ptr @go_new(i64 %d)", (sz+7)/8*8)
	old := x.def("load ptr, ptr %s", x.deferHd)
	x.o("store ptr %s, ptr %s", old, r)
	fp := x.def("getelementptr %s, ptr %s, i32 0, i32 1", rt, r)
	x.o("store ptr %s, ptr %s", name, fp)
	for i := range vals {
		p := x.def("getelementptr %s, ptr %s, i32 0, i32 %d", rt, r, i+2)
		x.store(p, vals[i], ats[i])
	}
	x.o("store ptr %s, ptr %s", r, x.deferHd)
	// thunk
	y := &fc{comp: x.comp, f: x.f, vals: map[ssa.Value]string{}, panics: map[string]string{}}
	y.b = &strings.Builder{}
	y.lbl = "entry"
	var ld []string
	for i := range vals {
		p := y.def("getelementptr %s, ptr %%r, i32 0, i32 %d", rt, i+2)
		if isMem(ats[i]) {
			ld = append(ld, p)
		} else {
			ld = append(ld, y.load(p, ats[i]))
		}
	}
	if isB {
		for i, a := range cc.Args {
			if _, k := a.(*ssa.Const); !k {
				y.vals[a] = ld[i]
			}
		}
		y.builtin(bi, cc, nil)
	} else {
		nt := target{fn: ld[0], ctx: ld[1], args: ld[2:], tys: t.tys, res: t.res}
		y.emitCall(nt)
	}
	y.o("ret void")
	x.defs = append(x.defs, fmt.Sprintf("define internal void %s(ptr %%r) #0 {\nentry:\n%s  br label %%body\nbody:\n%s%s}\n", name, y.entry.String(), y.b.String(), y.tail.String()))
}

func (x *fc) builtin(b *ssa.Builtin, cc *ssa.CallCommon, rt types.Type) string {
	args := cc.Args
	switch b.Name() {
	case "len", "cap":
		v := x.val(args[0])
		switch t := under(args[0].Type()).(type) {
		case *types.Slice:
			k := 1
			if b.Name() == "cap" {
				k = 2
			}
			return x.def("extractvalue {ptr, i64, i64} %s, %d", v, k)
		case *types.Basic:
			return x.def("extractvalue {ptr, i64} %s, 1", v)
		case *types.Map:
			return x.def("call i64 @go_maplen(ptr %s)", v)
		case *types.Array:
			return fmt.Sprint(t.Len())
		case *types.Pointer:
			return fmt.Sprint(under(t.Elem()).(*types.Array).Len())
		case *types.Chan:
			x.o("call void @go_extern(ptr %s)", x.strGlobal("len(chan)"))
			return "0"
		}
	case "append":
		e := under(args[0].Type()).(*types.Slice).Elem()
		v := x.val(args[0])
		p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
		l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
		c := x.def("extractvalue {ptr, i64, i64} %s, 2", v)
		var q, m string
		if len(args) == 1 {
			return v
		}
		w := x.val(args[1])
		if isStr(args[1].Type()) {
			q, m = x.split(w)
		} else {
			q = x.def("extractvalue {ptr, i64, i64} %s, 0", w)
			m = x.def("extractvalue {ptr, i64, i64} %s, 1", w)
		}
		s := x.slotT("{ptr, i64, i64}")
		x.o("store {ptr, i64, i64} %s, ptr %s", v, s)
		x.o("call void @go_append(ptr %s, ptr %s, i64 %s, i64 %s, ptr %s, i64 %s, i64 %d)", s, p, l, c, q, m, sizeof(e))
		return x.def("load {ptr, i64, i64}, ptr %s", s)
	case "copy":
		v, w := x.val(args[0]), x.val(args[1])
		e := under(args[0].Type()).(*types.Slice).Elem()
		p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
		l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
		var q, m string
		if isStr(args[1].Type()) {
			q, m = x.split(w)
		} else {
			q = x.def("extractvalue {ptr, i64, i64} %s, 0", w)
			m = x.def("extractvalue {ptr, i64, i64} %s, 1", w)
		}
		lt := x.def("icmp slt i64 %s, %s", l, m)
		n := x.def("select i1 %s, i64 %s, i64 %s", lt, l, m)
		bn := n
		if s := sizeof(e); s != 1 {
			bn = x.def("mul i64 %s, %d", n, s)
		}
		x.o("call void @llvm.memmove.p0.p0.i64(ptr %s, ptr %s, i64 %s, i1 false)", p, q, bn)
		return n
	case "delete":
		m := under(args[0].Type()).(*types.Map)
		kp := x.spill(x.val(args[1]), m.Key())
		x.o("call void @go_mapdelete(ptr %s, ptr %s)", x.val(args[0]), kp)
		return ""
	case "clear":
		v := x.val(args[0])
		switch t := under(args[0].Type()).(type) {
		case *types.Map:
			x.o("call void @go_mapclear(ptr %s)", v)
		case *types.Slice:
			p := x.def("extractvalue {ptr, i64, i64} %s, 0", v)
			l := x.def("extractvalue {ptr, i64, i64} %s, 1", v)
			n := x.def("mul i64 %s, %d", l, sizeof(t.Elem()))
			x.o("call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %s, i1 false)", p, n)
		}
		return ""
	case "min", "max":
		cur := x.val(args[0])
		t := args[0].Type()
		for _, a := range args[1:] {
			v := x.val(a)
			var c string
			n, signed, isint := basicInt(t)
			switch {
			case isint && signed:
				c = x.def("icmp slt i%d %s, %s", n, cur, v)
			case isint:
				c = x.def("icmp ult i%d %s, %s", n, cur, v)
			case isFloat(t):
				c = x.def("fcmp olt %s %s, %s", x.reg(t), cur, v)
			default:
				pa, la := x.split(cur)
				pb, lb := x.split(v)
				r := x.def("call i32 @go_strcmp(ptr %s, i64 %s, ptr %s, i64 %s)", pa, la, pb, lb)
				c = x.def("icmp slt i32 %s, 0", r)
			}
			if b.Name() == "max" {
				cur = x.def("select i1 %s, %s %s, %s %s", c, x.reg(t), v, x.reg(t), cur)
			} else {
				cur = x.def("select i1 %s, %s %s, %s %s", c, x.reg(t), cur, x.reg(t), v)
			}
		}
		return cur
	case "print", "println", "close":
		return ""
	case "recover":
		return "zeroinitializer"
	case "ssa:wrapnilchk":
		v := x.val(args[0])
		x.panicIf(x.def("icmp eq ptr %s, null", v), "nil receiver")
		return v
	case "Add":
		return x.def("getelementptr i8, ptr %s, i64 %s", x.val(args[0]), x.idx(args[1]))
	case "Slice":
		return x.mkslice(x.val(args[0]), x.idx(args[1]), x.idx(args[1]))
	case "String":
		a := x.def("insertvalue {ptr, i64} undef, ptr %s, 0", x.val(args[0]))
		return x.def("insertvalue {ptr, i64} %s, i64 %s, 1", a, x.idx(args[1]))
	case "StringData":
		p, _ := x.split(x.val(args[0]))
		return p
	case "SliceData":
		return x.def("extractvalue {ptr, i64, i64} %s, 0", x.val(args[0]))
	}
	panic("builtin " + b.Name() + " in " + x.f.String())
}
