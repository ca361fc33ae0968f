package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- types ---------------------------------------------------------------
// Structs, arrays and tuples containing them live in memory and are passed as
// pointers; every other type is an LLVM value.

func under(t types.Type) types.Type { return t.Underlying() }

func isMem(t types.Type) bool {
	switch t := under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if isMem(t.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func basicInt(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&info != 0
}
func isStr(t types.Type) bool   { return isBasic(t, types.IsString) }
func isBool(t types.Type) bool  { return isBasic(t, types.IsBoolean) }
func isFloat(t types.Type) bool { return isBasic(t, types.IsFloat) }
func isUnsafePtr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil)
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }

func (c *comp) llt(t types.Type, mem bool) string {
	switch t := under(t).(type) {
	case *types.Basic:
		if n, _, ok := basicInt(t); ok {
			return fmt.Sprintf("i%d", n)
		}
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			if mem {
				return "i8"
			}
			return "i1"
		case types.Float32:
			return "float"
		case types.Float64, types.UntypedFloat:
			return "double"
		case types.String, types.UntypedString:
			return "{ptr, i64}"
		case types.UnsafePointer, types.UntypedNil:
			return "ptr"
		case types.Complex128, types.Complex64:
			return "{double, double}"
		case types.Invalid:
			return "i8"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "ptr"
	case *types.Interface:
		return "{ptr, ptr}"
	case *types.Slice:
		return "{ptr, i64, i64}"
	case *types.Struct:
		var l []string
		for i := 0; i < t.NumFields(); i++ {
			l = append(l, c.llt(t.Field(i).Type(), true))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case *types.Array:
		return fmt.Sprintf("[%d x %s]", t.Len(), c.llt(t.Elem(), true))
	case *types.Tuple:
		m := isMem(t)
		var l []string
		for i := 0; i < t.Len(); i++ {
			l = append(l, c.llt(t.At(i).Type(), m || mem))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	if strings.Contains(fmt.Sprintf("%T", t), "opaqueType") {
		return "ptr"
	}
	panic(fmt.Sprintf("type %v (%T)", t, under(t)))
}
func (c *comp) mem(t types.Type) string { return c.llt(t, true) }
func (c *comp) reg(t types.Type) string {
	if isMem(t) {
		return "ptr"
	}
	return c.llt(t, false)
}

func sizeof(t types.Type) int64 {
	if isMapIter(t) {
		return 8
	}
	return sizes.Sizeof(t)
}
func isMapIter(t types.Type) bool { return strings.Contains(fmt.Sprintf("%T", t), "opaqueType") }

func isPtrShaped(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// plain: equality is equality of the memory bytes
func plain(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0 || u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Chan:
		return true
	case *types.Array:
		return plain(u.Elem())
	case *types.Struct:
		var off int64
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" || !plain(f.Type()) {
				return false
			}
			if al := sizes.Alignof(f.Type()); off%al != 0 {
				return false
			}
			off += sizeof(f.Type())
		}
		return off == sizeof(t)
	}
	return false
}

// eqfn returns the name of the i1(ptr,ptr) equality function of t
func (c *comp) eqfn(t types.Type) string {
	if f, ok := c.eqs.At(t).(string); ok {
		return f
	}
	if m, ok := under(t).(*types.Map); ok {
		_ = m
		return "@go_eq_uncomparable"
	}
	name := fmt.Sprintf("@eq.%d", c.eqs.Len())
	c.eqs.Set(t, name)
	var b strings.Builder
	fmt.Fprintf(&b, "define internal i1 %s(ptr %%a, ptr %%b) #0 {\n", name)
	size := sizeof(t)
	switch {
	case size == 0:
		fmt.Fprintf(&b, "  ret i1 1\n")
	case plain(t) && size <= 64:
		n := fmt.Sprintf("i%d", size*8)
		fmt.Fprintf(&b, "  %%x = load %s, ptr %%a, align 1\n  %%y = load %s, ptr %%b, align 1\n  %%r = icmp eq %s %%x, %%y\n  ret i1 %%r\n", n, n, n)
	case plain(t):
		fmt.Fprintf(&b, "  %%m = call i32 @memcmp(ptr %%a, ptr %%b, i64 %d)\n  %%r = icmp eq i32 %%m, 0\n  ret i1 %%r\n", size)
	default:
		switch u := under(t).(type) {
		case *types.Basic:
			switch {
			case isStr(t):
				fmt.Fprintf(&b, "  %%r = call i1 @go_streq_mem(ptr %%a, ptr %%b)\n  ret i1 %%r\n")
			case isFloat(t):
				n := c.mem(t)
				fmt.Fprintf(&b, "  %%x = load %s, ptr %%a\n  %%y = load %s, ptr %%b\n  %%r = fcmp oeq %s %%x, %%y\n  ret i1 %%r\n", n, n, n)
			default:
				fmt.Fprintf(&b, "  ret i1 0\n")
			}
		case *types.Interface:
			fmt.Fprintf(&b, "  %%r = call i1 @go_ifaceeq_mem(ptr %%a, ptr %%b)\n  ret i1 %%r\n")
		case *types.Struct:
			k := 0
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Name() == "_" {
					continue
				}
				e := c.eqfn(f.Type())
				fmt.Fprintf(&b, "  %%p%d = getelementptr %s, ptr %%a, i32 0, i32 %d\n  %%q%d = getelementptr %s, ptr %%b, i32 0, i32 %d\n", k, c.mem(t), i, k, c.mem(t), i)
				fmt.Fprintf(&b, "  %%c%d = call i1 %s(ptr %%p%d, ptr %%q%d)\n  br i1 %%c%d, label %%n%d, label %%no\nn%d:\n", k, e, k, k, k, k, k)
				k++
			}
			fmt.Fprintf(&b, "  ret i1 1\n")
			if k > 0 {
				fmt.Fprintf(&b, "no:\n  ret i1 0\n")
			}
		case *types.Array:
			e := c.eqfn(u.Elem())
			em := c.mem(u.Elem())
			fmt.Fprintf(&b, "  br label %%h\nh:\n  %%i = phi i64 [0, %%0], [%%i2, %%l]\n  %%d = icmp eq i64 %%i, %d\n  br i1 %%d, label %%yes, label %%bb\nbb:\n", u.Len())
			fmt.Fprintf(&b, "  %%p = getelementptr %s, ptr %%a, i64 %%i\n  %%q = getelementptr %s, ptr %%b, i64 %%i\n  %%c = call i1 %s(ptr %%p, ptr %%q)\n  br i1 %%c, label %%l, label %%no\nl:\n  %%i2 = add i64 %%i, 1\n  br label %%h\nyes:\n  ret i1 1\nno:\n  ret i1 0\n", em, em, e)
		default:
			fmt.Fprintf(&b, "  %%r = call i1 @go_eq_uncomparable(ptr %%a, ptr %%b)\n  ret i1 %%r\n")
		}
	}
	b.WriteString("}\n")
	s := b.String()
	if !strings.Contains(s, "%0]") {
		c.defs = append(c.defs, s)
	} else {
		c.defs = append(c.defs, strings.Replace(s, "#0 {\n", "#0 {\nen:\n", 1))
		c.defs[len(c.defs)-1] = strings.ReplaceAll(c.defs[len(c.defs)-1], "%0]", "%en]")
	}
	return name
}

// ---- type descriptors: {eq, name, namelen, size, kind, elem kind/size, columns...}
const tdHeader = 56

type tdesc struct {
	t       types.Type
	id      int
	runtime bool
	cols    map[int]string
}

func (c *comp) td(t types.Type) *tdesc {
	if d, ok := c.tds.At(t).(*tdesc); ok {
		return d
	}
	d := &tdesc{t: t, id: c.tds.Len(), cols: map[int]string{}}
	c.tds.Set(t, d)
	c.tdList = append(c.tdList, d)
	return d
}
func (d *tdesc) name() string { return fmt.Sprintf("@td.%d", d.id) }

// runtimeType marks t as stored in an interface: its methods become callable
func (c *comp) runtimeType(t types.Type) *tdesc {
	d := c.td(t)
	if !d.runtime {
		d.runtime = true
		for id, col := range c.cols {
			c.fillCol(d, id, col)
		}
	}
	return d
}

func (c *comp) fillCol(d *tdesc, id string, col *column) {
	if !d.runtime || isIface(d.t) {
		return
	}
	sel := c.prog.MethodSets.MethodSet(d.t).Lookup(col.pkg, col.name)
	if sel == nil {
		return
	}
	if _, ok := d.cols[col.id]; ok {
		return
	}
	fn := c.prog.MethodValue(sel)
	if fn == nil {
		return
	}
	d.cols[col.id] = c.itfThunk(d.t, fn)
}

type column struct {
	id   int
	pkg  *types.Package
	name string
}

func (c *comp) column(m *types.Func) *column {
	key := types.Id(m.Pkg(), m.Name())
	if m.Exported() {
		key = m.Name()
	}
	if col, ok := c.cols[key]; ok {
		return col
	}
	col := &column{id: len(c.cols), pkg: m.Pkg(), name: m.Name()}
	c.cols[key] = col
	for i := 0; i < len(c.tdList); i++ {
		c.fillCol(c.tdList[i], key, col)
	}
	return col
}

// itfThunk: the function behind a method column takes the data word
func (c *comp) itfThunk(t types.Type, fn *ssa.Function) string {
	target := c.fn(fn)
	if isPtrShaped(t) || isMem(t) {
		return target
	}
	name := fmt.Sprintf("@itf.%d", c.nthunk)
	c.nthunk++
	sig := fn.Signature
	ret, sret := c.retType(sig.Results())
	ps := []string{}
	as := []string{}
	if sret {
		ps = append(ps, "ptr %ret")
		as = append(as, "ptr %ret")
	}
	ps = append(ps, "ptr %d")
	as = append(as, c.reg(t)+" %r")
	for i := 0; i < sig.Params().Len(); i++ {
		pt := c.reg(sig.Params().At(i).Type())
		ps = append(ps, fmt.Sprintf("%s %%a%d", pt, i))
		as = append(as, fmt.Sprintf("%s %%a%d", pt, i))
	}
	ps = append(ps, "ptr %ctx")
	as = append(as, "ptr null")
	ld := fmt.Sprintf("  %%r = load %s, ptr %%d\n", c.mem(t))
	if isBool(t) {
		ld = "  %r8 = load i8, ptr %d\n  %r = trunc i8 %r8 to i1\n"
	}
	s := fmt.Sprintf("define internal %s %s(%s) #0 {\n%s", ret, name, strings.Join(ps, ", "), ld)
	if ret == "void" {
		s += fmt.Sprintf("  call void %s(%s)\n  ret void\n}\n", target, strings.Join(as, ", "))
	} else {
		s += fmt.Sprintf("  %%x = call %s %s(%s)\n  ret %s %%x\n}\n", ret, target, strings.Join(as, ", "), ret)
	}
	c.defs = append(c.defs, s)
	return name
}

// retType: LLVM result type, and whether the result goes through a hidden pointer
func (c *comp) retType(res *types.Tuple) (string, bool) {
	switch {
	case res.Len() == 0:
		return "void", false
	case res.Len() == 1:
		if isMem(res.At(0).Type()) {
			return "void", true
		}
		return c.reg(res.At(0).Type()), false
	case isMem(res):
		return "void", true
	}
	return c.llt(res, false), false
}

// implfn returns the function deciding whether a type descriptor implements an interface
func (c *comp) implfn(t types.Type) string {
	if f, ok := c.impls.At(t).(string); ok {
		return f
	}
	name := fmt.Sprintf("@impl.%d", c.impls.Len())
	c.impls.Set(t, name)
	c.implList = append(c.implList, t)
	return name
}

func (c *comp) implBody(t types.Type) string {
	name := c.impls.At(t).(string)
	it := under(t).(*types.Interface)
	var b strings.Builder
	fmt.Fprintf(&b, "define internal i1 %s(ptr %%td) #0 {\n", name)
	k := 0
	for _, d := range c.tdList {
		if d.runtime && types.Implements(d.t, it) {
			fmt.Fprintf(&b, "  %%c%d = icmp eq ptr %%td, %s\n  br i1 %%c%d, label %%yes, label %%n%d\nn%d:\n", k, d.name(), k, k, k)
			k++
		}
	}
	fmt.Fprintf(&b, "  ret i1 0\n")
	if k > 0 {
		fmt.Fprintf(&b, "yes:\n  ret i1 1\n")
	}
	b.WriteString("}\n")
	return b.String()
}

var kinds = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10,
	types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func kindOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		return kinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (c *comp) tdDef(d *tdesc) string {
	eq := "null"
	if !isPtrShaped(d.t) && !isIface(d.t) {
		eq = c.eqfn(d.t)
	}
	var ekind, esize int64
	switch u := under(d.t).(type) {
	case *types.Slice:
		ekind, esize = int64(kindOf(u.Elem())), sizeof(u.Elem())
	case *types.Array:
		ekind, esize = int64(kindOf(u.Elem())), sizeof(u.Elem())
	case *types.Pointer:
		ekind = int64(kindOf(u.Elem()))
	}
	nm := d.t.String()
	str := c.strGlobal(nm)
	cols := make([]string, len(c.cols))
	for i := range cols {
		cols[i] = "ptr null"
		if f, ok := d.cols[i]; ok {
			cols[i] = "ptr " + f
		}
	}
	return fmt.Sprintf("%s = internal constant {ptr, ptr, i64, i64, i64, i64, i64, [%d x ptr]} {ptr %s, ptr %s, i64 %d, i64 %d, i64 %d, i64 %d, i64 %d, [%d x ptr] [%s]}\n",
		d.name(), len(cols), eq, str, len(nm), sizeof(d.t), kindOf(d.t), ekind, esize, len(cols), strings.Join(cols, ", "))
}
