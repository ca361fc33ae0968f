package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// standard library packages whose code is lowered; everything else outside the
// listed modules is an unknown external
var stdOK = map[string]bool{"errors": true, "bytes": true, "strings": true, "slices": true, "maps": true, "sort": true, "cmp": true, "math": true, "math/bits": true, "unicode/utf8": true, "unicode": true,
	"strconv": true, "internal/strconv": true, "internal/stringslite": true, "encoding/binary": true, "encoding/hex": true, "math/big": true, "iter": true, "io": true, "internal/byteorder": true, "internal/bytealg": true, "unsafe": true, "sync/atomic": true, "sync": true, "internal/itoa": true, "math/rand": false}

// initializers that are not run (large tables or run-time internals)
var noInit = map[string]bool{"errors": true, "unicode": true, "sync": true, "sync/atomic": true, "internal/bytealg": true, "math/big": false, "strconv": false}

func isStd(path string) bool {
	first, _, _ := strings.Cut(path, "/")
	return !strings.Contains(first, ".") && first != "verif" && path != "main" && path != "command-line-arguments"
}
func skipInit(path string) bool { return isStd(path) && (!stdOK[path] || noInit[path]) }

func fnPkg(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func allowed(f *ssa.Function) bool {
	p := fnPkg(f)
	return p == "" || !isStd(p) || stdOK[p]
}

// ---- functions replaced by Go code of package verif/rt
var goRepl = map[string]string{
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut", "(*sync.Once).Do": "OnceDo",
	"errors.Is": "ErrorsIs", "errors.As": "ErrorsAs",
	"encoding/json.Marshal": "JSONMarshal", "encoding/json.Unmarshal": "JSONUnmarshal",
	"regexp.MustCompile": "ReMustCompile", "regexp.Compile": "ReCompile", "(*regexp.Regexp).FindStringSubmatch": "ReFindStringSubmatch", "(*regexp.Regexp).FindSubmatch": "ReFindSubmatch", "(*regexp.Regexp).FindAllStringSubmatch": "ReFindAllStringSubmatch",
	"(*regexp.Regexp).MatchString": "ReMatchString", "(*regexp.Regexp).Match": "ReMatch", "(*regexp.Regexp).FindString": "ReFindString", "(*regexp.Regexp).String": "ReString",
}
var goReplFmt = map[string]string{"fmt.Errorf": "Errorf", "fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Printf": "Printf", "fmt.Println": "Println", "fmt.Print": "Println",
	"fmt.Fprintf": "Fprintf", "fmt.Fprintln": "Fprintln", "fmt.Fprint": "Fprintln"}

func (c *comp) replacement(f *ssa.Function) *ssa.Function {
	s := f.String()
	n := goRepl[s]
	if n == "" {
		if n = goReplFmt[s]; n != "" {
			if *fFmt {
				n = "F" + n
			} else {
				n = "O" + n
			}
		}
	}
	if n == "" {
		return nil
	}
	p := c.prog.ImportedPackage("verif/rt")
	if p == nil {
		die("verif/rt not loaded (needed for %s)", s)
	}
	r := p.Func(n)
	if r == nil {
		return nil
	}
	if r == f {
		return nil
	}
	return r
}

// ---- functions implemented by the C run time
var cTable = map[string]string{
	"(*sync.Mutex).Lock": "go_mutex_lock", "(*sync.Mutex).Unlock": "go_mutex_unlock", "(*sync.Mutex).TryLock": "go_trylock",
	"(*sync.RWMutex).Lock": "go_mutex_lock", "(*sync.RWMutex).Unlock": "go_mutex_unlock", "(*sync.RWMutex).RLock": "go_rlock", "(*sync.RWMutex).RUnlock": "go_runlock",
	"(*strings.Builder).copyCheck": "go_nop1",
	"math/bits.Mul64": "go_mul64", "math/bits.LeadingZeros64": "go_clz64", "math/bits.Len64": "go_len64", "math/bits.Len": "go_len64", "math/bits.LeadingZeros": "go_clz64",
	"math/bits.TrailingZeros64": "go_ctz64", "math/bits.TrailingZeros": "go_ctz64", "math/bits.OnesCount64": "go_popcnt64", "math/bits.ReverseBytes64": "go_bswap64", "math/bits.Len32": "go_len32", "math/bits.Len8": "go_len8",
	"math/bits.LeadingZeros8": "go_clz8", "math/bits.LeadingZeros32": "go_clz32", "math/bits.Add64": "go_add64", "math/bits.Sub64": "go_sub64", "math/bits.Div64": "go_div64",
	"(encoding/binary.bigEndian).Uint64": "go_be64", "(encoding/binary.bigEndian).PutUint64": "go_putbe64", "(encoding/binary.bigEndian).Uint32": "go_be32", "(encoding/binary.bigEndian).Uint16": "go_be16",
	"(encoding/binary.bigEndian).PutUint32": "go_putbe32", "(encoding/binary.bigEndian).PutUint16": "go_putbe16",
	"bytes.Equal": "go_byteseq", "bytes.Compare": "go_bytescmp", "strings.Compare": "go_strcmp3",
	"internal/bytealg.Equal": "go_byteseq", "internal/bytealg.Compare": "go_bytescmp", "internal/bytealg.CompareString": "go_strcmp3",
	"internal/bytealg.IndexByte": "go_indexbyte", "internal/bytealg.IndexByteString": "go_indexbytestr", "internal/bytealg.Count": "go_countbyte", "internal/bytealg.CountString": "go_countbytestr",
	"internal/bytealg.MakeNoZero": "go_makenozero", "internal/stringslite.IndexByte": "go_indexbytestr", "strings.IndexByte": "go_indexbytestr", "bytes.IndexByte": "go_indexbyte",
	"internal/stringslite.Index": "go_strindex", "strings.Index": "go_strindex",
	"sync/atomic.AddInt64": "go_atomic_add64", "sync/atomic.AddUint64": "go_atomic_add64", "sync/atomic.AddInt32": "go_atomic_add32", "sync/atomic.AddUint32": "go_atomic_add32",
	"sync/atomic.LoadInt64": "go_atomic_load64", "sync/atomic.LoadUint64": "go_atomic_load64", "sync/atomic.LoadInt32": "go_atomic_load32", "sync/atomic.LoadUint32": "go_atomic_load32",
	"sync/atomic.StoreInt64": "go_atomic_store64", "sync/atomic.StoreUint64": "go_atomic_store64", "sync/atomic.StoreInt32": "go_atomic_store32", "sync/atomic.StoreUint32": "go_atomic_store32",
	"sync/atomic.LoadPointer": "go_atomic_load64p", "sync/atomic.StorePointer": "go_atomic_store64p",
	"math.Float64bits": "go_f64bits", "math.Float64frombits": "go_f64frombits",
	"sort.Slice": "go_sortslice", "sort.SliceStable": "go_sortslice",
	"runtime.KeepAlive": "go_nop2", "runtime.GC": "go_nop0",
	"verif/rt.tdName": "go_tdname", "verif/rt.tdKind": "go_tdkind", "verif/rt.tdElem": "go_tdelem", "verif/rt.tdSize": "go_tdsize", "verif/rt.tdESize": "go_tdesize", "verif/rt.dataPtr": "go_dataptr", "verif/rt.sameType": "go_sametype",
}

var u256C = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`NewInt Clear Set SetUint64 SetOne SetAllOne Add AddUint64 AddOverflow Sub SubUint64 SubOverflow Mul MulOverflow Div Mod SDiv SMod AddMod MulMod Exp Neg Abs Not And Or Xor
		Lsh Rsh SRsh Byte ExtendSign SignExtend Lt Gt Slt Sgt Eq Cmp CmpUint64 Scmp LtUint64 GtUint64 IsZero Sign IsUint64 Uint64 Uint64WithOverflow BitLen ByteLen SetBytes SetBytes20 SetBytes32 SetBytes8 SetBytes1 SetBytes2 SetBytes4 Bytes32 Bytes20 Bytes
		PutUint256 WriteToArray32 WriteToArray20 WriteToSlice Clone DivMod ISqrt IAdd`) {
		u256C[n] = true
	}
}

// arithmetic on amounts, proved for all operands by T02
var summTable = map[string]string{
	"github.com/Fantom-foundation/Tosca/go/tosca.Add": "go_amount_add", "github.com/Fantom-foundation/Tosca/go/tosca.Sub": "go_amount_sub", "(github.com/Fantom-foundation/Tosca/go/tosca.Value).Cmp": "go_amount_cmp",
}

func cname(f *ssa.Function) string {
	s := f.String()
	if n, ok := summTable[s]; ok && *fSumm && f.Synthetic == "" {
		return n
	}
	if n, ok := cTable[s]; ok {
		return n
	}
	if p := fnPkg(f); (p == "github.com/holiman/uint256") && f.Synthetic == "" && u256C[f.Name()] && f.Parent() == nil {
		return "u256_" + f.Name()
	}
	if fnPkg(f) == "verif/sym" && f.Synthetic == "" && f.Parent() == nil && f.Name() != "init" {
		return "go_sym_" + f.Name()
	}
	return ""
}

// cshim: the body of a function implemented in C
func (c *comp) cshim(f *ssa.Function, name string) (string, bool) {
	cn := cname(f)
	if cn == "" {
		return "", false
	}
	ret, sret := c.retType(f.Signature.Results())
	var ps, as, ds []string
	var body strings.Builder
	if sret {
		ps = append(ps, "ptr %ret")
	}
	cret := ret
	out := sret || strings.HasPrefix(ret, "{") && ret != "{ptr, i64}" && ret != "{ptr, ptr}"
	if out {
		cret = "void"
		ds = append(ds, "ptr")
		if sret {
			as = append(as, "ptr %ret")
		} else {
			fmt.Fprintf(&body, "  %%o = alloca %s\n", c.memRet(f))
			as = append(as, "ptr %o")
		}
	}
	for i, p := range f.Params {
		r := c.reg(p.Type())
		n := fmt.Sprintf("%%p%d", i)
		ps = append(ps, r+" "+n)
		if strings.HasPrefix(r, "{") {
			for k, et := range strings.Split(strings.Trim(r, "{}"), ", ") {
				fmt.Fprintf(&body, "  %s.%d = extractvalue %s %s, %d\n", n, k, r, n, k)
				as = append(as, fmt.Sprintf("%s %s.%d", et, n, k))
				ds = append(ds, et)
			}
		} else {
			as = append(as, r+" "+n)
			ds = append(ds, r)
		}
	}
	ps = append(ps, "ptr %ctx")
	c.extern(cn, fmt.Sprintf("declare %s @%s(%s)", cret, cn, strings.Join(ds, ", ")))
	s := fmt.Sprintf("define internal %s %s(%s) #0 {\n%s", ret, name, strings.Join(ps, ", "), body.String())
	switch {
	case cret == "void" && ret == "void":
		s += fmt.Sprintf("  call void @%s(%s)\n  ret void\n}\n", cn, strings.Join(as, ", "))
	case out:
		s += fmt.Sprintf("  call void @%s(%s)\n", cn, strings.Join(as, ", "))
		res := f.Signature.Results()
		if res.Len() == 1 {
			s += fmt.Sprintf("  %%x = load %s, ptr %%o\n  ret %s %%x\n}\n", ret, ret)
		} else { // tuple: memory image to value
			m := c.memRet(f)
			cur := "undef"
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				s += fmt.Sprintf("  %%q%d = getelementptr %s, ptr %%o, i32 0, i32 %d\n  %%v%d = load %s, ptr %%q%d\n", i, m, i, i, c.mem(t), i)
				v := fmt.Sprintf("%%v%d", i)
				if isBool(t) {
					s += fmt.Sprintf("  %%w%d = trunc i8 %s to i1\n", i, v)
					v = fmt.Sprintf("%%w%d", i)
				}
				s += fmt.Sprintf("  %%u%d = insertvalue %s %s, %s %s, %d\n", i, ret, cur, c.reg(t), v, i)
				cur = fmt.Sprintf("%%u%d", i)
			}
			s += fmt.Sprintf("  ret %s %s\n}\n", ret, cur)
		}
	default:
		s += fmt.Sprintf("  %%x = call %s @%s(%s)\n  ret %s %%x\n}\n", ret, cn, strings.Join(as, ", "), ret)
	}
	return s, true
}

func (c *comp) memRet(f *ssa.Function) string {
	res := f.Signature.Results()
	if res.Len() == 1 {
		return c.mem(res.At(0).Type())
	}
	return c.llt(res, true)
}

var inlineCalls = map[string]func(x *fc, cc *ssa.CallCommon) string{}

var _ = types.Typ
