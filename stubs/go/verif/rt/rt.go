// Package rt holds Go replacements for library functions in the symbolic build.
package rt

import (
	"io"
	"sync"
	"unsafe"
)

var pools map[*sync.Pool][]any

func PoolGet(p *sync.Pool) any {
	if l := pools[p]; len(l) > 0 {
		v := l[len(l)-1]
		pools[p] = l[:len(l)-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func PoolPut(p *sync.Pool, v any) {
	if pools == nil {
		pools = map[*sync.Pool][]any{}
	}
	pools[p] = append(pools[p], v)
}

var onces map[*sync.Once]bool

func OnceDo(o *sync.Once, f func()) {
	if onces[o] {
		return
	}
	if onces == nil {
		onces = map[*sync.Once]bool{}
	}
	onces[o] = true
	f()
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

// ---- opaque messages
type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func OErrorf(format string, args ...any) error {
	for _, a := range args {
		if e, ok := a.(error); ok && containsW(format) {
			return &wrapError{format, e}
		}
	}
	return &wrapError{format, nil}
}
func containsW(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' && s[i+1] == 'w' {
			return true
		}
	}
	return false
}
func OSprintf(format string, args ...any) string                     { return format }
func OSprint(args ...any) string                                     { return "?" }
func OSprintln(args ...any) string                                   { return "?\n" }
func OPrintf(format string, args ...any) (int, error)                { return 0, nil }
func OPrintln(args ...any) (int, error)                              { return 0, nil }
func OFprintf(w io.Writer, format string, args ...any) (int, error)  { return 0, nil }
func OFprintln(w io.Writer, args ...any) (int, error)                { return 0, nil }

// ---- formatted messages
func tdName(v any) string
func tdKind(v any) int
func tdElem(v any) int
func tdSize(v any) int
func tdESize(v any) int
func dataPtr(v any) unsafe.Pointer
func sameType(a, b any) bool

func FErrorf(format string, args ...any) error {
	m := FSprintf(format, args...)
	for _, a := range args {
		if e, ok := a.(error); ok && containsW(format) {
			return &wrapError{m, e}
		}
	}
	return &wrapError{m, nil}
}
func FSprint(args ...any) string {
	r := ""
	for _, a := range args {
		r += str(a, 'v', false)
	}
	return r
}
func FSprintln(args ...any) string {
	r := ""
	for i, a := range args {
		if i > 0 {
			r += " "
		}
		r += str(a, 'v', false)
	}
	return r + "\n"
}
func FPrintf(format string, args ...any) (int, error)               { return 0, nil }
func FPrintln(args ...any) (int, error)                             { return 0, nil }
func FFprintf(w io.Writer, format string, args ...any) (int, error) { return w.Write([]byte(FSprintf(format, args...))) }
func FFprintln(w io.Writer, args ...any) (int, error)               { return w.Write([]byte(FSprintln(args...))) }

func FSprintf(format string, args ...any) string {
	out := make([]byte, 0, 64)
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		zero, width, prec, left, plus, sharp := false, 0, -1, false, false, false
		for i < len(format) && (format[i] == '0' || format[i] == '-' || format[i] == '+' || format[i] == '#' || format[i] == ' ') {
			switch format[i] {
			case '0':
				zero = true
			case '-':
				left = true
			case '+':
				plus = true
			case '#':
				sharp = true
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if k >= len(args) {
			out = append(out, "%!"...)
			out = append(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		if zero && !sharp && width == 16 && (verb == 'x' || verb == 'X') { // all digits of a 64-bit number
			if kd := tdKind(args[k]); kd == 7 || kd == 11 {
				u, d := *(*uint64)(dataPtr(args[k])), digits
				if verb == 'X' {
					d = upper
				}
				for j := 60; j >= 0; j -= 4 {
					out = append(out, d[u>>uint(j)&15])
				}
				k++
				continue
			}
		}
		s := str(args[k], verb, sharp)
		_ = plus
		_ = prec
		k++
		if !left {
			for n := len(s); n < width; n++ {
				if zero {
					out = append(out, '0')
				} else {
					out = append(out, ' ')
				}
			}
		}
		out = append(out, s...)
		if left {
			for n := len(s); n < width; n++ {
				out = append(out, ' ')
			}
		}
	}
	return string(out)
}

const digits = "0123456789abcdef"
const upper = "0123456789ABCDEF"

func hexBytes(p unsafe.Pointer, n int, d string) string {
	b := make([]byte, 0, 2*n)
	for i := 0; i < n; i++ {
		c := *(*byte)(unsafe.Add(p, i))
		b = append(b, d[c>>4], d[c&15])
	}
	return string(b)
}

func uintStr(u uint64, base uint64, d string) string {
	var b [64]byte
	i := len(b)
	for {
		i--
		if base == 16 {
			b[i] = d[u&15]
			u >>= 4
		} else {
			b[i] = d[u%base]
			u /= base
		}
		if u == 0 {
			break
		}
	}
	return string(b[i:])
}

type stringer interface{ String() string }

func str(a any, verb byte, sharp bool) string {
	kind := tdKind(a)
	p := dataPtr(a)
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if e, ok := a.(error); ok {
			return e.Error()
		}
		if s, ok := a.(stringer); ok {
			return s.String()
		}
	}
	if verb == 'T' {
		return tdName(a)
	}
	d := digits
	if verb == 'X' {
		d = upper
	}
	base := uint64(10)
	if verb == 'x' || verb == 'X' {
		base = 16
	}
	if verb == 'b' {
		base = 2
	}
	pre := ""
	if sharp && base == 16 {
		pre = "0x"
	}
	var i int64
	var u uint64
	switch kind {
	case 0:
		return "<nil>"
	case 1:
		if *(*bool)(p) {
			return "true"
		}
		return "false"
	case 2, 6:
		i = *(*int64)(p)
	case 3:
		i = int64(*(*int8)(p))
	case 4:
		i = int64(*(*int16)(p))
	case 5:
		i = int64(*(*int32)(p))
	case 7, 11, 12:
		u = *(*uint64)(p)
	case 8:
		u = uint64(*(*uint8)(p))
	case 9:
		u = uint64(*(*uint16)(p))
	case 10:
		u = uint64(*(*uint32)(p))
	case 24:
		s := *(*string)(p)
		if base == 16 {
			return pre + hexBytes(unsafe.Pointer(unsafe.StringData(s)), len(s), d)
		}
		if verb == 'q' {
			return "\"" + s + "\""
		}
		return s
	case 17, 23:
		if tdElem(a) == 8 {
			n := tdSize(a)
			if kind == 23 {
				s := *(*[]byte)(p)
				n = len(s)
				p = unsafe.Pointer(unsafe.SliceData(s))
			}
			if base == 16 {
				return pre + hexBytes(p, n, d)
			}
			if verb == 's' {
				return string(unsafe.Slice((*byte)(p), n))
			}
			r := "["
			for k := 0; k < n; k++ {
				if k > 0 {
					r += " "
				}
				r += uintStr(uint64(*(*byte)(unsafe.Add(p, k))), 10, d)
			}
			return r + "]"
		}
		return tdName(a)
	default:
		return tdName(a)
	}
	if kind <= 6 {
		if i < 0 {
			return "-" + pre + uintStr(uint64(-i), base, d)
		}
		return pre + uintStr(uint64(i), base, d)
	}
	return pre + uintStr(u, base, d)
}
