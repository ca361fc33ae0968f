package rt

import (
	"errors"
	"regexp"
)

// ---- encoding/json, for strings
func JSONMarshal(v any) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		panic("json.Marshal of a value other than a string")
	}
	out := make([]byte, 0, len(s)+2)
	out = append(out, '"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', digits[c>>4], digits[c&15])
		case c >= 0x80:
			panic("json.Marshal of a non-ASCII string")
		default:
			out = append(out, c)
		}
	}
	return append(out, '"'), nil
}

var errJSON = errors.New("invalid JSON")

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func JSONUnmarshal(data []byte, v any) error {
	p, ok := v.(*string)
	if !ok {
		panic("json.Unmarshal into something other than a string")
	}
	i, n := 0, len(data)
	for i < n && isSpace(data[i]) {
		i++
	}
	for n > i && isSpace(data[n-1]) {
		n--
	}
	if n-i < 2 || data[i] != '"' {
		if n-i == 4 && string(data[i:n]) == "null" {
			return nil
		}
		return errJSON
	}
	out := make([]byte, 0, n)
	for i++; ; i++ {
		if i >= n {
			return errJSON
		}
		c := data[i]
		if c == '"' {
			break
		}
		if c < 0x20 {
			return errJSON
		}
		if c >= 0x80 {
			panic("json.Unmarshal of a non-ASCII string")
		}
		if c == '\\' {
			i++
			if i >= n {
				return errJSON
			}
			switch data[i] {
			case '"', '\\', '/':
				c = data[i]
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			case 'u':
				panic("json.Unmarshal of an escaped code point")
			default:
				return errJSON
			}
		}
		out = append(out, c)
	}
	if i != n-1 {
		return errJSON
	}
	*p = string(out)
	return nil
}

// ---- regexp: literals, escapes, classes, groups, alternation, * + ?, ^ $ (leftmost-first)
type reNode struct {
	kind byte // 'c' set, '(' group, '|' alternatives, '.' sequence, '*' repeat, '^', '$'
	set  *[256]bool
	sub  []*reNode
	cap  int
	min  int
	max  int
	lazy bool
}
type reProg struct {
	root *reNode
	caps int
	src  string
}

var regexps map[*regexp.Regexp]*reProg

type reParser struct {
	s    string
	i    int
	caps int
}

func ReMustCompile(s string) *regexp.Regexp {
	p := &reParser{s: s}
	n := p.alt()
	if p.i != len(s) {
		panic("regexp: unexpected )")
	}
	r := new(regexp.Regexp)
	if regexps == nil {
		regexps = map[*regexp.Regexp]*reProg{}
	}
	regexps[r] = &reProg{n, p.caps, s}
	return r
}
func ReCompile(s string) (*regexp.Regexp, error) { return ReMustCompile(s), nil }
func (p *reParser) alt() *reNode {
	r := &reNode{kind: '|'}
	for {
		seq := &reNode{kind: '.'}
		for p.i < len(p.s) && p.s[p.i] != '|' && p.s[p.i] != ')' {
			seq.sub = append(seq.sub, p.rep())
		}
		r.sub = append(r.sub, seq)
		if p.i >= len(p.s) || p.s[p.i] != '|' {
			return r
		}
		p.i++
	}
}
func (p *reParser) rep() *reNode {
	n := p.atom()
	for p.i < len(p.s) {
		r := &reNode{kind: '*', sub: []*reNode{n}, max: 1 << 30}
		switch p.s[p.i] {
		case '*':
		case '+':
			r.min = 1
		case '?':
			r.max = 1
		case '{':
			p.i++
			r.min = p.num()
			r.max = r.min
			if p.s[p.i] == ',' {
				p.i++
				r.max = 1 << 30
				if p.s[p.i] != '}' {
					r.max = p.num()
				}
			}
		default:
			return n
		}
		p.i++
		if p.i < len(p.s) && p.s[p.i] == '?' {
			r.lazy = true
			p.i++
		}
		n = r
	}
	return n
}
func (p *reParser) num() (r int) {
	for p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		r = r*10 + int(p.s[p.i]-'0')
		p.i++
	}
	return
}
func addRange(t *[256]bool, a, b byte) {
	for c := int(a); c <= int(b); c++ {
		t[c] = true
	}
}
func (p *reParser) escape(t *[256]bool) {
	c := p.s[p.i]
	p.i++
	var u [256]bool
	switch c {
	case 'd', 'D':
		addRange(&u, '0', '9')
	case 'w', 'W':
		addRange(&u, '0', '9')
		addRange(&u, 'a', 'z')
		addRange(&u, 'A', 'Z')
		u['_'] = true
	case 's', 'S':
		for _, x := range []byte("\t\n\f\r ") {
			u[x] = true
		}
	case 'n':
		u['\n'] = true
	case 't':
		u['\t'] = true
	case 'r':
		u['\r'] = true
	default:
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			panic("regexp: escape")
		}
		u[c] = true
	}
	neg := c == 'D' || c == 'W' || c == 'S'
	for i := range u {
		if u[i] != neg {
			t[i] = true
		}
	}
}
func (p *reParser) atom() *reNode {
	c := p.s[p.i]
	p.i++
	switch c {
	case '^':
		return &reNode{kind: '^'}
	case '$':
		return &reNode{kind: '$'}
	case '(':
		n := &reNode{kind: '('}
		if p.i+1 < len(p.s) && p.s[p.i] == '?' {
			if p.s[p.i+1] != ':' {
				panic("regexp: group")
			}
			p.i += 2
		} else {
			p.caps++
			n.cap = p.caps
		}
		n.sub = []*reNode{p.alt()}
		if p.i >= len(p.s) || p.s[p.i] != ')' {
			panic("regexp: missing )")
		}
		p.i++
		return n
	}
	t := new([256]bool)
	switch c {
	case '\\':
		if p.s[p.i] == 'A' || p.s[p.i] == 'z' {
			p.i++
			if p.s[p.i-1] == 'A' {
				return &reNode{kind: '^'}
			}
			return &reNode{kind: '$'}
		}
		p.escape(t)
	case '.':
		for i := range t {
			t[i] = i != '\n'
		}
	case '[':
		neg := p.s[p.i] == '^'
		if neg {
			p.i++
		}
		for first := true; first || p.s[p.i] != ']'; first = false {
			a := p.s[p.i]
			p.i++
			if a == '\\' {
				p.escape(t)
				continue
			}
			if a == '[' && p.s[p.i] == ':' {
				switch {
				case len(p.s) > p.i+9 && p.s[p.i:p.i+9] == ":xdigit:]":
					addRange(t, '0', '9')
					addRange(t, 'a', 'f')
					addRange(t, 'A', 'F')
					p.i += 9
				case len(p.s) > p.i+8 && p.s[p.i:p.i+8] == ":digit:]":
					addRange(t, '0', '9')
					p.i += 8
				default:
					panic("regexp: class")
				}
				continue
			}
			b := a
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				b = p.s[p.i+1]
				p.i += 2
			}
			addRange(t, a, b)
		}
		p.i++
		if neg {
			for i := range t {
				t[i] = !t[i]
			}
		}
	case '*', '+', '?':
		panic("regexp: repetition of nothing")
	default:
		t[c] = true
	}
	return &reNode{kind: 'c', set: t}
}

type reState struct {
	s   string
	cap []int
}

func (st *reState) match(n *reNode, i int, k func(int) bool) bool {
	switch n.kind {
	case 'c':
		return i < len(st.s) && n.set[st.s[i]] && k(i+1)
	case '^':
		return i == 0 && k(i)
	case '$':
		return i == len(st.s) && k(i)
	case '.':
		return st.seq(n.sub, i, k)
	case '|':
		for _, x := range n.sub {
			if st.match(x, i, k) {
				return true
			}
		}
		return false
	case '(':
		if n.cap == 0 {
			return st.match(n.sub[0], i, k)
		}
		a, b := st.cap[2*n.cap], st.cap[2*n.cap+1]
		if st.match(n.sub[0], i, func(j int) bool {
			x, y := st.cap[2*n.cap], st.cap[2*n.cap+1]
			st.cap[2*n.cap], st.cap[2*n.cap+1] = i, j
			if k(j) {
				return true
			}
			st.cap[2*n.cap], st.cap[2*n.cap+1] = x, y
			return false
		}) {
			return true
		}
		st.cap[2*n.cap], st.cap[2*n.cap+1] = a, b
		return false
	case '*':
		return st.repeat(n, n.min, n.max, i, k)
	}
	panic("regexp: node")
}
func (st *reState) seq(l []*reNode, i int, k func(int) bool) bool {
	if len(l) == 0 {
		return k(i)
	}
	return st.match(l[0], i, func(j int) bool { return st.seq(l[1:], j, k) })
}
func (st *reState) repeat(n *reNode, min, max, i int, k func(int) bool) bool {
	if min == 0 && n.lazy && k(i) {
		return true
	}
	if max > 0 && st.match(n.sub[0], i, func(j int) bool {
		if j == i && min <= 0 {
			return false
		}
		m := min
		if m > 0 {
			m--
		}
		return st.repeat(n, m, max-1, j, k)
	}) {
		return true
	}
	return min == 0 && !n.lazy && k(i)
}
func (p *reProg) find(s string, from int) []int {
	for i := from; i <= len(s); i++ {
		st := &reState{s: s, cap: make([]int, 2*p.caps+2)}
		for j := range st.cap {
			st.cap[j] = -1
		}
		st.cap[0] = i
		if st.match(p.root, i, func(j int) bool { st.cap[1] = j; return true }) {
			return st.cap
		}
	}
	return nil
}
func groups(s string, c []int) []string {
	r := make([]string, len(c)/2)
	for i := range r {
		if c[2*i] >= 0 {
			r[i] = s[c[2*i]:c[2*i+1]]
		}
	}
	return r
}
func ReFindStringSubmatch(re *regexp.Regexp, s string) []string {
	if c := regexps[re].find(s, 0); c != nil {
		return groups(s, c)
	}
	return nil
}
func ReFindSubmatch(re *regexp.Regexp, b []byte) (r [][]byte) {
	s := string(b)
	if c := regexps[re].find(s, 0); c != nil {
		for _, g := range groups(s, c) {
			r = append(r, []byte(g))
		}
	}
	return
}
func ReFindAllStringSubmatch(re *regexp.Regexp, s string, n int) (r [][]string) {
	if n < 0 {
		n = len(s) + 1
	}
	for at := 0; at <= len(s) && len(r) < n; {
		c := regexps[re].find(s, at)
		if c == nil {
			break
		}
		r = append(r, groups(s, c))
		at = c[1]
		if c[0] == c[1] {
			at++
		}
	}
	return
}
func ReMatchString(re *regexp.Regexp, s string) bool { return regexps[re].find(s, 0) != nil }
func ReMatch(re *regexp.Regexp, b []byte) bool       { return regexps[re].find(string(b), 0) != nil }
func ReFindString(re *regexp.Regexp, s string) string {
	if c := regexps[re].find(s, 0); c != nil {
		return s[c[0]:c[1]]
	}
	return ""
}
func ReString(re *regexp.Regexp) string { return regexps[re].src }
