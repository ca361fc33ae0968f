package tosca

import (
	"github.com/holiman/uint256"
	"verif/sym"
)

func wordOf(name string) (w Word) { sym.Bytes(w[:], name); return }
func valOf(name string) (w Value) { sym.Bytes(w[:], name); return }

// H_storage: classification of storage updates against the published table.
func H_storage() {
	o, c, n := wordOf("o"), wordOf("c"), wordOf("n")
	got := GetStorageStatus(o, c, n)
	z := Word{}
	want := StorageAssigned
	if c != n {
		if o == c {
			switch {
			case o == z:
				want = StorageAdded
			case n == z:
				want = StorageDeleted
			default:
				want = StorageModified
			}
		} else if o != z {
			switch {
			case c == z && n == o:
				want = StorageDeletedRestored
			case c == z:
				want = StorageDeletedAdded
			case n == z:
				want = StorageModifiedDeleted
			case n == o:
				want = StorageModifiedRestored
			}
		} else if n == z {
			want = StorageAddedDeleted
		}
	}
	sym.CheckU64(uint64(got), uint64(want), "storage status")
}

func H_words() {
	s := sym.U64("s")
	w := SizeInWords(s)
	lo, rem := s/32, s%32
	if rem != 0 {
		lo++
	}
	sym.CheckU64(w, lo, "size in words")
}

// H_statuses: the list of storage statuses is complete and has no duplicates; each prints under its own name.
func H_statuses() {
	l := GetAllStorageStatuses()
	x := StorageStatus(sym.U8("x"))
	n := 0
	for _, y := range l {
		if x == y {
			n++
		}
	}
	if x <= StorageModifiedRestored {
		sym.CheckU64(uint64(n), 1, "each status is listed once")
	} else {
		sym.CheckU64(uint64(n), 0, "only statuses are listed")
	}
}

// ---- values as 256-bit numbers (limb 0 is the least significant)
func lim(v Value, i int) (r uint64) {
	for k := 0; k < 8; k++ {
		r = r<<8 | uint64(v[24-8*i+k])
	}
	return
}
func eq4(v Value, w [4]uint64, label string) {
	d := uint64(0)
	for i := range w {
		d |= lim(v, i) ^ w[i]
	}
	sym.CheckU64(d, 0, label)
}
func big4(v Value) *uint256.Int { return &uint256.Int{lim(v, 0), lim(v, 1), lim(v, 2), lim(v, 3)} }
func H_add() {
	a, b := valOf("a"), valOf("b")
	x, y := big4(a), big4(b)
	eq4(Add(a, b), *new(uint256.Int).Add(x, y), "sum")
	eq4(Sub(a, b), *new(uint256.Int).Sub(x, y), "difference")
	c := a.Cmp(b)
	sym.Check((c < 0) == x.Lt(y) && (c > 0) == y.Lt(x) && (c == 0) == x.Eq(y), "comparison")
	sym.Check(c >= -1 && c <= 1, "comparison result")
}
func H_scale() {
	a := valOf("a")
	s := sym.U64("s")
	// (that the conversions keep the number is checked by H_newvalue)
sym.Check(a.Scale(s) == ValueFromUint256(new(uint256.Int).Mul(a.ToUint256(), new(uint256.Int).SetUint64(s))), "scaled value")
}
func H_newvalue() {
	n := int(sym.Param("n"))
	x := [4]uint64{sym.U64("x0"), sym.U64("x1"), sym.U64("x2"), sym.U64("x3")}
	var w [4]uint64
	for i := 0; i < n; i++ {
		w[n-1-i] = x[i]
	}
	v := NewValue(x[:n]...)
	eq4(v, w, "value from words")
	u := v.ToUint256()
	for i := range w {
		sym.CheckU64(u[i], w[i], "conversion to a 256-bit integer")
	}
	eq4(ValueFromUint256(u), w, "conversion from a 256-bit integer")
	eq4(ValueFromUint256(nil), [4]uint64{}, "conversion from nil")
	a := valOf("a")
	sym.Check(ValueFromUint256(a.ToUint256()) == a, "round trip")
}
func H_tobig() {
	a := valOf("a")
	b := a.ToBig()
	ws := b.Bits()
	var w [4]uint64
	for i := range ws {
		w[i] = uint64(ws[i])
	}
	sym.Check(len(ws) <= 4 && b.Sign() >= 0, "in range")
	eq4(a, w, "conversion to big")
}

// ---- texts
const hexd = "0123456789abcdef"

func H_text() {
	a := valOf("a")
	var ad Address
	sym.Bytes(ad[:], "ad")
	t, err := a.MarshalText()
	sym.Check(err == nil && len(t) == 66 && t[0] == '0' && t[1] == 'x', "value text")
	ok := true
	for i := range a {
		ok = ok && t[2+2*i] == hexd[a[i]>>4] && t[3+2*i] == hexd[a[i]&15]
	}
	sym.Check(ok, "value text is its hex form")
	var b Value
	err = b.UnmarshalText(t)
	sym.Check(err == nil, "text of a value is accepted")
	sym.Check(a == b, "value round trip")
	t, err = ad.MarshalText()
	sym.Check(err == nil && len(t) == 42 && t[0] == '0' && t[1] == 'x', "address text")
	ok = true
	for i := range ad {
		ok = ok && t[2+2*i] == hexd[ad[i]>>4] && t[3+2*i] == hexd[ad[i]&15]
	}
	sym.Check(ok, "address text is its hex form")
	sym.Check(ad.String() == string(t), "address prints as its text")
	var bd Address
	err = bd.UnmarshalText(t)
	sym.Check(err == nil, "text of an address is accepted")
	sym.Check(ad == bd, "address round trip")
}
func nib(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// H_parse: any text of the given length; a window of it is symbolic, the rest are digits
func H_parse() {
	n, at, w := int(sym.Param("len")), int(sym.Param("at")), int(sym.Param("win"))
	size := int(sym.Param("size"))
	t := make([]byte, n)
	for i := range t {
		t[i] = hexd[i&15]
	}
	if n > 1 {
		t[0], t[1] = '0', 'x'
	}
	for i := at; i < at+w && i < n; i++ {
		t[i] = sym.U8I("t", uint64(i))
	}
	want := n == 2+2*size && t[0] == '0' && t[1] == 'x'
	for i := 2; want && i < n; i++ {
		want = nib(t[i]) >= 0
	}
	var err error
	var got []byte
	if size == 20 {
		a := Address{1, 2, 3}
		err = a.UnmarshalText(t)
		got = a[:]
	} else {
		a := Value{1, 2, 3}
		err = a.UnmarshalText(t)
		got = a[:]
	}
	if !want {
		sym.Check(err != nil, "malformed text is rejected")
		return
	}
	sym.Check(err == nil, "well-formed text is accepted")
	for i := range got {
		sym.CheckU64(uint64(got[i]), uint64(nib(t[2+2*i])<<4|nib(t[3+2*i])), "parsed byte")
	}
}

var revNames = []string{"Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun"}
var kindNames = []string{"call", "delegate_call", "static_call", "call_code", "create", "create2"}
var kinds = []CallKind{Call, DelegateCall, StaticCall, CallCode, Create, Create2}

func H_revision() {
	r := Revision(sym.U64("r"))
	sym.Assume(r >= 0 && r < 1200)
	t, err := r.MarshalJSON()
	sym.Check(err == nil, "revisions can be serialised")
	if r < Revision(len(revNames)) {
		sym.Check(string(t) == `"`+revNames[r]+`"`, "revision name")
	}
	b := Revision(-7)
	err = b.UnmarshalJSON(t)
	sym.Check(err == nil, "text of a revision is accepted")
	sym.Check(b == r, "revision round trip")
	known := GetAllKnownRevisions()
	sym.CheckU64(uint64(len(known)), uint64(len(revNames)), "known revisions")
	for i, k := range known {
		sym.Check(k == Revision(i), "known revision")
	}
}
func isName(s []byte, names []string, fold bool) int {
	for k, n := range names {
		if len(s) != len(n) {
			continue
		}
		ok := true
		for i := range s {
			c := s[i]
			if fold && c >= 'A' && c <= 'Z' {
				c += 32
			}
			ok = ok && c == n[i]
		}
		if ok {
			return k
		}
	}
	return -1
}

// H_revparse: texts of up to 20 bytes around the two accepted forms
func H_revparse() {
	base := []string{"Revision(12)", "xRevision(3)", "Revision(3)x", "Revision()", "Revision(1", "evision(1)", "", "Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun", "Cancun1", " London", "Parisx", "Revision(-1)", "3", "Revision(1)Revision(2)"}[sym.Param("base")]
	s := []byte(base)
	at, w := int(sym.Param("at")), int(sym.Param("win"))
	for i := at; i < at+w && i < len(s); i++ {
		s[i] = sym.U8I("t", uint64(i))
		sym.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\' && s[i] != '<' && s[i] != '>' && s[i] != '&')
	}
	want := isName(s, revNames, false)
	if want < 0 && len(s) > 10 && string(s[:9]) == "Revision(" && s[len(s)-1] == ')' {
		want = 0
		for _, c := range s[9 : len(s)-1] {
			if c < '0' || c > '9' {
				want = -1
				break
			}
			want = want*10 + int(c-'0')
		}
	}
	r := Revision(-7)
	err := r.UnmarshalJSON([]byte(`"` + string(s) + `"`))
	if want < 0 {
		sym.Check(err != nil, "unknown revision is rejected")
		return
	}
	sym.Check(err == nil, "known revision is accepted")
	sym.Check(int(r) == want, "parsed revision")
}
func H_kind() {
	k := CallKind(sym.U64("k"))
	known := false
	idx := 0
	for i, x := range kinds {
		if x == k {
			known = true
			idx = i
		}
	}
	t, err := k.MarshalJSON()
	if !known {
		sym.Check(err != nil, "unknown call kind is not serialised")
		return
	}
	sym.Check(err == nil, "call kind is serialised")
	sym.Check(string(t) == `"`+kindNames[idx]+`"`, "call kind name")
	b := CallKind(77)
	err = b.UnmarshalJSON(t)
	sym.Check(err == nil && b == k, "call kind round trip")
}
func H_kindparse() {
	base := append([]string{"", "cal", "calls", "xcall", "createx", "create3", "unknown"}, kindNames...)[sym.Param("base")]
	s := []byte(base)
	at, w := int(sym.Param("at")), int(sym.Param("win"))
	for i := at; i < at+w && i < len(s); i++ {
		s[i] = sym.U8I("t", uint64(i))
		sym.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
	want := isName(s, kindNames, true)
	k := CallKind(77)
	err := k.UnmarshalJSON([]byte(`"` + string(s) + `"`))
	if want < 0 {
		sym.Check(err != nil, "unknown call kind is rejected")
		return
	}
	sym.Check(err == nil, "known call kind is accepted")
	sym.Check(k == kinds[want], "parsed call kind")
}

// H_json: texts that are not a JSON string
func H_json() {
	n := int(sym.Param("len"))
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.U8I("t", uint64(i))
		sym.Assume(b[i] < 0x80)
	}
	sym.Assume(n == 0 || b[0] != '"' && b[0] != ' ' && b[0] != '\t' && b[0] != '\n' && b[0] != '\r')
	sym.Assume(n != 4 || string(b) != "null")
	k, r := CallKind(77), Revision(77)
	sym.Check(k.UnmarshalJSON(b) != nil, "not a JSON string (call kind)")
	sym.Check(r.UnmarshalJSON(b) != nil, "not a JSON string (revision)")
}
