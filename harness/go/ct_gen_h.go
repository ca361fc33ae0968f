package gen

import (
	"pgregory.net/rand"
	"verif/sym"
)

type number interface{ ~uint64 | ~int64 | ~uint8 | ~int8 }

// operations: 0 exclude, 1 equality, 2 lower boundary, 3 upper boundary; four per byte of the parameter
func opAt(i int) uint64 { return sym.Param("ops") >> (2 * i) & 3 }

func bit(c bool) uint64 {
	var r, one [1]byte
	one[0] = 1
	sym.Sel(c, r[:], one[:])
	return uint64(r[0])
}
func inside[T number](lo, x, hi T) uint64 { return bit(lo <= x) & bit(x <= hi) }

// allowed: x lies between the limits and satisfies the first n constraints
func allowed[T number](val func(name string, i uint64) T, x T, n int) uint64 {
	r := inside(val("min", 0), x, val("max", 0))
	for i := 0; i < n; i++ {
		a := val("a", uint64(i))
		switch opAt(i) {
		case 0:
			r &= 1 ^ inside(a, x, val("b", uint64(i)))
		case 1:
			r &= bit(x == a)
		case 2:
			r &= bit(x >= a)
		case 3:
			r &= bit(x <= a)
		}
	}
	return r
}
func runInterval[T number](val func(name string, i uint64) T) {
	n := int(sym.Param("n"))
	s := NewIntervalSolver(val("min", 0), val("max", 0))
	var prev *IntervalSolver[T]
	for i := 0; i < n; i++ {
		if i == n-1 {
			prev = s.Clone()
			sym.Check(prev.Equals(s), "a copy equals its original")
		}
		a := val("a", uint64(i))
		switch opAt(i) {
		case 0:
			s.Exclude(a, val("b", uint64(i)))
		case 1:
			s.AddEqualityConstraint(a)
		case 2:
			s.AddLowerBoundary(a)
		case 3:
			s.AddUpperBoundary(a)
		}
	}
	q := val("q", 0)
	want := allowed(val, q, n)
	if !s.IsSatisfiable() {
		sym.Check(want == 0, "unsatisfiable only when no value remains")
		sym.Check(!s.Contains(q), "contains nothing when unsatisfiable")
		_, err := s.Generate(&rand.Rand{})
		sym.Check(err != nil, "nothing is generated when unsatisfiable")
		return
	}
	if sym.Param("generate") != 0 {
		x, err := s.Generate(&rand.Rand{})
		sym.Check(err == nil, "a value is generated when satisfiable")
		sym.Check(allowed(val, x, n) == 1, "the generated value satisfies the constraints")
		return
	}
	sym.Check(bit(s.Contains(q)) == want, "contains exactly the values that satisfy the constraints")
	if n > 0 {
		sym.Check(bit(prev.Contains(q)) == allowed(val, q, n-1), "a copy does not change with its original")
	}
	// the first and the last value of every interval remain
	for i := range s.intervals {
		sym.Check(allowed(val, s.intervals[i].low, n)&allowed(val, s.intervals[i].high, n) == 1, "satisfiable only when a value remains")
	}
}

func runRange[T number](val func(name string, i uint64) T) {
	n := int(sym.Param("n"))
	lo, hi := val("min", 0), val("max", 0)
	s := NewRangeSolver(lo, hi)
	first := s.Clone()
	l, h := lo, hi
	for i := 0; i < n; i++ {
		a := val("a", uint64(i))
		switch opAt(i) {
		case 1:
			s.AddEqualityConstraint(a)
			l, h = max(l, a), min(h, a)
		case 2:
			s.AddLowerBoundary(a)
			l = max(l, a)
		case 3:
			s.AddUpperBoundary(a)
			h = min(h, a)
		}
	}
	sym.Check(s.GetMin() == l && s.GetMax() == h, "limits")
	sym.Check(first.GetMin() == lo && first.GetMax() == hi, "a copy does not change with its original")
	sym.Check(s.IsSatisfiable() == (l <= h), "satisfiable exactly when a value remains")
	x, err := s.Generate(&rand.Rand{})
	sym.Check((err == nil) == (l <= h), "a value is generated exactly when one remains")
	if err == nil {
		sym.Check(l <= x && x <= h, "the generated value satisfies the constraints")
	}
	s.Restore(first)
	sym.Check(s.GetMin() == lo && s.GetMax() == hi, "restored")
	s.AddUpperBoundary(l)
	sym.Check(first.GetMax() == hi, "a backup does not change after being restored")
}
func u64At(name string, i uint64) uint64 {
	switch name {
	case "min":
		return sym.U64("min")
	case "max":
		return sym.U64("max")
	case "q":
		return sym.U64("q")
	case "a":
		return sym.U64I("a", i)
	}
	return sym.U64I("b", i)
}
func H_solver() {
	u64 := func(n string, i uint64) uint64 {
		v := u64At(n, i)
		if sym.Param("near") != 0 {
			sym.Assume(v+8 < 16)
		}
		return v
	}
	i64 := func(n string, i uint64) int64 { return int64(u64(n, i) + 1<<63) }
	// sums of sizes are hard to decide: small types may keep to values near the ends of their range
	near := func(b uint8) uint8 {
		if sym.Param("near") != 0 {
			sym.Assume(b+8 < 16)
		}
		return b
	}
	u8 := func(n string, i uint64) uint8 { return near(uint8(u64At(n, i))) }
	i8 := func(n string, i uint64) int8 { return int8(near(uint8(u64At(n, i))) + 128) }
	switch sym.Param("type") {
	case 0:
		runInterval[uint64](u64)
	case 1:
		runInterval[int64](i64)
	case 2:
		runInterval[uint8](u8)
	case 3:
		runInterval[int8](i8)
	case 4:
		runRange[uint64](u64)
	case 5:
		runRange[int64](i64)
	case 6:
		runRange[uint8](u8)
	case 7:
		runRange[int8](i8)
	}
}
