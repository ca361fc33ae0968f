NA_DEFAULT = 'Not decided yet: the symbolic encoding of this part (Go or Rust) is still being built.'

T_GO = 'bounded symbolic execution of the Go SSA lowered to LLVM IR with SMT (z3), counterexamples replayed on the Go build'
def go(p, note): claimed[p] = (T_GO, note)
go('T01', 'Every byte value decided symbolically against an independently written instruction table.')
go('T02', 'Unbounded in the operands: every operation is compared with 256-bit arithmetic for all values.')
go('T03', 'Unbounded: all storage value triples and sizes.')
go('T04', 'Serialisation for all values; parsing of malformed text bounded to windows of arbitrary characters in texts of relevant lengths.')
for _k in range(1, 9):
    go('L%02d' % _k, 'The %s of single instructions of lfvm (and, for L08, of a catalogue of small programs) is compared with the same independently written EVM definition as evmzero for all symbolic inputs within the stated bounds; trusts that definition, the Go lowering (cross-checked by native path witnesses) and the stand-ins for absent modules.' % EV[_k])
go('L09', 'Whole runs over concrete instruction layouts with symbolic immediates, stack words, gas and inputs are compared between configurations, with single stepping and with expected results; layouts outside the catalogue are not covered.')
go('L10', 'Cache histories bounded (4 to 6 look-ups, capacities up to 4, keys of 16 arbitrary bits, up to 3 look-ups of another thread inside a hash computation); for concurrency, every symbolic path is checked for accesses to shared data outside the lock (lock-set argument, confirmed on a race-detector build), which covers any number of threads.')

go('S01', 'Unbounded in the operands for all operations (products, quotients and remainders of symbolic operands by abstraction with axioms, refined to exact arithmetic for refutations); text of arbitrary values, malformed text bounded to windows of arbitrary characters.')
go('S02', 'Bounded in the number of constraints (up to 3) over all 64-bit values for signed and unsigned domains of 64 and 8 bits; generated values for all random numbers.')
go('S03', 'Bounded to one change (to an arbitrary value) of a state with content in every component; map keys range over 256 values.')
go('A01', 'Unbounded in arguments, answers, gas amounts, revisions and status codes; data lengths, stacks and memories bounded; the C and cgo layers of the EVMC bindings are absent and assumed to hand over requests unchanged.')
go('A02', 'Unbounded in arguments, answers, gas amounts below 2^62 and depths; one nested call per execution, data lengths bounded; go-ethereum is absent and represented by a model (journaled refund counter, nested contracts run through the adapter, precompiled contracts paid from the gas they are given).')
go('S04', 'Prices for all 256-bit offsets and sizes; contents bounded in memory size, code length and stack height (see the bounds in the evidence).')

_f = ' Decided over the real processor on a model of the world state with arbitrary contents and a scripted interpreter with arbitrary results; products and quotients are uninterpreted functions in whole transactions (quotients by constants exact), so what is shown holds for all prices and limits; refutations compute them and are replayed.'
go('F01', 'Bounded in the input bytes (4 arbitrary ones) and access list entries (3).' + _f)
go('F02', 'Bounded in the interpreter outputs (lengths around the limits) and in the effects of the executed code.' + _f)
go('F03', 'Bounded to one call that executes code calling at most once more.' + _f)
go('F04', 'Bounded to one call that executes code calling at most once more; all depths.' + _f)
go('F05', 'Bounded to inputs of 0 to 5 bytes and the relevant argument lengths of every method.' + _f)
go('F06', 'Prices and results of the precompiled contracts are uninterpreted functions of the input (the contracts themselves belong to go-ethereum); inputs of up to 2 bytes (thorough: 40).' + _f)
go('F07', 'Bounded to access lists of up to 3 entries with up to 2 keys.' + _f)
for _k in range(1, 9):
    NA['R%02d' % _k] = 'evmrs cannot be compiled here: the crates bnum, ethnum and sha3 and the evmc-vm forks are neither vendored nor in the offline cargo cache (and hold its 256-bit arithmetic and host interface), so neither Kani nor rustc yields code to execute symbolically.'
NA['S05'] = 'The rules are closures over generated states with random parameters; deciding coverage and agreement needs the rule conditions over whole states as logic, for which the real code (generators and string-keyed constraints) is out of reach of the encoding; enumerating generated states is not this technique.'
