"""Decode LLVM IR function bodies into lists of Python closures."""
import re
from llir import *
from llsym import *
import llsym
from sym import *
import sym

LBL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')

class Ctx:
    pass

def parse_header(eng, f):
    line = f.params
    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
    pre = line[len('define '):m.start()]
    # return type: last type before the name
    toks = tokenize(pre)
    skip = {'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'linkonce', 'dso_local', 'hidden', 'protected', 'available_externally',
            'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'coldcc', 'external', 'dso_preemptable', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc','comdat'}
    toks = [t for t in toks if t not in skip]
    p = P(toks, eng.m)
    p.skip_attrs()
    f.rty = p.type()
    # params
    rest = line[m.end() - 1:]
    p = P(tokenize(rest), eng.m)
    p.expect('(')
    params = []; byval = []
    f.vararg = False
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True; p.expect(')'); break
            t = p.type()
            # attributes, watch byval
            j = p.i
            depth = 0
            bv_t = None
            while True:
                x = p.peek()
                if x in (',', ')') and depth == 0: break
                if x[0] == '%' and depth == 0: break
                if x == 'byval':
                    p.next(); p.expect('('); bv_t = p.type(); p.expect(')'); continue
                if x == '(': depth += 1
                if x == ')': depth -= 1
                p.next()
            name = None
            if p.peek()[0] == '%': name = p.next()
            params.append((t, name))
            if bv_t is not None: byval.append((len(params) - 1, ty_size(bv_t)))
            if p.accept(')'): break
            p.expect(',')
    return params, byval

def decode_function(eng, f):
    params, byval = parse_header(eng, f)
    cx = Ctx()
    cx.eng = eng; cx.f = f
    regix = {}; proto = []
    def reg(name):
        i = regix.get(name)
        if i is None:
            i = regix[name] = len(proto); proto.append(None)
        return i
    cx.reg = reg
    def konst(v):
        proto.append(v); return len(proto) - 1
    cx.konst = konst
    n = 0
    for t, name in params:
        if name is None: name = '%' + str(n)
        if name[1:].isdigit(): n = int(name[1:]) + 1
        reg(name)
    nparams = len(params)
    # split blocks
    blocks = []; labels = {}
    cur = None; first = True
    lines = f.lines
    i = 0; L = len(lines)
    while i < L:
        line = lines[i]; i += 1
        if not line or line.startswith(';'): continue
        m = LBL.match(line)
        if m and not line.startswith(' '):
            labels['%' + m.group(1)] = len(blocks)
            cur = []; blocks.append(cur); continue
        if cur is None:
            labels['%' + str(n)] = 0
            cur = []; blocks.append(cur)
        s = line.strip()
        # switch / invoke spanning lines
        if s.startswith('switch ') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip(); i += 1
            s += ' ]'; i += 1
        if (' = landingpad' in s) :
            while i < L and lines[i].strip().startswith(('catch', 'cleanup', 'filter')):
                i += 1
        if ('invoke ' in s) and i < L and lines[i].strip().startswith('to label'):
            s += ' ' + lines[i].strip(); i += 1
        cur.append(s)
    cx.labels = labels
    cx.phis = {}
    d = Decoded()
    d.labels = labels
    d.nparams = nparams
    d.byval = byval
    d.blocks = [None] * len(blocks)
    # first pass: phis
    parsed = []
    for bi, b in enumerate(blocks):
        phis = []; body = []
        for s in b:
            m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = phi ', s)
            if m:
                p = P(tokenize(cut_meta(s[m.end():])), eng.m)
                p.skip_attrs()
                t = p.type()
                inc = []
                while True:
                    p.expect('[')
                    v = p.value(t); p.expect(','); lb = p.next(); p.expect(']')
                    inc.append((unq(lb), v))
                    if not p.accept(','): break
                phis.append((m.group(1), t, inc))
            else: body.append(s)
        parsed.append((phis, body))
    cx.parsed = parsed
    cx.opnd = lambda t, c: operand(cx, t, c)
    # phi tables: for target block: {pred: (dsts, srcs)}
    cx.phitab = []
    for phis, _ in parsed:
        if not phis: cx.phitab.append(None); continue
        tab = {}
        dsts = [reg(unqr(nm)) for nm, t, inc in phis]
        preds = [lb for lb, _ in phis[0][2]]
        for nm, t, inc in phis:
            for lb, v in inc:
                tab.setdefault(labels[lb], []).append(operand(cx, t, v))
        # duplicate incoming edges (switch) collapse
        tab = {k: (dsts, v[:len(dsts)] if len(v) == len(dsts) else dedupe(phis, labels, k, cx)) for k, v in tab.items()}
        cx.phitab.append(tab)
    for bi, (phis, body) in enumerate(parsed):
        ops = []
        cx.bi = bi
        for s in body:
            decode_inst(cx, s, ops, d)
        d.blocks[bi] = ops
    d.proto = proto
    f.decoded = d
    eng.funcs_run.add(f.name)
    STATS.funcs.add(f.name)
    return d

def dedupe(phis, labels, k, cx):
    out = []
    for nm, t, inc in phis:
        for lb, v in inc:
            if labels[lb] == k:
                out.append(operand(cx, t, v)); break
    return out

def unq(l):
    return l

def unqr(n): return n

def cut_meta(s):
    # drop trailing metadata attachments ", !tbaa !5 ..."
    i = s.find(', !')
    while i >= 0:
        # not inside a call's metadata argument
        if re.match(r', !(?:[a-zA-Z_.]+) ![0-9]', s[i:]) or re.match(r', !(?:srcloc|nosanitize|noundef|nonnull|range|tbaa|prof|llvm)', s[i:]):
            return s[:i]
        i = s.find(', !', i + 1)
    return s

def operand(cx, t, c):
    if c.k == 'loc': return cx.reg(c.v)
    return cx.konst(cx.eng.constant(c, t))

def goto(cx, label):
    """returns fn(st, fr, regs) performing the jump to label"""
    bi = cx.bi; tgt = cx.labels[label]
    tab = cx.phitab[tgt]
    blocks = cx.d.blocks
    if tab is None:
        def go(st, fr, regs):
            fr.code = blocks[tgt]; fr.ip = 0
            return 1
        return go
    dsts, srcs = tab[bi]
    if len(dsts) == 1:
        d0 = dsts[0]; s0 = srcs[0]
        def go(st, fr, regs):
            regs[d0] = regs[s0]
            fr.code = blocks[tgt]; fr.ip = 0
            return 1
        return go
    def go(st, fr, regs):
        vals = [regs[s] for s in srcs]
        for d, v in zip(dsts, vals): regs[d] = v
        fr.code = blocks[tgt]; fr.ip = 0
        return 1
    return go

INST = re.compile(r'^(?:(%"[^"]*"|%[-a-zA-Z$._0-9]+) = )?(?:(tail|musttail|notail) )?([a-z_0-9]+)\b ?(.*)$')

def decode_inst(cx, s, ops, d):
    eng = cx.eng; cx.d = d
    m = INST.match(s)
    if not m: raise SyntaxError(s)
    dstn, _, op, rest = m.groups()
    dst = cx.reg(dstn) if dstn else None
    try:
        h = OPS.get(op)
        if h is None:
            raise Unsupported('instruction ' + op)
        p = P(tokenize(cut_meta(rest)), eng.m)
        fn = h(cx, p, dst, op, ops)
    except Unsupported as e:
        msg = '%s: %s' % (e, s[:200])
        def fn(st, fr, regs, msg=msg): raise Unsupported(msg)
    if fn is not None: ops.append(fn)

def vecmap(fn, t):
    return fn

def h_bin(cx, p, dst, op, ops):
    p.skip_attrs()
    t = p.type()
    a = cx.opnd(t, p.value(t)); p.expect(','); b = cx.opnd(t, p.value(t))
    if t.k == 'vec':
        w = t.elem.n; f = BINOPS[op]
        def go(st, fr, regs):
            regs[dst] = tuple(simp(f(x, y, w)) for x, y in zip(regs[a], regs[b]))
        return go
    if t.k != 'int': raise Unsupported('fp binop')
    w = t.n
    f = BINOPS[op]
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        def go(st, fr, regs):
            x = regs[a]; y = regs[b]
            if isinstance(x, PtrBase): x = x.num()
            if not st.decide(bnot(eq(y, 0, w))): raise PathEnd('ub', 'division by zero')
            regs[dst] = simp(f(x, y, w))
        return go
    if op in ('shl', 'lshr', 'ashr'):
        def go(st, fr, regs):
            x = regs[a]; y = regs[b]
            if isinstance(x, PtrBase): x = x.num()
            if isinstance(y, PtrBase): y = y.num()
            regs[dst] = f(x, y, w) if type(x) is int and type(y) is int else simp(f(x, y, w))
        return go
    def go(st, fr, regs):
        x = regs[a]; y = regs[b]
        if type(x) is int and type(y) is int:
            regs[dst] = f(x, y, w); return
        if isinstance(x, PtrBase) or isinstance(y, PtrBase):
            regs[dst] = ptr_bin(op, x, y, w); return
        regs[dst] = simp(f(x, y, w))
    return go

def simp(e):
    if type(e) is int or isinstance(e, PtrBase): return e
    return norm(e)

def h_fbin(cx, p, dst, op, ops):
    def go(st, fr, regs): regs[dst] = ('f', 0)
    return go

def h_cast(cx, p, dst, op, ops):
    p.skip_attrs()
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect('to'); t2 = p.type()
    if t.k == 'vec' or t2.k == 'vec':
        if op == 'bitcast':
            return h_bitcast_vec(cx, t, a, t2, dst)
        if op in ('zext', 'sext', 'trunc'):
            f = {'zext': zext, 'sext': sext, 'trunc': trunc}[op]; w = t.elem.n; w2 = t2.elem.n
            def go(st, fr, regs): regs[dst] = tuple(simp(f(x, w, w2)) for x in regs[a])
            return go
        raise Unsupported('vector cast')
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
        if op == 'ptrtoint' and t2.n < 64:
            n = t2.n
            def go(st, fr, regs):
                v = regs[a]
                if isinstance(v, PtrBase): v = v.num()
                regs[dst] = trunc(v, 64, n)
            return go
        if t.k in ('double', 'float') and t2.k == 'int':
            def go(st, fr, regs): regs[dst] = regs[a][1]
            return go
        if t2.k in ('double', 'float') and t.k == 'int':
            def go(st, fr, regs): regs[dst] = ('f', regs[a])
            return go
        if op == 'inttoptr':
            def go(st, fr, regs):
                v = regs[a]
                if type(v) is int: v = st.topt(v)
                regs[dst] = v
            return go
        def go(st, fr, regs): regs[dst] = regs[a]
        return go
    if op in ('zext', 'sext', 'trunc'):
        f = {'zext': zext, 'sext': sext, 'trunc': trunc}[op]; w = t.n; w2 = t2.n
        def go(st, fr, regs):
            x = regs[a]
            if type(x) is not int:
                if isinstance(x, PtrBase): x = x.num()
                regs[dst] = simp(f(x, w, w2))
            else: regs[dst] = f(x, w, w2)
        return go
    def go(st, fr, regs): regs[dst] = ('f', 0) if t2.k in ('double', 'float') else 0
    return go

def h_bitcast_vec(cx, t, a, t2, dst):
    def flat(v, t):
        if t.k == 'vec': return norm(concat([(x, t.elem.n) for x in reversed(v)]))
        return v
    def unflat(v, t):
        if t.k == 'vec': return tuple(simp(extract(v, (i + 1) * t.elem.n - 1, i * t.elem.n, t.n * t.elem.n)) for i in range(t.n))
        return v
    def w(t): return t.n * t.elem.n if t.k == 'vec' else t.n
    def go(st, fr, regs):
        v = regs[a]
        if t.k == 'vec' and t.elem.n == 1: v = tuple(x if type(x) is int else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in v)
        v = flat(v, t)
        if t2.k == 'vec' and t2.elem.n == 1: raise Unsupported('bitcast to i1 vec')
        regs[dst] = unflat(v, t2)
    return go

def h_icmp(cx, p, dst, op, ops):
    p.skip_attrs()
    pred = p.next()
    if pred == 'samesign': pred = p.next()
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); b = cx.opnd(t, p.value(t))
    if t.k == 'vec':
        w = t.elem.n if t.elem.k == 'int' else 64
        def go(st, fr, regs): regs[dst] = tuple(do_icmp(st, pred, x, y, w) for x, y in zip(regs[a], regs[b]))
        return go
    w = 64 if t.k == 'ptr' else t.n
    def go(st, fr, regs): regs[dst] = do_icmp(st, pred, regs[a], regs[b], w)
    return go

def h_fcmp(cx, p, dst, op, ops):
    def go(st, fr, regs): raise Unsupported('fcmp')
    return go

def h_select(cx, p, dst, op, ops):
    p.skip_attrs()
    t0 = p.type(); c = cx.opnd(t0, p.value(t0)); p.expect(',')
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); t2 = p.type(); b = cx.opnd(t, p.value(t))
    if t0.k == 'vec':
        w = t.elem.n
        def go(st, fr, regs): regs[dst] = tuple(ite(x, y, z, w) for x, y, z in zip(regs[c], regs[a], regs[b]))
        return go
    w = t.n if t.k == 'int' else 0
    def go(st, fr, regs):
        x = regs[c]; u = regs[a]; v = regs[b]
        if type(x) is int:
            regs[dst] = u if x else v; return
        if u is v: regs[dst] = u; return
        if w == 0 or isinstance(u, PtrBase) or isinstance(v, PtrBase):
            if type(u) is Ptr and type(v) is Ptr and u.obj == v.obj:
                regs[dst] = Ptr(u.obj, ite(x, u.off, v.off, 64)); return
            regs[dst] = u if st.decide(to_bool(x)) else v
            return
        regs[dst] = simp(ite(x, u, v, w))
    return go

def h_freeze(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t))
    def go(st, fr, regs): regs[dst] = regs[a]
    return go

def h_alloca(cx, p, dst, op, ops):
    p.skip_attrs()
    if p.peek() == 'inalloca': p.next()
    t = p.type()
    n = None
    if p.accept(','):
        if p.peek() not in ('align', 'addrspace'):
            t1 = p.type(); n = cx.opnd(t1, p.value(t1))
    sz = ty_size(t)
    def go(st, fr, regs):
        k = sz
        if n is not None:
            m = regs[n]
            if type(m) is not int: m = st.concretize(m)
            k = sz * m
        q = st.alloc(k, 'alloca', None, 'stack')
        fr.allocas.append(q.obj)
        regs[dst] = q
    return go

def h_load(cx, p, dst, op, ops):
    p.skip_attrs()
    t = p.type(); p.expect(','); pt = p.type(); a = cx.opnd(pt, p.value(pt))
    if t.k == 'int' and t.n % 8 == 0:
        n = t.n // 8
        def go(st, fr, regs):
            regs[dst] = st.load_bytes(regs[a], n)
        return go
    def go(st, fr, regs): regs[dst] = st.load(regs[a], t)
    return go

def h_store(cx, p, dst, op, ops):
    p.skip_attrs()
    t = p.type(); v = cx.opnd(t, p.value(t)); p.expect(','); pt = p.type(); a = cx.opnd(pt, p.value(pt))
    if t.k == 'int' and t.n % 8 == 0:
        n = t.n // 8
        def go(st, fr, regs):
            st.store_bytes(regs[a], regs[v], n)
        return go
    def go(st, fr, regs): st.store(regs[a], regs[v], t)
    return go

def h_gep(cx, p, dst, op, ops):
    p.skip_attrs()
    while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
    bt = p.type(); p.expect(',')
    t = p.type()
    if t.k == 'vec': raise Unsupported('vector gep')
    base = cx.opnd(t, p.value(t))
    const = 0; dyn = []
    cur = bt; first = True
    while p.accept(','):
        it = p.type()
        if it.k == 'vec': raise Unsupported('vector gep')
        iv = p.value(it)
        if first:
            sc = ty_size(cur); first = False
        elif cur.k == 'struct':
            const += struct_offs(cur)[iv.v]; cur = cur.elems[iv.v]; continue
        else:
            cur = cur.elem; sc = ty_size(cur)
        if iv.k == 'int': const += sx(iv.v, it.n) * sc
        else: dyn.append((cx.opnd(it, iv), it.n, sc))
    const &= mask(64)
    if not dyn:
        def go(st, fr, regs):
            b = regs[base]
            if type(b) is Ptr:
                o = b.off
                regs[dst] = Ptr(b.obj, (o + const) & 0xffffffffffffffff if type(o) is int else add(o, const, 64))
            else: regs[dst] = gep_slow(st, b, const)
        return go
    if len(dyn) == 1:
        r, w, sc = dyn[0]
        def go(st, fr, regs):
            i = regs[r]; b = regs[base]
            if type(i) is int:
                off = (sx(i, w) * sc + const) & 0xffffffffffffffff
            else:
                if isinstance(i, PtrBase): i = i.num()
                off = simp(add(mul(sext(i, w, 64), sc, 64), const, 64))
            if type(b) is Ptr: regs[dst] = Ptr(b.obj, simp(add(b.off, off, 64)))
            else: regs[dst] = gep_slow(st, b, off)
        return go
    def go(st, fr, regs):
        off = const
        for r, w, sc in dyn:
            i = regs[r]
            if isinstance(i, PtrBase): i = i.num()
            off = add(off, mul(sext(i, w, 64), sc, 64), 64)
        off = simp(off)
        b = regs[base]
        if type(b) is Ptr: regs[dst] = Ptr(b.obj, simp(add(b.off, off, 64)))
        else: regs[dst] = gep_slow(st, b, off)
    return go

def gep_slow(st, b, off):
    # null + symbolic / integer-typed pointers
    v = simp(add(b, off, 64))
    return st.topt(v) if type(v) is int else v

def h_br(cx, p, dst, op, ops):
    x = p.next()
    if x == 'label':
        return goto(cx, p.next())
    # i1 cond
    c = cx.opnd(INT(1), p.value(INT(1)))
    p.expect(','); p.expect('label'); l1 = p.next(); p.expect(','); p.expect('label'); l2 = p.next()
    g1 = goto(cx, l1); g2 = goto(cx, l2)
    def go(st, fr, regs):
        v = regs[c]
        if type(v) is not int: v = st.decide(v)
        return g1(st, fr, regs) if v else g2(st, fr, regs)
    return go

def h_switch(cx, p, dst, op, ops):
    t = p.type(); v = cx.opnd(t, p.value(t)); p.expect(','); p.expect('label'); dl = p.next()
    p.expect('[')
    cases = []
    tabl = {}
    while not p.accept(']'):
        ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); l = p.next()
        tabl[cv.v] = goto(cx, l); cases.append((cv.v, l))
    gd = goto(cx, dl)
    w = t.n
    groups = {}
    for cv, l in cases: groups.setdefault(l, []).append(cv)
    gl = [(cvs, goto(cx, l)) for l, cvs in groups.items() if l != dl]
    def go(st, fr, regs):
        x = regs[v]
        if isinstance(x, PtrBase): x = x.num()
        if type(x) is int:
            return tabl.get(x, gd)(st, fr, regs)
        for cvs, g in gl:
            cond = z3.Or(*[x == c for c in cvs]) if len(cvs) > 1 else x == cvs[0]
            if st.decide(cond): return g(st, fr, regs)
        return gd(st, fr, regs)
    return go

def h_indirectbr(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); p.expect('[')
    gs = {}
    while not p.accept(']'):
        p.expect('label'); l = p.next(); p.accept(',')
        gs[l] = goto(cx, l)
    def go(st, fr, regs):
        v = regs[a]
        if type(v) is not Ptr: raise Unsupported('indirectbr to %r' % (v,))
        k = st.eng.bobj.get(v.obj)
        if k is None: raise PathEnd('memerr', 'indirect branch to non-label')
        return gs[k[1]](st, fr, regs)
    return go

def h_ret(cx, p, dst, op, ops):
    t = p.type()
    a = None
    if t.k != 'void': a = cx.opnd(t, p.value(t))
    def go(st, fr, regs):
        st.frames.pop()
        for q in fr.allocas:
            st.mem.pop(q, None)
        v = regs[a] if a is not None else None
        if st.frames:
            if fr.on_ret is not None: fr.on_ret(st, v)
            elif fr.dst is not None: st.frames[-1].regs[fr.dst] = v
        st.extra['_ret'] = v
        return 1
    return go

def h_unreachable(cx, p, dst, op, ops):
    def go(st, fr, regs): raise PathEnd('ub', 'unreachable executed in ' + fr.f.name)
    return go

def h_extractvalue(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); idx = []
    while p.accept(','): idx.append(int(p.next()))
    def go(st, fr, regs):
        v = regs[a]
        for i in idx: v = v[i]
        regs[dst] = v
    return go

def h_insertvalue(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(',')
    t2 = p.type(); b = cx.opnd(t2, p.value(t2)); idx = []
    while p.accept(','): idx.append(int(p.next()))
    def ins(v, idx, x):
        if not idx: return x
        l = list(v); l[idx[0]] = ins(l[idx[0]], idx[1:], x); return tuple(l)
    def go(st, fr, regs): regs[dst] = ins(regs[a], idx, regs[b])
    return go

def h_extractelement(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); t2 = p.type(); b = cx.opnd(t2, p.value(t2))
    def go(st, fr, regs): regs[dst] = regs[a][st.concretize(regs[b])]
    return go

def h_insertelement(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); t1 = p.type(); e = cx.opnd(t1, p.value(t1)); p.expect(','); t2 = p.type(); b = cx.opnd(t2, p.value(t2))
    def go(st, fr, regs):
        l = list(regs[a]); l[st.concretize(regs[b])] = regs[e]; regs[dst] = tuple(l)
    return go

def h_shufflevector(cx, p, dst, op, ops):
    t = p.type(); a = cx.opnd(t, p.value(t)); p.expect(','); t1 = p.type(); b = cx.opnd(t1, p.value(t1)); p.expect(','); t2 = p.type(); mk = cx.eng.constant(p.value(t2), t2)
    def go(st, fr, regs):
        l = regs[a] + regs[b]
        regs[dst] = tuple(l[i] if i < len(l) else l[0] for i in mk)
    return go

def h_fence(cx, p, dst, op, ops): return None

def h_atomicrmw(cx, p, dst, op, ops):
    p.skip_attrs()
    o = p.next()
    pt = p.type(); a = cx.opnd(pt, p.value(pt)); p.expect(','); t = p.type(); b = cx.opnd(t, p.value(t))
    w = t.n if t.k == 'int' else 64
    def go(st, fr, regs):
        old = st.load(regs[a], t); x = regs[b]
        if o == 'xchg': nv = x
        elif o in BINOPS: nv = simp(BINOPS[o](old, x, w))
        else: raise Unsupported('atomicrmw ' + o)
        st.store(regs[a], nv, t)
        regs[dst] = old
    return go

def h_cmpxchg(cx, p, dst, op, ops):
    p.skip_attrs()
    if p.peek() == 'weak': p.next()
    p.skip_attrs()
    pt = p.type(); a = cx.opnd(pt, p.value(pt)); p.expect(','); t = p.type(); b = cx.opnd(t, p.value(t)); p.expect(','); t2 = p.type(); c = cx.opnd(t2, p.value(t2))
    w = t.n if t.k == 'int' else 64
    def go(st, fr, regs):
        old = st.load(regs[a], t)
        e = do_icmp(st, 'eq', old, regs[b], w)
        ok = st.decide(e)
        if ok: st.store(regs[a], regs[c], t)
        regs[dst] = (old, 1 if ok else 0)
    return go

CC = {'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc', 'nounwind'}

def h_call(cx, p, dst, op, ops):
    eng = cx.eng
    while p.peek() in CC or p.peek() in ('tail', 'musttail', 'notail'): p.next()
    p.skip_attrs()
    while p.peek() in CC: p.next()
    p.skip_attrs()
    rt = p.type()
    if p.peek() == '(':
        p.skip_paren()
    if p.peek() == 'asm':
        # inline assembly: only barriers (empty template) supported
        p.next()
        while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
        tmpl = p.next()
        if tmpl == '""':
            if rt.k == 'void': return None
            raise Unsupported('asm result')
        raise Unsupported('inline asm ' + tmpl)
    callee = p.value(PTR)
    p.expect('(')
    args = []; argtys = []
    if not p.accept(')'):
        while True:
            t = p.type()
            if t.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in '({': d += 1
                    elif y in ')}': d -= 1
                args.append(cx.konst(0)); argtys.append(t)
            else:
                args.append(cx.opnd(t, p.value(t))); argtys.append(t)
            if p.accept(')'): break
            p.expect(',')
    if op == 'invoke':
        # attributes, then: to label %x unwind label %y
        while p.peek() != 'to': p.next()
        p.next(); p.expect('label'); normal = p.next()
        gonext = goto(cx, normal)
    else: gonext = None
    nxt = len(ops) + 1
    if callee.k == 'glob':
        name = normname(callee.v[1:])
        while name in eng.m.aliases: name = eng.m.aliases[name]
        if name.startswith('llvm.'):
            fn = intrinsic(cx, name, rt, args, argtys, dst)
            return chain(fn, gonext)
        return mkcall(cx, name, rt, args, argtys, dst, nxt, gonext)
    if callee.k == 'loc':
        cr = cx.reg(callee.v)
        cache = {}
        def go(st, fr, regs):
            v = regs[cr]
            if type(v) is not Ptr:
                if type(v) is int: v = st.topt(v)
                else: raise Unsupported('call through symbolic pointer')
            if v.obj == 0: raise PathEnd('memerr', 'call through null function pointer')
            name = eng.fobj.get(v.obj)
            if name is None: raise PathEnd('memerr', 'call through non-function pointer %r' % (v,))
            c = cache.get(name)
            if c is None:
                c = cache[name] = mkcall(cx, name, rt, args, argtys, dst, nxt, gonext, regs)
            return c(st, fr, regs)
        return go
    raise Unsupported('callee %r' % callee)

def chain(fn, gonext):
    if gonext is None: return fn
    def go(st, fr, regs):
        if fn is not None: fn(st, fr, regs)
        return gonext(st, fr, regs)
    return go

def mkcall(cx, name, rt, args, argtys, dst, nxt, gonext, regs=None):
    eng = cx.eng
    f = eng.m.funcs.get(name)
    h = eng.overrides.get(name)
    if h is None and f is None:
        h = eng.ext.get(name)
        if h is None:
            for pred, hh in eng.ext_prefix:
                if pred(name): h = hh(name) if getattr(hh, 'factory', False) else hh; break
    w = rt.n if rt.k == 'int' else 64
    if h is not None:
        def go(st, fr, regs):
            r = h(st, [regs[a] for a in args], w)
            if r is CALLED:
                fr2 = st.frames[-1]
                fr2.dst = dst
                fr.ip = nxt
                if gonext is not None: gonext(st, fr, regs)
                return 1
            if dst is not None:
                if rt.k == 'ptr' and type(r) is int: r = st.topt(r)
                regs[dst] = r
            if gonext is not None: return gonext(st, fr, regs)
        return go
    if f is None:
        msg = 'external ' + name
        def go(st, fr, regs): raise Unsupported(msg)
        return go
    if gonext is not None:
        def go(st, fr, regs):
            a = [regs[x] for x in args]
            gonext(st, fr, regs)
            st.call(f, a, dst)
            return 1
        return go
    def go(st, fr, regs):
        fr.ip = nxt
        st.call(f, [regs[a] for a in args], dst)
        return 1
    return go

CALLED = object()
llsym.CALLED = CALLED

def intrinsic(cx, name, rt, args, argtys, dst):
    n = name[5:]
    base = n.split('.')[0]
    if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'invariant', 'prefetch', 'donothing', 'sideeffect', 'stacksave', 'stackrestore', 'va_', 'pseudoprobe', 'fake.use')):
        if n.startswith('stacksave'):
            def go(st, fr, regs): regs[dst] = NULL
            return go
        return None
    w = rt.n if rt.k == 'int' else 64
    if n.startswith(('memcpy', 'memmove')):
        a, b, c = args[:3]
        def go(st, fr, regs): st.memcpy(regs[a], regs[b], regs[c])
        return go
    if n.startswith('memset'):
        a, b, c = args[:3]
        def go(st, fr, regs): st.memset(regs[a], regs[b], regs[c])
        return go
    if n.startswith(('trap', 'debugtrap', 'ubsantrap')):
        def go(st, fr, regs): raise PathEnd('abort', n)
        return go
    if n.startswith('expect'):
        a = args[0]
        def go(st, fr, regs): regs[dst] = regs[a]
        return go
    if n.startswith('is.constant'):
        def go(st, fr, regs): regs[dst] = 0
        return go
    if n.startswith('x86.rdtsc'):
        def go(st, fr, regs): regs[dst] = (0, 0) if rt.k == 'struct' else 0
        return go
    if n.startswith('objectsize'):
        def go(st, fr, regs): regs[dst] = mask(w)
        return go
    if n.startswith('threadlocal.address'):
        a = args[0]
        def go(st, fr, regs): regs[dst] = regs[a]
        return go
    if rt.k == 'vec':
        ew = rt.elem.n
        one = intr_fn(n, ew, INT(ew))
        if one is None: raise Unsupported('vector intrinsic ' + name)
        def go(st, fr, regs):
            regs[dst] = tuple(simp(one(st, [regs[a][i] if type(regs[a]) is tuple else regs[a] for a in args])) for i in range(rt.n))
        return go
    if n.startswith('vector.reduce.'):
        o = n.split('.')[2]; t = argtys[0]; ew = t.elem.n; a = args[0]
        f = {'add': add, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor}.get(o)
        if f is None: raise Unsupported(name)
        def go(st, fr, regs):
            v = regs[a]; r = v[0]
            for x in v[1:]: r = simp(f(r, x, ew))
            regs[dst] = r
        return go
    one = intr_fn(n, argtys[0].n if argtys and argtys[0].k == 'int' else w, argtys[0] if argtys else None)
    if one is None: raise Unsupported('intrinsic ' + name)
    def go(st, fr, regs):
        v = one(st, [x.num() if isinstance(x, PtrBase) else x for x in [regs[a] for a in args]])
        regs[dst] = tuple(simp(x) for x in v) if type(v) is tuple else simp(v)
    return go

def ctlz(v, w):
    if type(v) is int: return w - v.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
def cttz(v, w):
    if type(v) is int: return w if v == 0 else (v & -v).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return r
def ctpop(v, w):
    if type(v) is int: return bin(v).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r
def uaddo(a, b, w):
    if type(a) is int and type(b) is int:
        return ((a + b) & mask(w), int(a + b > mask(w)))
    s = bv(a, w) + bv(b, w)
    return (s, z3.ULT(s, bv(a, w)))
def usubo(a, b, w):
    return (sub(a, b, w), ult(a, b, w))
def umulo(a, b, w):
    if type(a) is int and type(b) is int:
        return ((a * b) & mask(w), int(a * b > mask(w)))
    if sym.ABS and w >= 64: return (mul(a, b, w), sym.absop('mulo', a, b, w))
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return (0, 0)
        return (mul(a, b, w), z3.UGT(a, z3.BitVecVal(mask(w) // b, w)))
    return (mul(a, b, w), z3.Not(z3.BVMulNoOverflow(bv(a, w), bv(b, w), False)))
def saddo(a, b, w):
    if type(a) is int and type(b) is int:
        r = sx(a, w) + sx(b, w)
        return (r & mask(w), int(not (-(1 << (w - 1)) <= r < (1 << (w - 1)))))
    s = bv(a, w) + bv(b, w); a = bv(a, w); b = bv(b, w)
    return (s, z3.And((a < 0) == (b < 0), (s < 0) != (a < 0)))
def ssubo(a, b, w):
    if type(a) is int and type(b) is int:
        r = sx(a, w) - sx(b, w)
        return (r & mask(w), int(not (-(1 << (w - 1)) <= r < (1 << (w - 1)))))
    a = bv(a, w); b = bv(b, w); s = a - b
    return (s, z3.And((a < 0) != (b < 0), (s < 0) != (a < 0)))
def smulo(a, b, w):
    if type(a) is int and type(b) is int:
        r = sx(a, w) * sx(b, w)
        return (r & mask(w), int(not (-(1 << (w - 1)) <= r < (1 << (w - 1)))))
    a = bv(a, w); b = bv(b, w)
    return (a * b, z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))))

ARITH = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I}
def bswap256(st, a):
    """sums and products get a name before they are taken apart, so that taking them apart and putting them together again is no work for the solver"""
    a = a[0]
    if not sym.NAMES or type(a) is int: return bswap(a, 256)
    a = norm(a)
    if type(a) is int: return bswap(a, 256)
    def rec(e, depth):
        if z3.is_app_of(e, z3.Z3_OP_ITE) and depth < 6: return z3.If(e.arg(0), rec(e.arg(1), depth + 1), rec(e.arg(2), depth + 1))
        if e.decl().kind() in ARITH:
            v = z3.BitVec('sum!%d' % e.get_id(), 256)
            sym.NAMED[e.get_id()] = e
            st.assume(v == e)
            e = v
        r = bswap(e, 256)
        return bv(r, 256)
    return norm(rec(a, 0))

def intr_fn(n, w, t):
    b = n.split('.')[0]
    if b == 'bswap':
        if w == 256: return bswap256
        return lambda st, a: bswap(a[0], w)
    if b == 'ctlz': return lambda st, a: ctlz(a[0], w)
    if b == 'cttz': return lambda st, a: cttz(a[0], w)
    if b == 'ctpop': return lambda st, a: ctpop(a[0], w)
    if b == 'umin': return lambda st, a: ite(ult(a[0], a[1], w), a[0], a[1], w)
    if b == 'umax': return lambda st, a: ite(ult(a[0], a[1], w), a[1], a[0], w)
    if b == 'smin': return lambda st, a: ite(slt(a[0], a[1], w), a[0], a[1], w)
    if b == 'smax': return lambda st, a: ite(slt(a[0], a[1], w), a[1], a[0], w)
    if b == 'abs': return lambda st, a: ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w)
    if n.startswith('uadd.with'): return lambda st, a: uaddo(a[0], a[1], w)
    if n.startswith('usub.with'): return lambda st, a: usubo(a[0], a[1], w)
    if n.startswith('umul.with'): return lambda st, a: umulo(a[0], a[1], w)
    if n.startswith('sadd.with'): return lambda st, a: saddo(a[0], a[1], w)
    if n.startswith('ssub.with'): return lambda st, a: ssubo(a[0], a[1], w)
    if n.startswith('smul.with'): return lambda st, a: smulo(a[0], a[1], w)
    if n.startswith('usub.sat'): return lambda st, a: ite(ult(a[0], a[1], w), 0, sub(a[0], a[1], w), w)
    if n.startswith('uadd.sat'):
        def f(st, a):
            s, o = uaddo(a[0], a[1], w); return ite(o, mask(w), s, w)
        return f
    if b == 'fshl':
        def f(st, a):
            x, y, s = a
            s = urem(s, w, w) if type(s) is not int else s % w
            if type(s) is int:
                return or_(shl(x, s, w), lshr(y, w - s, w), w) if s else x
            c = z3.Concat(bv(x, w), bv(y, w)) << z3.ZeroExt(w, s)
            return z3.Extract(2 * w - 1, w, c)
        return f
    if b == 'fshr':
        def f(st, a):
            x, y, s = a
            s = urem(s, w, w) if type(s) is not int else s % w
            if type(s) is int:
                return or_(shl(x, w - s, w), lshr(y, s, w), w) if s else y
            c = z3.LShR(z3.Concat(bv(x, w), bv(y, w)), z3.ZeroExt(w, s))
            return z3.Extract(w - 1, 0, c)
        return f
    if b == 'ucmp': 
        return lambda st, a: ite(ult(a[0], a[1], w), mask(8), ite(eq(a[0], a[1], w), 0, 1, 8), 8)
    if b == 'scmp':
        return lambda st, a: ite(slt(a[0], a[1], w), mask(8), ite(eq(a[0], a[1], w), 0, 1, 8), 8)
    if b == 'bitreverse':
        def f(st, a):
            if type(a[0]) is int: return int(bin(a[0])[2:].zfill(w)[::-1], 2)
            return z3.Concat(*[z3.Extract(i, i, a[0]) for i in range(w)])
        return f
    return None

OPS = {}
for _n in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): OPS[_n] = h_bin
for _n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'): OPS[_n] = h_fbin
for _n in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'): OPS[_n] = h_cast
OPS.update({'icmp': h_icmp, 'fcmp': h_fcmp, 'select': h_select, 'freeze': h_freeze, 'alloca': h_alloca, 'load': h_load, 'store': h_store,
            'getelementptr': h_gep, 'br': h_br, 'switch': h_switch, 'indirectbr': h_indirectbr, 'ret': h_ret, 'unreachable': h_unreachable,
            'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue, 'extractelement': h_extractelement, 'insertelement': h_insertelement,
            'shufflevector': h_shufflevector, 'fence': h_fence, 'atomicrmw': h_atomicrmw, 'cmpxchg': h_cmpxchg, 'call': h_call, 'invoke': h_call})
