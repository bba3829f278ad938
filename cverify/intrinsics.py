"""Meaning of the primitives the model headers and the harness API are written in, and of the few C library calls."""
from fractions import Fraction
import z3
import __main__, sys
E = sys.modules.get('engine') or __main__
intrinsic, Ptr, Fn, SeqVal, StrVal, Cat = E.intrinsic, E.Ptr, E.Fn, E.SeqVal, E.StrVal, E.Cat
Unsupported, PathDead, Failure, Throw = E.Unsupported, E.PathDead, E.Failure, E.Throw
is_sym, simp, boo, bv, real, mask, sgn = E.is_sym, E.simp, E.boo, E.bv, E.real, E.mask, E.sgn
INTR_PREFIX, Obj = E.INTR_PREFIX, E.Obj


# ------------------------------------------------------------------ container cells
def getc(en, st, p, kind):
    if isinstance(p, int):
        en.fail(st, 'memory safety: null pointer dereference')
    if not isinstance(p, Ptr):
        raise Unsupported('container at %r' % (p,))
    o = en.obj(st, p.obj)
    if o.freed:
        en.fail(st, 'memory safety: use after free')
    if is_sym(p.off):
        p = Ptr(p.obj, en.conc(st, p.off))
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], kind):
        if kind is StrVal and o.zero:
            raise Unsupported('string read before initialisation (%s)' % getattr(o, 'name', p))
        en.fail(st, 'memory safety: use of an uninitialised or foreign container')
    return c[1]


def setc(en, st, p, v, w):
    p = en.deref(st, p, 8)
    o = en.wobj(st, p.obj)
    c = o.cells.get(p.off)
    if c is not None and isinstance(c[1], (SeqVal, StrVal)) and isinstance(v, type(c[1])):
        o.cells[p.off] = (c[0], v)
    else:
        en.write(st, o, p.off, w, v)


@intrinsic('__vf_seq_init')
def seq_init(en, st, s):
    setc(en, st, s, SeqVal(()), 8)


@intrinsic('__vf_seq_len')
def seq_len(en, st, s):
    return len(getc(en, st, s, SeqVal).elems)


@intrinsic('__vf_seq_sym')
def seq_sym(en, st, s):
    getc(en, st, s, SeqVal)
    return 0


@intrinsic('__vf_seq_at')
def seq_at(en, st, s, i, esz):
    v = getc(en, st, s, SeqVal)
    i = en.conc(st, i)
    if i >= len(v.elems):
        en.fail(st, 'memory safety: container access out of range')
    return Ptr(v.elems[i], 0)


@intrinsic('__vf_seq_push')
def seq_push(en, st, s, esz):
    v = getc(en, st, s, SeqVal)
    e = en.newobj(st, esz, 'elem')
    setc(en, st, s, SeqVal(v.elems + (e,)), 8)
    return Ptr(e, 0)


@intrinsic('__vf_seq_gap')
def seq_gap(en, st, s, i, esz):
    v = getc(en, st, s, SeqVal)
    i = en.conc(st, i)
    if i > len(v.elems):
        en.fail(st, 'memory safety: insertion out of range')
    e = en.newobj(st, esz, 'elem')
    setc(en, st, s, SeqVal(v.elems[:i] + (e,) + v.elems[i:]), 8)
    return Ptr(e, 0)


def kill(en, st, ids):
    for e in ids:
        en.wobj(st, e).freed = True


@intrinsic('__vf_seq_erase')
def seq_erase(en, st, s, i):
    v = getc(en, st, s, SeqVal)
    i = en.conc(st, i)
    if i >= len(v.elems):
        en.fail(st, 'memory safety: erase out of range')
    kill(en, st, [v.elems[i]])
    setc(en, st, s, SeqVal(v.elems[:i] + v.elems[i + 1:]), 8)


@intrinsic('__vf_seq_trunc')
def seq_trunc(en, st, s, n):
    v = getc(en, st, s, SeqVal)
    n = en.conc(st, n)
    if n > len(v.elems):
        en.fail(st, 'memory safety: pop on an empty container')
    kill(en, st, v.elems[n:])
    setc(en, st, s, SeqVal(v.elems[:n]), 8)


def clone_obj(en, st, oid):
    o = en.obj(st, oid)
    i = en.newobj(st, o.size, 'elem', o.name)
    n = st.mem[i]
    n.zero, n.data = o.zero, o.data
    n.cells = {}
    for k, (w, c) in o.cells.items():
        if isinstance(c, SeqVal):
            c = SeqVal([clone_obj(en, st, e) for e in c.elems])
        n.cells[k] = (w, c)
    return i


@intrinsic('__vf_seq_copy')
def seq_copy(en, st, d, s):
    if isinstance(d, Ptr) and isinstance(s, Ptr) and d == s:
        return
    v = getc(en, st, s, (SeqVal, StrVal))
    if isinstance(v, SeqVal):
        v = SeqVal([clone_obj(en, st, e) for e in v.elems])
    setc(en, st, d, v, 8)


@intrinsic('__vf_seq_append')
def seq_append(en, st, d, s, i, j):
    v = getc(en, st, s, SeqVal)
    i, j = en.conc(st, i), en.conc(st, j)
    if not (i <= j <= len(v.elems)):
        en.fail(st, 'memory safety: invalid iterator range')
    new = [clone_obj(en, st, e) for e in v.elems[i:j]]
    dv = getc(en, st, d, SeqVal)
    setc(en, st, d, SeqVal(dv.elems + tuple(new)), 8)


# ------------------------------------------------------------------ strings
def zs(x):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in x)) if isinstance(x, str) else x


def get_str(en, st, p):
    return getc(en, st, p, StrVal).v


def set_str(en, st, p, v):
    setc(en, st, p, StrVal(v), 8)


def cstring(en, st, p):
    """string value at a char pointer (up to the NUL)"""
    if isinstance(p, int):
        en.fail(st, 'memory safety: null character pointer')
    p = en.deref(st, p, 0)
    o = en.obj(st, p.obj)
    if o.cstr is not None:
        if p.off == 0:
            return o.cstr
        if isinstance(o.cstr, str):
            return o.cstr[p.off:]
        return z3.SubString(o.cstr, p.off, z3.Length(o.cstr) - p.off)
    if o.data is not None:
        b = o.data[p.off:]
        return b[:b.index(0)].decode('latin-1')
    out = []
    k = p.off
    while True:
        if o.size is not None and k >= o.size:
            en.fail(st, 'memory safety: unterminated string')
        c = en.conc(st, en.conv(st, en.read(st, o, p.obj, k, 1, ('i', 8)), ('i', 8)))
        if c == 0:
            return ''.join(out)
        out.append(chr(c))
        k += 1


def nchars(en, st, p, n):
    n = en.conc(st, n)
    if n == 0:
        return ''
    p = en.deref(st, p, 0)
    o = en.obj(st, p.obj)
    if o.cstr is not None:
        s = o.cstr
        if isinstance(s, str):
            return s[p.off:p.off + n]
        return z3.SubString(s, p.off, n)
    if o.data is not None:
        return o.data[p.off:p.off + n].decode('latin-1')
    return ''.join(chr(en.conc(st, en.conv(st, en.read(st, o, p.obj, k, 1, ('i', 8)), ('i', 8)))) for k in range(p.off, p.off + n))


@intrinsic('__vf_str_lit')
def str_lit(en, st, s, p, n, have):
    v = nchars(en, st, p, n) if en.conc(st, have) else cstring(en, st, p)
    set_str(en, st, s, v)


def cat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if a == '' and isinstance(a, str):
        return b
    if isinstance(b, str) and b == '':
        return a
    return z3.simplify(z3.Concat(zs(a), zs(b)))


@intrinsic('__vf_str_cat')
def str_cat(en, st, d, a, b):
    set_str(en, st, d, cat(get_str(en, st, a), get_str(en, st, b)))


@intrinsic('__vf_str_eq')
def str_eq(en, st, a, b):
    a, b = get_str(en, st, a), get_str(en, st, b)
    if isinstance(a, str) and isinstance(b, str):
        return int(a == b)
    return simp(zs(a) == zs(b))


@intrinsic('__vf_str_lt')
def str_lt(en, st, a, b):
    a, b = get_str(en, st, a), get_str(en, st, b)
    if isinstance(a, str) and isinstance(b, str):
        return int(a < b)
    return simp(zs(a) < zs(b))


@intrinsic('__vf_str_len')
def str_len(en, st, a):
    a = get_str(en, st, a)
    if isinstance(a, str):
        return len(a)
    return z3.Int2BV(z3.Length(a), 64)


@intrinsic('__vf_str_c')
def str_c(en, st, a):
    v = get_str(en, st, a)
    key = ('cstr', v if isinstance(v, str) else v.get_id())
    i = st.ghost.get(key)
    if i is None:
        i = en.newobj(st, None, 'cstr')
        st.mem[i].cstr = v
        st.ghost[key] = i
    return Ptr(i, 0)


def cstr_at(self, st, o, k):
    s = o.cstr
    if isinstance(s, str):
        return ord(s[k]) if k < len(s) else 0
    return z3.If(z3.Length(s) > k, z3.Int2BV(z3.StrToCode(z3.SubString(s, k, 1)), 8), z3.BitVecVal(0, 8))


E.Engine.cstr_at = cstr_at


@intrinsic('__vf_str_at')
def str_at(en, st, a, i):
    v = get_str(en, st, a)
    i = en.conc(st, i)
    if isinstance(v, str):
        if i > len(v):
            en.fail(st, 'memory safety: string index out of range')
        return ord(v[i]) if i < len(v) else 0
    return z3.Int2BV(z3.StrToCode(z3.SubString(v, i, 1)), 8)


STRHASH = z3.Function('strhash', z3.StringSort(), z3.BitVecSort(64))


@intrinsic('__vf_str_hash')
def str_hash(en, st, a):
    return STRHASH(zs(get_str(en, st, a)))


@intrinsic('__vf_str_of')
def str_of(en, st, d, spec, n, kind, i, f, s):
    spec = nchars(en, st, spec, n)
    kind = en.conc(st, kind)
    if kind == 2:
        v = get_str(en, st, s)
        if spec in ('', ':', 's', ':s'):
            set_str(en, st, d, v)
            return
        fn = z3.Function('fmts[%s]' % spec, z3.StringSort(), z3.StringSort())
        set_str(en, st, d, fn(zs(v)))
        return
    if kind == 1:
        if not is_sym(f) and isinstance(f, Fraction):
            import re as _re
            m = _re.fullmatch(r':?\.?(\d*)f?', spec)
            if m and spec:
                p = int(m.group(1) or 6)
                set_str(en, st, d, '%.*f' % (p, float(f)))
                return
        fn = z3.Function('fmtf[%s]' % spec, z3.RealSort(), z3.StringSort())
        set_str(en, st, d, fn(real(f)))
        return
    if isinstance(i, int):
        v = i if kind == 3 else sgn(i, 64)
        if spec in ('', ':', 'd', ':d'):
            set_str(en, st, d, str(v))
            return
        fn = z3.Function('fmti[%s]' % spec, z3.BitVecSort(64), z3.StringSort())
        set_str(en, st, d, fn(bv(i, 64)))
        return
    if isinstance(i, Ptr):
        i = en.addr(st, i)
    fn = z3.Function('fmti[%s]%d' % (spec.lstrip(':'), kind), z3.BitVecSort(64), z3.StringSort())
    set_str(en, st, d, fn(bv(i, 64)))


def str_parts(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in v.children() for x in str_parts(c)]
    return [v]


@intrinsic('__vf_str_open')
def str_open(en, st, a):
    return int(not isinstance(get_str(en, st, a), str))


@intrinsic('__vf_str_braces')
def str_braces(en, st, a):
    # renderings of numbers contain no braces
    r = []
    for x in str_parts(get_str(en, st, a)):
        if z3.is_app(x) and x.num_args() and x.decl().name().startswith(('fmti', 'fmtf')):
            continue
        r += [z3.Contains(x, z3.StringVal(c)) for c in '{}']
    return simp(z3.Or(r)) if r else 0


@intrinsic('__vf_str_sub')
def str_sub(en, st, d, a, i, n):
    v = get_str(en, st, a)
    i = en.conc(st, i)
    if isinstance(v, str):
        if i > len(v):
            raise Throw('@*std', None, 'out_of_range')
        if n != mask(64):
            n = en.conc(st, n)
        set_str(en, st, d, v[i:min(len(v), i + n)])
        return
    if isinstance(n, int) and n > (1 << 40):
        r = z3.SubString(v, i, z3.Length(v) - i)
    else:
        r = z3.SubString(v, i, n if isinstance(n, int) else z3.BV2Int(n))
    set_str(en, st, d, z3.simplify(r))


@intrinsic('__vf_str_chr')
def str_chr(en, st, d, c):
    if is_sym(c):
        set_str(en, st, d, z3.StrFromCode(z3.BV2Int(c)))
    else:
        set_str(en, st, d, chr(c & 255))


@intrinsic('__vf_stod')
def stod(en, st, s):
    v = get_str(en, st, s)
    if isinstance(v, str):
        try:
            import re as _re
            m = _re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', v)
            if not m:
                raise Throw('@*std', None, 'invalid_argument')
            return Fraction(float(m.group(0)))
        except ValueError:
            raise Throw('@*std', None, 'invalid_argument')
    f = st.ghost.get(('stod', v.get_id()))
    if f is not None:
        return f[1]
    return z3.Function('stod', z3.StringSort(), z3.RealSort())(v)


@intrinsic('__vf_throw')
def vthrow(en, st, what):
    try:
        w = cstring(en, st, what)
    except Failure:
        w = '?'
    raise Throw('@*std', None, w)


@intrinsic('__vf_nd_count')
def nd_count(en, st):
    return en.fresh(st, ('i', 64), 'count')


# ------------------------------------------------------------------ harness API
def ndname(en, st, p):
    n = cstring(en, st, p)
    k = st.ndc.get('nd:' + n, 0)
    st.ndc['nd:' + n] = k + 1
    return n + ('#%d' % k if k else '')


@intrinsic('__vf_nd_int')
def nd_int(en, st, name, lo, hi):
    n = ndname(en, st, name)
    v = z3.BitVec(n, 64)
    lo, hi = sgn(lo, 64), sgn(hi, 64)
    st.nds.append((n, 'int', v))
    if lo == hi:
        v = lo & mask(64)
        st.nds[-1] = (n, 'int', v)
        return v
    st.pc.append(z3.And(v >= z3.BitVecVal(lo & mask(64), 64), v <= z3.BitVecVal(hi & mask(64), 64)))
    return v


@intrinsic('__vf_nd_u64')
def nd_u64(en, st, name):
    n = ndname(en, st, name)
    v = z3.BitVec(n, 64)
    st.nds.append((n, 'int', v))
    return v


@intrinsic('__vf_nd_size')
def nd_size(en, st, name, lo, hi):
    """bounded size: enumerated"""
    n = ndname(en, st, name)
    key = ('size', n)
    lo, hi = en.conc(st, lo), en.conc(st, hi)
    v = z3.BitVec(n, 64)
    if (key in st.ghost):
        pass
    st.ndc['nd:' + n.split('#')[0]] -= 1
    rng = z3.And(z3.UGE(v, lo), z3.ULE(v, hi))
    if not any(e is rng or z3.eq(e, rng) for e in st.pc):
        st.pc.append(rng)
    c = en.conc(st, v)            # may split and re-execute
    st.ndc['nd:' + n.split('#')[0]] += 1
    st.nds.append((n, 'int', c))
    if True:
        st.bounded = True
        en.bounds.add('%s<=%d' % (n.split('#')[0], hi))
    return c


@intrinsic('__vf_nd_choice')
def nd_choice(en, st, name, lo, hi):
    """exhaustive case split over a finite domain (complete, not a bound)"""
    n = ndname(en, st, name)
    lo, hi = en.conc(st, lo), en.conc(st, hi)
    v = z3.BitVec(n, 64)
    st.ndc['nd:' + n.split('#')[0]] -= 1
    rng = z3.And(v >= z3.BitVecVal(sgn(lo, 64) & mask(64), 64), v <= z3.BitVecVal(sgn(hi, 64) & mask(64), 64))
    if not any(z3.eq(e, rng) for e in st.pc):
        st.pc.append(rng)
    c = en.conc(st, v)
    st.ndc['nd:' + n.split('#')[0]] += 1
    st.nds.append((n, 'int', c))
    return c


@intrinsic('__vf_nd_bool')
def nd_bool(en, st, name):
    n = ndname(en, st, name)
    v = z3.Bool(n)
    st.nds.append((n, 'int', z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
    return v


@intrinsic('__vf_nd_real')
def nd_real(en, st, name):
    n = ndname(en, st, name)
    v = z3.Real(n)
    st.nds.append((n, 'real', v))
    return v


@intrinsic('__vf_nd_timestamp')
def nd_ts(en, st, name, lo, hi):
    """machine integer whose exact mathematical value is kept beside the bit vector (for conversions to floating point)"""
    n = ndname(en, st, name)
    lo, hi = sgn(lo, 64), sgn(hi, 64)
    v = z3.BitVec(n, 64)
    i = z3.Int(n + '#')
    st.nds.append((n, 'int', i))
    st.pc.append(z3.And(v >= z3.BitVecVal(lo & mask(64), 64), v <= z3.BitVecVal(hi & mask(64), 64)))
    st.pc.append(z3.And(i >= lo, i <= hi))
    st.ghost['ints'] = dict(st.ghost.get('ints', {}))
    st.ghost['ints'][v.get_id()] = (v, i, lo, hi)
    return v


@intrinsic('__vf_nd_str')
def nd_str(en, st, d, name):
    n = ndname(en, st, name)
    v = z3.String(n)
    st.nds.append((n, 'str', v))
    set_str(en, st, d, v)


@intrinsic('__vf_assume')
def v_assume(en, st, c):
    en.assume(st, c)


@intrinsic('__vf_check')
def v_check(en, st, c, label):
    en.check(st, c, cstring(en, st, label))


@intrinsic('__vf_cover')
def v_cover(en, st, label):
    n = cstring(en, st, label)
    if not en.covers.get(n):
        en.covers[n] = en.solver.check(st.pc, timeout=en.o['feas_timeout']) != z3.unsat


@intrinsic('__vf_fail')
def v_fail(en, st, label):
    raise Failure(cstring(en, st, label))


@intrinsic('__vf_round')
def v_round(en, st, m):
    old = st.fp
    st.fp = 'round' if en.conc(st, m) else 'real'
    return 1 if old == 'round' else 0


@intrinsic('__vf_landmark')
def v_landmark(en, st, x):
    st.ghost['landmarks'] = tuple(st.ghost.get('landmarks', ())) + (x,)


@intrinsic('__vf_symbolic')
def v_symbolic(en, st, p):
    """is this boolean/integer undecided? (diagnostics)"""
    return int(is_sym(p))


@intrinsic('__vf_uf')
def v_uf(en, st, name, n, a, b, c):
    """uninterpreted function of up to three 64-bit arguments"""
    nm = cstring(en, st, name)
    n = en.conc(st, n)
    args = [bv(en.addr(st, x) if isinstance(x, (Ptr, Fn)) else x, 64) for x in (a, b, c)[:n]]
    f = z3.Function('uf_' + nm, *([z3.BitVecSort(64)] * (n + 1)))
    return f(*args)


@intrinsic('__vf_same')
def v_same(en, st, a, b):
    """pointer identity"""
    return en.icmp(st, 'eq', ('p',), a, b)


@intrinsic('__vf_mark')
def v_mark(en, st, p, key, val):
    """ghost attribute of an object"""
    k = cstring(en, st, key)
    if not isinstance(p, Ptr):
        en.fail(st, 'memory safety: null pointer dereference')
    st.ghost[('mark', k, p.obj)] = val


@intrinsic('__vf_marked')
def v_marked(en, st, p, key):
    k = cstring(en, st, key)
    if not isinstance(p, Ptr):
        return 0
    return int(('mark', k, p.obj) in st.ghost)


@intrinsic('__vf_markof')
def v_markof(en, st, p, key):
    k = cstring(en, st, key)
    if not isinstance(p, Ptr):
        en.fail(st, 'memory safety: null pointer dereference')
    return st.ghost[('mark', k, p.obj)]


@intrinsic('__vf_gset')
def v_gset(en, st, key, v):
    st.ghost['g:' + cstring(en, st, key)] = v


@intrinsic('__vf_gget')
def v_gget(en, st, key):
    return st.ghost.get('g:' + cstring(en, st, key), 0)


@intrinsic('__vf_print')
def v_print(en, st, s, x):
    import sys
    print('VF_PRINT', cstring(en, st, s), x, file=sys.stderr)


@intrinsic('vf_on_pyenum')
def on_pyenum(en, st, en_, name, value):
    e = cstring(en, st, en_)
    n = cstring(en, st, name)
    lst = st.ghost.get('pyenum', ())
    st.ghost['pyenum'] = lst + ((e, n, value),)


@intrinsic('__vf_pyenum_count')
def pyenum_count(en, st):
    return len(st.ghost.get('pyenum', ()))


@intrinsic('__vf_pyenum_get')
def pyenum_get(en, st, i, e, n):
    i = en.conc(st, i)
    x = st.ghost['pyenum'][i]
    set_str(en, st, e, x[0])
    set_str(en, st, n, x[1])
    return x[2]


# ------------------------------------------------------------------ C / C++ runtime
@intrinsic('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def c_new(en, st, n, *a):
    if is_sym(n):
        n = en.conc(st, n)
    return Ptr(en.newobj(st, n, 'heap'), 0)


@intrinsic('calloc')
def c_calloc(en, st, a, b):
    n = en.conc(st, a) * en.conc(st, b)
    i = en.newobj(st, n, 'heap')
    st.mem[i].zero = True
    return Ptr(i, 0)


@intrinsic('realloc')
def c_realloc(en, st, p, n):
    n = en.conc(st, n)
    if isinstance(p, int) and p == 0:
        return Ptr(en.newobj(st, n, 'heap'), 0)
    o = en.obj(st, p.obj)
    if o.freed or o.kind != 'heap' or p.off != 0:
        en.fail(st, 'memory safety: invalid realloc')
    i = en.newobj(st, n, 'heap')
    no = st.mem[i]
    no.cells = {k: c for k, c in o.cells.items() if k + c[0] <= n}
    en.wobj(st, p.obj).freed = True
    return Ptr(i, 0)


@intrinsic('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t')
def c_delete(en, st, p, *a):
    if isinstance(p, int) and p == 0:
        return
    if not isinstance(p, Ptr):
        en.fail(st, 'memory safety: invalid free')
    o = en.obj(st, p.obj)
    if o.freed:
        en.fail(st, 'memory safety: double free')
    if o.kind != 'heap' or p.off != 0:
        en.fail(st, 'memory safety: invalid free')
    en.wobj(st, p.obj).freed = True


@intrinsic('@llvm.lifetime'[1:])
def nop(en, st, *a):
    return 0


for k in ('llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', '__cxa_end_catch', '__cxa_atexit', '__cxa_free_exception', 'llvm.stack',
          '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt8ios_base4InitC1Ev', 'fflush', 'puts', 'putchar', 'printf', 'fprintf', '__cxa_guard_release', '__cxa_guard_abort'):
    intrinsic(k)(nop)


@intrinsic('__cxa_guard_acquire')
def guard(en, st, p):
    v = en.load(st, p, ('i', 8))
    if v != 0:
        return 0
    en.store(st, p, ('i', 8), 1)
    return 1


def mcopy(en, st, d, s, n):
    n = en.conc(st, n)
    if n == 0:
        return
    s = en.deref(st, s, n)
    d = en.deref(st, d, n, True)
    so = en.obj(st, s.obj)
    base = s.off
    items = []
    if so.data is not None:
        items = [(k, 1, so.data[base + k]) for k in range(n)]
    elif so.cstr is not None:
        items = [(k, 1, en.cstr_at(st, so, base + k)) for k in range(n)]
    else:
        covered = 0
        for k, (w, v) in sorted(so.cells.items()):
            if k >= base and k + w <= base + n:
                items.append((k - base, w, v))
            elif k < base + n and k + w > base:
                a, b = max(k, base), min(k + w, base + n)
                if isinstance(v, (SeqVal, StrVal)):
                    items.append((k - base, w, v))
                else:
                    items.append((a - base, b - a, en.bytes_of(v, w, a - k, b - k)))
        if so.zero:
            pos = 0
            fill = []

            def gap(a, b):
                while a < b:
                    w = 4 if (base + a) % 4 == 0 and a + 4 <= b else 2 if (base + a) % 2 == 0 and a + 2 <= b else 1
                    fill.append((a, w, 0))
                    a += w
            for k, w, v in sorted(items, key=lambda x: x[0]):
                if k > pos:
                    gap(pos, k)
                pos = k + w
            if pos < n:
                gap(pos, n)
            items += fill
    do = en.wobj(st, d.obj)
    en.clear(st, do, d.off, n)
    if do.zero and not so.zero:
        pass
    for k, w, v in items:
        if isinstance(v, SeqVal):
            raise Unsupported('raw copy of a container')
        if isinstance(v, Cat):
            q = d.off + k
            for pw, pv in v.parts:
                do.cells[q] = (pw, pv)
                q += pw
        else:
            do.cells[d.off + k] = (w, v)


@intrinsic('llvm.memcpy', 'llvm.memmove')
def memcpy(en, st, d, s, n, vol):
    mcopy(en, st, d, s, n)


@intrinsic('memcpy', 'memmove')
def memcpy2(en, st, d, s, n):
    mcopy(en, st, d, s, n)
    return d


def mset(en, st, d, c, n):
    n = en.conc(st, n)
    if n == 0:
        return
    c = en.conc(st, c)
    d = en.deref(st, d, n, True)
    o = en.wobj(st, d.obj)
    en.clear(st, o, d.off, n)
    q = d.off
    while q < d.off + n:
        w = 8 if q % 8 == 0 and q + 8 <= d.off + n else 4 if q % 4 == 0 and q + 4 <= d.off + n else 1
        o.cells[q] = (w, int.from_bytes(bytes([c & 255]) * w, 'little'))
        q += w


@intrinsic('llvm.memset')
def memset(en, st, d, c, n, vol):
    mset(en, st, d, c, n)


@intrinsic('memset')
def memset2(en, st, d, c, n):
    mset(en, st, d, c, n)
    return d


@intrinsic('strlen')
def c_strlen(en, st, p):
    s = cstring(en, st, p)
    return len(s) if isinstance(s, str) else z3.Int2BV(z3.Length(s), 64)


@intrinsic('strcmp')
def c_strcmp(en, st, a, b):
    a, b = cstring(en, st, a), cstring(en, st, b)
    if isinstance(a, str) and isinstance(b, str):
        return 0 if a == b else (mask(32) if a < b else 1)
    return z3.If(zs(a) == zs(b), z3.BitVecVal(0, 32), z3.If(zs(a) < zs(b), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))


@intrinsic('strdup')
def c_strdup(en, st, p):
    """reads up to the NUL (every byte read must be inside its object), bytes may be symbolic"""
    p = en.deref(st, p, 1)
    out = []
    while True:
        c = en.load(st, en.addoff(p, len(out)), ('i', 8))
        out.append(c)
        if (c == 0) if isinstance(c, int) else en.decide(st, c == 0):
            out[-1] = 0
            break
        if len(out) > 100000:
            raise Unsupported('strdup of an unbounded string')
    i = en.newobj(st, len(out), 'heap')
    for k, ch in enumerate(out):
        st.mem[i].cells[k] = (1, ch)
    return Ptr(i, 0)


@intrinsic('wcstombs')
def c_wcstombs(en, st, d, s, n):
    """characters 1..127 are one byte each; a value that no wide character has (negative) is not representable"""
    n = en.conc(st, n)
    null = isinstance(d, int) and d == 0
    k = 0
    while null or k < n:
        c = en.load(st, en.addoff(s, 4 * k), ('i', 32))
        z = (c == 0) if isinstance(c, int) else en.decide(st, c == 0)
        if not z:
            ok = (c < 128) if isinstance(c, int) else en.decide(st, z3.ULT(c, 128))
            if not ok:
                return mask(64)
        if not null:
            en.store(st, en.addoff(d, k), ('i', 8), 0 if z else c & 255 if isinstance(c, int) else simp(z3.Extract(7, 0, c)))
        if z:
            break
        k += 1
        if k > 100000:
            raise Unsupported('wcstombs of an unbounded string')
    return k


@intrinsic('abs')
def c_abs(en, st, x):
    if isinstance(x, int):
        return abs(sgn(x, 32)) & mask(32)
    return simp(z3.If(x < 0, -x, x))


@intrinsic('labs', 'llabs')
def c_labs(en, st, x):
    if isinstance(x, int):
        return abs(sgn(x, 64)) & mask(64)
    return simp(z3.If(x < 0, -x, x))


def iwidth(en):
    return int(en.cur_name.rsplit('.i', 1)[1])


def ibin(en, a, b):
    w = iwidth(en)
    if isinstance(a, int) and isinstance(b, int):
        return w, a, b, True
    return w, bv(a, w), bv(b, w), False


@intrinsic('llvm.abs')
def l_abs(en, st, x, poison):
    w = iwidth(en)
    if isinstance(x, int):
        return abs(sgn(x, w)) & mask(w)
    return simp(z3.If(x < 0, -x, x))


@intrinsic('llvm.smax')
def smax(en, st, a, b):
    w, a, b, c = ibin(en, a, b)
    if c:
        return max(sgn(a, w), sgn(b, w)) & mask(w)
    return simp(z3.If(a < b, b, a))


@intrinsic('llvm.smin')
def smin(en, st, a, b):
    w, a, b, c = ibin(en, a, b)
    if c:
        return min(sgn(a, w), sgn(b, w)) & mask(w)
    return simp(z3.If(a < b, a, b))


@intrinsic('llvm.umax')
def umax(en, st, a, b):
    w, a, b, c = ibin(en, a, b)
    return max(a, b) if c else simp(z3.If(z3.ULT(a, b), b, a))


@intrinsic('llvm.umin')
def umin(en, st, a, b):
    w, a, b, c = ibin(en, a, b)
    return min(a, b) if c else simp(z3.If(z3.ULT(a, b), a, b))


@intrinsic('llvm.usub.sat')
def usubsat(en, st, a, b):
    w, a, b, c = ibin(en, a, b)
    return max(a - b, 0) if c else simp(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))


@intrinsic('llvm.fabs', 'fabsf', 'fabs')
def c_fabs(en, st, x):
    if isinstance(x, Fraction):
        return abs(x)
    return real(x) if en.decide(st, real(x) >= 0) else -real(x)


@intrinsic('llvm.fmuladd')
def fmuladd(en, st, a, b, c):
    return en.fbin(st, 'fadd', 64, en.fbin(st, 'fmul', 64, a, b), c)


@intrinsic('llvm.maxnum', 'fmaxf', 'fmax')
def c_fmax(en, st, a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return max(a, b)
    return a if en.decide(st, real(a) >= real(b)) else b


@intrinsic('llvm.minnum', 'fminf', 'fmin')
def c_fmin(en, st, a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return min(a, b)
    return a if en.decide(st, real(a) <= real(b)) else b


@intrinsic('llvm.round', 'roundf', 'round')
def c_round(en, st, x):
    if isinstance(x, Fraction):
        n = abs(x) + Fraction(1, 2)
        q = n.numerator // n.denominator
        return Fraction(q if x >= 0 else -q)
    x = real(x)
    h = z3.RealVal('1/2')
    return z3.ToReal(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(h - x)))


@intrinsic('llvm.floor', 'floorf', 'floor')
def c_floor(en, st, x):
    if isinstance(x, Fraction):
        return Fraction(x.numerator // x.denominator)
    return z3.ToReal(z3.ToInt(real(x)))


@intrinsic('llvm.trunc', 'truncf', 'trunc')
def c_trunc(en, st, x):
    if isinstance(x, Fraction):
        q = abs(x.numerator) // x.denominator
        return Fraction(q if x >= 0 else -q)
    x = real(x)
    return z3.ToReal(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


@intrinsic('llvm.is.constant')
def is_constant(en, st, x):
    return 0


@intrinsic('llvm.expect')
def expect(en, st, x, y, *a):
    return x


@intrinsic('llvm.trap', 'abort', '_ZSt9terminatev', '__cxa_pure_virtual', '__cxa_call_terminate')
def trap(en, st, *a):
    en.fail(st, 'abnormal termination (abort/terminate)')


@intrinsic('exit')
def c_exit(en, st, *a):
    en.fail(st, 'process exit called')


@intrinsic('__cxa_allocate_exception')
def alloc_exc(en, st, n):
    return Ptr(en.newobj(st, en.conc(st, n), 'heap'), 0)


@intrinsic('__cxa_throw')
def cxa_throw(en, st, p, ti, dtor):
    name = en.obj(st, ti.obj).name if isinstance(ti, Ptr) and ti.obj in en.gmem else str(ti)
    raise Throw(name, p, name)


@intrinsic('__cxa_rethrow')
def cxa_rethrow(en, st):
    if not st.excstack:
        en.fail(st, 'rethrow without an exception')
    p, ti, what = st.excstack[-1]
    raise Throw(ti, p, what)


@intrinsic('__cxa_begin_catch')
def begin_catch(en, st, p):
    st.excstack.append(st.exc)
    if isinstance(p, int) and p == 0:
        return Ptr(en.newobj(st, 64, 'heap'), 0)
    return p


@intrinsic('llvm.eh.typeid')
def typeid_for(en, st, p):
    if isinstance(p, Ptr):
        return en.typeid(en.obj(st, p.obj).name)
    return 1


@intrinsic('_ZNKSt9exception4whatEv')
def what(en, st, p):
    i = en.newobj(st, None, 'cstr')
    st.mem[i].cstr = 'exception'
    return Ptr(i, 0)


@intrinsic('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(en, st, p, n, seed):
    n = en.conc(st, n)
    v = en.load(st, p, ('i', 8 * n))
    if isinstance(v, Cat) and len(v.parts) == 1:
        v = v.parts[0][1]
    if isinstance(v, (Ptr, Fn)):
        v = en.addr(st, v)
    if is_sym(v) and z3.is_real(v):
        f = z3.Function('hash_real', z3.RealSort(), z3.BitVecSort(64))
        return f(v)
    if isinstance(v, Fraction):
        return z3.Function('hash_real', z3.RealSort(), z3.BitVecSort(64))(real(v))
    f = z3.Function('hash_bytes%d' % n, z3.BitVecSort(8 * n), z3.BitVecSort(64))
    return f(bv(v, 8 * n))


@intrinsic('time', 'clock')
def c_time(en, st, *a):
    return en.fresh(st, ('i', 64), 'time')


@intrinsic('rand', 'random')
def c_rand(en, st, *a):
    return en.fresh(st, ('i', 32), 'rand')


@intrinsic('__vf_havoc')
def v_havoc(en, st, pat):
    """give every integer or floating global whose (demangled) name matches an arbitrary value"""
    import re
    p = re.compile(cstring(en, st, pat))
    en.dem('')
    for name in sorted(en.mod.globals):
        d = en.demangled.get(name) or name[1:]
        if not p.search(d):
            continue
        t = en.mod.resolve(en.mod.global_init(name)[0])
        if t[0] not in ('i', 'f') or en.mod.global_init(name)[2]:
            continue
        en.store(st, Ptr(en.gobj(name), 0), t, en.fresh(st, t, 'global'))


@intrinsic('__vf_unsupported')
def vf_unsupported(en, st, what):
    raise Unsupported(cstring(en, st, what))
