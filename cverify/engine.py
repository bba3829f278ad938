"""cverify: path-wise verification-condition generation for LLVM IR, discharged by z3.

One `Engine` holds a parsed module.  `Engine.prove(fn)` executes the contract harness `fn` symbolically over every
feasible path.  Every `__vf_check` is an obligation (pc => cond) handed to z3; memory safety, division by zero and
uncaught exceptions are implicit obligations.  Containers, strings and the heap are values of the state.
"""
import sys, time, re, subprocess
from fractions import Fraction
import os
import z3
from ir import Module

sys.setrecursionlimit(10000)


class Unsupported(Exception):
    pass


class Split(Exception):
    """the current instruction needs a decision: (cond, bool) or (expr, values)"""
    def __init__(self, expr, kind):
        self.expr, self.kind = expr, kind


class PathDead(Exception):
    pass


class Failure(Exception):
    def __init__(self, label, model=None):
        self.label, self.model = label, model


class Throw(Exception):
    """a C++ exception raised by an intrinsic"""
    def __init__(self, ti, ptr, what):
        self.ti, self.ptr, self.what = ti, ptr, what


PROFILE = {} if os.environ.get('VF_PROFILE') else None


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off or (isinstance(o, Ptr) and o.obj == self.obj and isinstance(self.off, int) and isinstance(o.off, int) and o.off == self.off)

    def __hash__(self):
        return hash(self.obj)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class SeqVal:
    """concrete-length sequence: tuple of element object ids"""
    __slots__ = ('elems',)

    def __init__(self, elems=()):
        self.elems = tuple(elems)

    def __repr__(self):
        return 'Seq%r' % (self.elems,)


class StrVal:
    __slots__ = ('v',)   # python str (latin-1 bytes) or z3 String expr

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Str(%r)' % (self.v,)


class Cat:
    """several cells read as one integer"""
    __slots__ = ('parts', 'w')   # parts: list of (byte width, value)

    def __init__(self, parts, w):
        self.parts, self.w = parts, w


class CellRef:
    pass


class Poison:
    """a cell whose values on joined paths have no common representation; reading it is unsupported"""


POISON = Poison()


def same_val(x, y):
    if x is y:
        return True
    if is_sym(x) or is_sym(y):
        return is_sym(x) and is_sym(y) and x.eq(y)
    return type(x) is type(y) and x == y


def new_ref(v, lim):
    """does the value refer to an object created since?"""
    if isinstance(v, Ptr):
        return isinstance(v.obj, int) and v.obj >= lim
    if isinstance(v, Cat):
        return any(new_ref(x, lim) for _, x in v.parts)
    return not (is_sym(v) or isinstance(v, (int, bool, Fraction, float, Fn, StrVal, Poison)))


class Obj:
    __slots__ = ('cells', 'size', 'kind', 'freed', 'owner', 'data', 'name', 'zero', 'cstr', 'ro', 'pinned')

    def __init__(self, size, kind, owner, name=''):
        self.cells = {}
        self.size, self.kind, self.owner, self.name = size, kind, owner, name
        self.freed = False
        self.data = None
        self.zero = False
        self.cstr = None
        self.ro = False

    def clone(self, owner):
        o = Obj(self.size, self.kind, owner, self.name)
        o.cells = dict(self.cells)
        o.freed, o.data, o.zero, o.cstr, o.ro = self.freed, self.data, self.zero, self.cstr, self.ro
        return o


def same_obj(a, b):
    if a.size != b.size or a.freed != b.freed or a.zero != b.zero or len(a.cells) != len(b.cells):
        return False
    if a.data is not b.data:
        if type(a.data) is not SeqVal or type(b.data) is not SeqVal or not same_seq(a.data, b.data):
            return False
    for k, v in a.cells.items():
        w = b.cells.get(k)
        if w is not v and not (type(v) is tuple and type(w) is tuple and len(v) == len(w) and all(x is y or (not is_sym(x) and not is_sym(y) and type(x) is type(y) and x == y) for x, y in zip(v, w))):
            return False
    return True


def same_seq(a, b):
    return False


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'loc', 'dst', 'norm', 'unw', 'prev', 'visits', 'allocas')

    def __init__(self, fn, dst, norm, unw):
        self.fn, self.dst, self.norm, self.unw = fn, dst, norm, unw
        self.block = fn.blocks[fn.entry]
        self.idx = 0
        self.loc = {}
        self.prev = fn.entry
        self.visits = {}
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.dst, f.norm, f.unw, f.block, f.idx, f.prev = self.fn, self.dst, self.norm, self.unw, self.block, self.idx, self.prev
        f.loc = dict(self.loc)
        f.visits = dict(self.visits)
        f.allocas = list(self.allocas)
        return f


class Token:
    pass


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.tok = Token()
        self.pc = []
        self.decided = {}
        self.nextid = 1
        self.ndc = {}
        self.exc = None
        self.excstack = []
        self.addrs = {}
        self.ghost = {}
        self.nds = []
        self.fp = 'real'
        self.steps = 0
        self.trace = []
        self.bounded = False
        self.model = None

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.tok = Token()
        self.tok = Token()
        s.pc = list(self.pc)
        s.decided = dict(self.decided)
        s.nextid = self.nextid
        s.ndc = dict(self.ndc)
        s.exc = self.exc
        s.excstack = list(self.excstack)
        s.addrs = dict(self.addrs)
        s.ghost = dict(self.ghost)
        s.nds = list(self.nds)
        s.fp = self.fp
        s.steps = self.steps
        s.trace = list(self.trace)
        s.bounded = self.bounded
        s.model = self.model
        return s


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def bv(x, w):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, (Ptr, Fn, Cat, SeqVal, StrVal)):
        raise Unsupported('non-integer used as integer: %r' % (x,))
    if x.sort_kind() == z3.Z3_BV_SORT and x.size() != w:
        raise Unsupported('width mismatch %s %d' % (x.sort(), w))
    return x


def boo(x):
    if isinstance(x, (int, bool)):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    if z3.is_bv(x):
        return x == z3.BitVecVal(1, x.size())
    raise Unsupported('bool of %r' % (x,))


def real(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        raise Failure('arithmetic: a non-finite floating-point value is used')
    if is_sym(x) and z3.is_real(x):
        return x
    raise Unsupported('real of %r' % (x,))


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


def bool_of_bv(x):
    """if x is If(c, 1, 0) (any width) return c"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        a, b = x.arg(1), x.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            la, lb = a.as_long(), b.as_long()
            if (la & 1) == 1 and (lb & 1) == 0:
                return x.arg(0)
            if (la & 1) == 0 and (lb & 1) == 1:
                return z3.Not(x.arg(0))
    return None


# representable in every floating point width
LANDMARKS = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(-1, 2), Fraction(-1), 1 - Fraction(1, 1 << 24)]


class Solver:
    def __init__(self, timeout):
        self.timeout = timeout
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.stack = []
        self.time = 0.0
        self.calls = 0

    def sync(self, pc):
        n = 0
        m = min(len(pc), len(self.stack))
        while n < m and self.stack[n] is pc[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
        for e in pc[n:]:
            self.s.push()
            self.s.add(e)
            self.stack.append(e)

    def check(self, pc, *extra, timeout=None):
        t = time.time()
        self.calls += 1
        try:
            self.sync(pc)
            if timeout:
                self.s.set('timeout', timeout)
            r = self.s.check(*extra)
            if timeout:
                self.s.set('timeout', self.timeout)
            return r
        except z3.Z3Exception as e:
            raise Unsupported('z3: %s' % e)
        finally:
            self.time += time.time() - t

    def model(self):
        return self.s.model()


INTR = {}


def intrinsic(*names):
    def d(f):
        for n in names:
            INTR['@' + n] = f
        return f
    return d


class Obligation:
    def __init__(self, label):
        self.label = label
        self.ok = 0
        self.failed = []      # list of dict(nd values)
        self.unknown = 0
        self.time = 0.0
        self.backend = set()


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(timeout=20000, feas_timeout=3000, max_steps=60000000, max_paths=20000, max_time=240, loop_limit=5000, sym_loop_limit=40)
        self.o.update(opts or {})
        self.gid = {}
        self.gmem = {}
        self.gnext = -1
        self.solver = Solver(self.o['timeout'])
        self.merge = set()         # side-effect-free functions whose paths are joined
        self.merges = 0
        self.t0 = time.time()
        self.overrides = {}        # mangled -> stub function name
        self.reach = set()         # functions of /repo executed
        self.verbose = False
        self.demangled = None
        self.uf = {}
        self.pyenums = []
        self.stop_after_fail = 1

    # ------------------------------------------------------------ memory
    def gobj(self, name):
        i = self.gid.get(name)
        if i is None:
            i = self.gnext
            self.gnext -= 1
            self.gid[name] = i
            if name not in self.mod.globals:
                raise Unsupported('global %s' % name)
            t, init, const = self.mod.global_init(name)
            o = Obj(self.mod.sizeof(t), 'global', None, name)
            o.ro = const
            if init is None:
                o.kind = 'extern'
            elif init[0] == 'str':
                o.data = init[1]
            else:
                o.zero = True
                self.gmem[i] = o
                self._init_cells(o, t, init, 0)
            self.gmem[i] = o
        return i

    def _init_cells(self, o, t, v, off):
        t = self.mod.resolve(t)
        if v[0] in ('zero', 'undef'):
            return
        if v[0] == 'null':
            o.cells[off] = (8, 0)
            return
        if t[0] == 's':
            for i, (ft, fv) in enumerate(v[1]):
                fo, _ = self.mod.field_off(t, i)
                self._init_cells(o, ft, fv, off + fo)
        elif t[0] == 'a':
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, b)
                return
            es = self.mod.sizeof(t[2])
            for i, (ft, fv) in enumerate(v[1]):
                self._init_cells(o, ft, fv, off + i * es)
        else:
            o.cells[off] = (self.bw(t), self.const(t, v))

    def const(self, t, v):
        return self.val(None, None, v, t)

    def bw(self, t):
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'p':
            return 8
        raise Unsupported('byte width of %r' % (t,))

    def newobj(self, st, size, kind, name=''):
        i = st.nextid
        st.nextid += 1
        st.mem[i] = Obj(size, kind, st.tok, name)
        return i

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None:
                raise Unsupported('unknown object')
        return o

    def wobj(self, st, i):
        o = self.obj(st, i)
        if o.owner is not st.tok:
            o = o.clone(st.tok)
            st.mem[i] = o
        return o

    def where(self, st):
        names = []
        for f in reversed(st.frames):
            n = self.dem(f.fn.name)
            if not n.startswith(('std::', 'void std::', 'bool std::')):
                names.append(n.split('(')[0])
            if len(names) >= 2:
                break
        return ' <- '.join(names)

    def dem(self, n):
        if self.demangled is None:
            fn = sorted(self.mod.funcs) + sorted(self.mod.globals)
            p = subprocess.run(['c++filt'], input='\n'.join(x[1:] for x in fn), capture_output=True, text=True)
            self.demangled = dict(zip(fn, p.stdout.split('\n')))
        return self.demangled.get(n, n)

    def fail(self, st, label):
        raise Failure('%s at %s' % (label, self.where(st)))

    def deref(self, st, p, w, write=False):
        if isinstance(p, int):
            if p == 0:
                self.fail(st, 'memory safety: null pointer dereference')
            self.fail(st, 'memory safety: wild pointer dereference')
        if isinstance(p, Ptr):
            o = self.obj(st, p.obj)
            if o.freed:
                self.fail(st, 'memory safety: use after free')
            off = p.off
            if not isinstance(off, int):
                off = self.conc(st, off)
                off = sgn(off, 64)
                p = Ptr(p.obj, off)
            if o.size is not None and (off < 0 or off + w > o.size):
                self.fail(st, 'memory safety: access out of bounds')
            if write and o.ro:
                self.fail(st, 'memory safety: write to constant')
            return p
        if is_sym(p):
            raise Unsupported('dereference of symbolic integer')
        raise Unsupported('dereference of %r' % (p,))

    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if t[0] == 's':
            return tuple(self.load(st, self.addoff(p, self.mod.field_off(t, i)[0]), self.mod.field_off(t, i)[1]) for i in range(len(t[1])))
        if t[0] in ('a', 'vec'):
            es = self.mod.sizeof(t[2])
            return tuple(self.load(st, self.addoff(p, i * es), t[2]) for i in range(t[1]))
        w = self.bw(t)
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            r = self.load_table(st, p, w, t)
            if r is not None:
                return r
        p = self.deref(st, p, w)
        o = self.obj(st, p.obj)
        v = self.read(st, o, p.obj, p.off, w, t)
        return self.conv(st, v, t)

    def load_table(self, st, p, w, t):
        """symbolic index into a constant table: ITE over the entries"""
        o = self.obj(st, p.obj)
        if o.size is None or o.size > 4096 or not (o.data is not None or o.kind == 'global'):
            return None
        if not o.ro:
            return None
        off = simp(p.off)
        if isinstance(off, int):
            return None
        n = o.size
        # find the stride: try alignment w
        vals = []
        for k in range(0, n - w + 1, w):
            v = self.conv(st, self.read(st, o, p.obj, k, w, t), t)
            if not (isinstance(v, (int, Fraction)) or (is_sym(v))):
                return None
            vals.append((k, v))
        # in bounds?
        ok = z3.And(z3.ULE(off, z3.BitVecVal(n - w, 64)), z3.URem(off, z3.BitVecVal(w, 64)) == 0)
        if self.solver.check(st.pc, z3.Not(ok), timeout=self.o['feas_timeout']) != z3.unsat:
            return None
        if t[0] == 'p':
            return None
        mk = (lambda v: real(v)) if t[0] == 'f' else (lambda v: bv(v, t[1]))
        # group by equal values
        r = mk(vals[-1][1])
        groups = {}
        for k, v in vals[:-1]:
            groups.setdefault(v if not is_sym(v) else ('s', v.get_id()), [v, []])[1].append(k)
        last = vals[-1][1]
        for key, (v, ks) in groups.items():
            if not is_sym(v) and not is_sym(last) and v == last:
                continue
            r = z3.If(z3.Or([off == z3.BitVecVal(k, 64) for k in ks]), mk(v), r)
        return r

    def read(self, st, o, oid, off, w, t):
        c = o.cells.get(off)
        if c is not None and c[0] == w:
            if c[1] is POISON:
                raise Unsupported('use of a value that differs between joined paths')
            return c[1]
        if o.data is not None:
            b = o.data[off:off + w]
            return int.from_bytes(b, 'little')
        if o.cstr is not None:
            return self.cstr_at(st, o, off)
        # overlapping cells
        lo = None
        over = []
        for k in range(off - 47, off + w):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                over.append((k, c))
        if not over:
            if o.zero:
                return 0
            v = self.fresh(st, t, 'uninit')
            if o.kind in ('heap', 'stack', 'elem'):
                o = self.wobj(st, oid)
                o.cells[off] = (w, v)
            return v
        # exact tiling -> Cat
        parts = []
        pos = off
        for k, c in over:
            if k > pos:
                parts.append((k - pos, 0 if o.zero else self.fresh(st, ('i', 8 * (k - pos)), 'uninit')))
                pos = k
            if k < pos or k + c[0] > off + w:
                # partial piece: take bytes
                s = pos - k
                e = min(k + c[0], off + w) - k
                parts.append((e - s, self.bytes_of(c[1], c[0], s, e)))
                pos = k + e
            else:
                parts.append((c[0], c[1]))
                pos = k + c[0]
        if pos < off + w:
            parts.append((off + w - pos, 0 if o.zero else self.fresh(st, ('i', 8 * (off + w - pos)), 'uninit')))
        if len(parts) == 1:
            return parts[0][1]
        return Cat(parts, w)

    def bytes_of(self, v, w, s, e):
        if isinstance(v, int):
            return (v >> (8 * s)) & mask(8 * (e - s))
        if isinstance(v, Cat):
            pos = 0
            out = []
            for pw, pv in v.parts:
                a, b = max(s, pos), min(e, pos + pw)
                if a < b:
                    out.append((b - a, pv if (a == pos and b == pos + pw) else self.bytes_of(pv, pw, a - pos, b - pos)))
                pos += pw
            return out[0][1] if len(out) == 1 else Cat(out, e - s)
        if is_sym(v) and (z3.is_bv(v) or z3.is_bool(v)):
            return simp(z3.Extract(8 * e - 1, 8 * s, bv(v, 8 * w)))
        raise Unsupported('partial read of %r' % (v,))

    def conv(self, st, v, t):
        """adapt stored value to the loaded type"""
        k = t[0]
        if isinstance(v, Cat):
            if k == 'p':
                raise Unsupported('pointer from pieces')
            if all(isinstance(x, int) or (is_sym(x) and z3.is_bv(x)) for _, x in v.parts):
                if all(isinstance(x, int) for _, x in v.parts):
                    r, s = 0, 0
                    for pw, pv in v.parts:
                        r |= pv << s
                        s += 8 * pw
                    v = r
                else:
                    v = z3.Concat([bv(x, 8 * pw) for pw, x in reversed(v.parts)])
            elif k == 'i':
                return v
            else:
                raise Unsupported('float from pieces')
        if k == 'i':
            if isinstance(v, int):
                return v & mask(t[1])
            if isinstance(v, (Fraction, float)):
                if v == 0:
                    return 0
                return Cat([(t[1] // 8, v)], t[1] // 8)
            if isinstance(v, (Ptr, Fn)):
                return v          # pointer carried in an integer register
            if is_sym(v):
                if z3.is_bool(v):
                    return v if t[1] == 1 else bv(v, t[1])
                if z3.is_bv(v):
                    if v.size() > t[1]:
                        return simp(z3.Extract(t[1] - 1, 0, v))
                    return v
                if z3.is_real(v):
                    return Cat([(t[1] // 8, v)], t[1] // 8)
            raise Unsupported('integer load of %r' % (v,))
        if k == 'f':
            if isinstance(v, int):
                if v == 0:
                    return Fraction(0)
                import struct
                f = struct.unpack('<f' if t[1] == 32 else '<d', v.to_bytes(t[1] // 8, 'little'))[0]
                return Fraction(f) if f == f and abs(f) != float('inf') else f
            if isinstance(v, (Fraction, float)):
                return v
            if is_sym(v) and z3.is_real(v):
                return v
            raise Unsupported('float load of %r' % (v,))
        if k == 'p':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, int):
                return v
            if is_sym(v):
                return v
            raise Unsupported('pointer load of %r' % (v,))
        raise Unsupported('load type %r' % (t,))

    def store(self, st, p, t, v):
        t = self.mod.resolve(t)
        if t[0] == 's':
            for i in range(len(t[1])):
                fo, ft = self.mod.field_off(t, i)
                self.store(st, self.addoff(p, fo), ft, v[i])
            return
        if t[0] in ('a', 'vec'):
            es = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self.store(st, self.addoff(p, i * es), t[2], v[i])
            return
        w = self.bw(t)
        p = self.deref(st, p, w, True)
        o = self.wobj(st, p.obj)
        if isinstance(v, Cat):
            off = p.off
            self.clear(st, o, off, w)
            for pw, pv in v.parts:
                o.cells[off] = (pw, pv)
                off += pw
            return
        self.write(st, o, p.off, w, v)

    def clear(self, st, o, off, w):
        if o.data is not None:
            for i, b in enumerate(o.data):
                o.cells[i] = (1, b)
            o.data = None
        for k in range(off - 47, off + w):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                del o.cells[k]
                if k < off:
                    o.cells[k] = (off - k, self.bytes_of(c[1], c[0], 0, off - k)) if not isinstance(c[1], (SeqVal, StrVal)) else c
                if k + c[0] > off + w and not isinstance(c[1], (SeqVal, StrVal, Ptr, Fn)):
                    e = k + c[0] - (off + w)
                    o.cells[off + w] = (e, self.bytes_of(c[1], c[0], off + w - k, c[0]))

    def write(self, st, o, off, w, v):
        c = o.cells.get(off)
        if c is None or c[0] != w:
            self.clear(st, o, off, w)
        o.cells[off] = (w, v)

    def addoff(self, p, n):
        if isinstance(p, Ptr):
            if isinstance(n, int) and isinstance(p.off, int):
                return Ptr(p.obj, p.off + n)
            a = bv(p.off & mask(64), 64) if isinstance(p.off, int) else p.off
            b = bv(n & mask(64), 64) if isinstance(n, int) else n
            r = simp(a + b)
            return Ptr(p.obj, sgn(r, 64) if isinstance(r, int) else r)
        if isinstance(p, int):
            if isinstance(n, int):
                return (p + n) & mask(64)
            return simp(bv(p, 64) + n)
        if is_sym(p):
            return simp(p + bv(n & mask(64) if isinstance(n, int) else n, 64))
        raise Unsupported('pointer arithmetic on %r' % (p,))

    # ------------------------------------------------------------ symbolic values
    def fresh(self, st, t, name='v'):
        k = st.ndc.get(name, 0)
        st.ndc[name] = k + 1
        n = '%s!%d' % (name, k)
        if t[0] == 'i':
            if t[1] == 1:
                return z3.Bool(n)
            return z3.BitVec(n, t[1])
        if t[0] == 'f':
            return z3.Real(n)
        if t[0] == 'p':
            return z3.BitVec(n, 64)
        if t[0] in ('s', 'a', 'n'):
            t = self.mod.resolve(t)
            if t[0] == 's':
                return tuple(self.fresh(st, f, name) for f in t[1])
            return tuple(self.fresh(st, t[2], name) for _ in range(t[1]))
        if t[0] == 'meta':
            return 0
        raise Unsupported('fresh %r' % (t,))

    def addr(self, st, p):
        """integer address of a pointer"""
        if isinstance(p, int) or is_sym(p):
            return p
        key = p.obj if isinstance(p, Ptr) else p.name
        a = st.addrs.get(key)
        if a is None:
            a = z3.BitVec('addr!%s' % key, 64)
            size = 1
            if isinstance(p, Ptr):
                size = self.obj(st, p.obj).size or 1
            cs = [z3.UGT(a, 4096), z3.ULT(a, 1 << 47)]
            if isinstance(p, Ptr) and self.obj(st, p.obj).kind in ('heap', 'stack'):
                cs.append(z3.Extract(2, 0, a) == 0)
            for k2, (b, s2) in ((k, v) for k, v in st.addrs.items()):
                cs.append(z3.Or(z3.ULE(a + size, b), z3.ULE(b + s2, a)))
            st.addrs[key] = (a, size)
            st.pc.extend(cs)
        else:
            a = a[0]
        if isinstance(p, Ptr):
            off = p.off
            if isinstance(off, int):
                if off:
                    a = a + (off & mask(64))
            else:
                a = a + off
        return a

    def feasible(self, st, cond):
        r = self.solver.check(st.pc, cond, timeout=self.o['feas_timeout'])
        return r != z3.unsat

    def decide(self, st, c):
        """truth value of c on this path, splitting the path if both are possible"""
        if isinstance(c, (int, bool)):
            return bool(c)
        if z3.is_bv(c):
            c = boo(c)
        d = st.decided.get(c.get_id())
        if d is not None:
            return d[1]
        s = simp(c)
        if isinstance(s, int):
            return bool(s)
        d = st.decided.get(s.get_id())
        if d is not None:
            return d[1]
        t = self.feasible(st, s)
        if not t:
            st.decided[c.get_id()] = (c, False)
            st.decided[s.get_id()] = (s, False)
            return False
        f = self.feasible(st, z3.Not(s))
        if not f:
            st.decided[c.get_id()] = (c, True)
            st.decided[s.get_id()] = (s, True)
            return True
        raise Split((c, s), 'bool')

    def conc(self, st, e):
        """concrete value of integer e, splitting the path over its feasible values"""
        if isinstance(e, (int, bool)):
            return int(e)
        if isinstance(e, (Ptr, Fn)):
            raise Unsupported('pointer used as index')
        d = st.decided.get(e.get_id())
        if d is not None:
            return int(d[1])
        s = simp(e)
        if isinstance(s, int):
            return s
        d = st.decided.get(s.get_id())
        if d is not None:
            return int(d[1])
        raise Split((e, s), 'int')

    def do_split(self, st, sp):
        """st: state positioned at the instruction to re-execute"""
        e, s = sp.expr
        out = []
        if sp.kind == 'bool':
            for v in (True, False):
                n = st.fork()
                n.pc.append(s if v else z3.Not(s))
                n.decided[e.get_id()] = (e, v)
                n.decided[s.get_id()] = (s, v)
                out.append(n)
            return out
        vals = []
        blk = []
        while True:
            r = self.solver.check(st.pc, *blk)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Unsupported('cannot enumerate index values')
            v = self.solver.model().eval(s, model_completion=True).as_long()
            vals.append(v)
            blk.append(s != v)
            if len(vals) > self.o.get('max_split', 48):
                raise Unsupported('too many values for a symbolic index')
        for v in sorted(vals):
            n = st.fork()
            n.pc.append(s == v)
            n.decided[e.get_id()] = (e, v)
            n.decided[s.get_id()] = (s, v)
            out.append(n)
        return out

    def assume(self, st, c):
        if isinstance(c, (int, bool)):
            if not c:
                raise PathDead()
            return
        c = boo(c)
        s = simp(c)
        if isinstance(s, int):
            if not s:
                raise PathDead()
            return
        if not self.feasible(st, s):
            raise PathDead()
        st.pc.append(s)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, o, t):
        k = o[0]
        if k == 'l':
            try:
                return fr.loc[o[1]]
            except KeyError:
                raise Unsupported('local %s in %s' % (o[1], fr.fn.name))
        if k == 'c':
            return o[1]
        if k == 'g':
            n = o[1]
            if n in self.mod.funcs or n in self.mod.decls:
                return Fn(n)
            if n in self.mod.aliases:
                return self.val(st, fr, self.mod.aliases[n], ('p',))
            return Ptr(self.gobj(n), 0)
        if k == 'null':
            return 0
        if k == 'zero':
            return self.zero(o[1])
        if k == 'undef':
            if st is None:
                return self.zero(o[1])
            if self.mod.resolve(o[1])[0] in ('s', 'a', 'vec'):
                return self.zero(o[1])
            return self.fresh(st, o[1], 'undef')
        if k == 'agg':
            return tuple(self.val(st, fr, v, tt) for tt, v in o[1])
        if k == 'ce':
            if o[1] == 'gep':
                base = self.val(st, fr, o[3][0][1], ('p',))
                return self.gep(st, fr, o[2], base, o[3][1:])
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.val(st, fr, o[3], o[2])
            raise Unsupported('constant expression %s' % o[1])
        if k == 'str':
            return tuple(o[1])
        raise Unsupported('operand %r' % (o,))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i' or t[0] == 'p':
            return 0
        if t[0] == 'f':
            return Fraction(0)
        if t[0] == 's':
            return tuple(self.zero(f) for f in t[1])
        if t[0] in ('a', 'vec'):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %r' % (t,))

    def gep(self, st, fr, bt, base, args):
        off = 0
        sym = None
        t = bt
        for n, (it, iv) in enumerate(args):
            i = self.val(st, fr, iv, it)
            if isinstance(i, int):
                i = sgn(i, it[1])
            if n == 0:
                s = self.mod.sizeof(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 's':
                    fo, t = self.mod.field_off(t, i)
                    off += fo
                    continue
                t = t[2]
                s = self.mod.sizeof(t)
            if isinstance(i, int):
                off += i * s
            else:
                if is_sym(i) and i.size() < 64:
                    i = z3.SignExt(64 - i.size(), i)
                e = i * z3.BitVecVal(s, 64)
                sym = e if sym is None else sym + e
        if sym is None:
            return self.addoff(base, off) if off else base
        return self.addoff(self.addoff(base, sym), off)

    # ------------------------------------------------------------ instructions
    def icmp(self, st, pred, t, a, b):
        t = self.mod.resolve(t)
        if t[0] == 'p' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                w = 64
                a = a.off & mask(64) if isinstance(a.off, int) else a.off
                b = b.off & mask(64) if isinstance(b.off, int) else b.off
                if pred in ('ult', 'ule', 'ugt', 'uge'):
                    pred = 's' + pred[1:]
                t = ('i', 64)
            elif pred in ('eq', 'ne') and isinstance(a, (Ptr, Fn)) and isinstance(b, (Ptr, Fn)):
                eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return int(eq == (pred == 'eq'))
            elif pred in ('eq', 'ne') and (isinstance(a, int) and a < 4096 or isinstance(b, int) and b < 4096) and (isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn))):
                return int(pred == 'ne')
            else:
                a, b = self.addr(st, a), self.addr(st, b)
                t = ('i', 64)
        w = t[1]
        if isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported('comparison of raw bytes')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:] if pred not in ('eq', 'ne') else pred])
        if w == 1:
            a, b = boo(a), boo(b)
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            a, b = bv(a, 1), bv(b, 1)
        else:
            # comparing a zero-extended boolean with a constant
            if pred in ('eq', 'ne') and isinstance(b, int) and is_sym(a) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE \
                    and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                x, y = a.arg(1).as_long() == b, a.arg(2).as_long() == b
                if pred == 'ne':
                    x, y = not x, not y
                if x and y:
                    return 1
                if not x and not y:
                    return 0
                return a.arg(0) if x else simp(z3.Not(a.arg(0)))
            a, b = bv(a, w), bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simp(r)

    def binop(self, st, op, t, a, b):
        w = t[1]
        if op[0] == 'f':
            return self.fbin(st, op, w, a, b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported('arithmetic on raw bytes')
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return (a.off - b.off) & mask(w) if isinstance(a.off, int) and isinstance(b.off, int) else simp(bv(a.off, 64) - bv(b.off, 64))
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.addoff(a, sgn(b, 64) if isinstance(b, int) else b)
            if op == 'and' and isinstance(a, Fn) and b == 1 and isinstance(b, int):
                return 0                # functions are aligned: a pointer to a member function is not virtual
            a, b = self.addr(st, a), self.addr(st, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = a >> b
            elif op == 'ashr': r = sgn(a, w) >> b
            else:
                if b == 0:
                    self.fail(st, 'arithmetic: division by zero')
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    x, y = sgn(a, w), sgn(b, w)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    r = q if op == 'sdiv' else x - q * y
            return r & mask(w)
        if w == 1:
            a, b = boo(a), boo(b)
            if op == 'and': return simp(z3.And(a, b))
            if op == 'or': return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if op == 'and':
            if b == 0 and isinstance(b, int) or isinstance(a, int) and a == 0:
                return 0
        a, b = bv(a, w), bv(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.decide(st, b == 0):
                self.fail(st, 'arithmetic: division by zero')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]()
        return simp(r)

    def fbin(self, st, op, w, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return float('nan')
        if op == 'fdiv':
            # the compiler speculates divisions past their guards: only the *use* of x/0 is a failure
            if not is_sym(b):
                if b == 0:
                    return float('nan')
            elif self.decide(st, b == 0):
                return float('nan')
        if op == 'frem':
            raise Unsupported('frem')
        if not is_sym(a) and not is_sym(b):
            r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            if st.fp == 'round':
                r = self.fl(r, w)
            return r
        x, y = real(a), real(b)
        if op == 'fdiv':
            r = x / y
        else:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y}[op]()
        if st.fp == 'round':
            if is_sym(a) and is_sym(b) and op == 'fmul' or is_sym(b) and op == 'fdiv':
                r = self.abstract_nl(st, op, x, y, r)
            return self.rnd(st, r, w, [a, b], op)
        return r

    def abstract_nl(self, st, op, x, y, exact):
        """name the exact product/quotient and state linear facts about it; its definition is only used when those do not suffice"""
        e = self.fresh(st, ('f', 64), 'nl')
        I, A = z3.Implies, z3.And
        cs = []
        prev = st.ghost.get('nls', ())
        if op == 'fmul':
            for u, v in ((x, y), (y, x)):
                cs += [I(A(u >= 0, v >= 0), e >= 0), I(A(u >= 0, v <= 0), e <= 0), I(A(u <= 0, v <= 0), e >= 0), I(u == 0, e == 0), I(u == 1, e == v),
                       I(A(v >= 0, u >= 0, u <= 1), e <= v), I(A(v >= 0, u >= 1), e >= v), I(A(v <= 0, u >= 0, u <= 1), e >= v)]
                for (o2, x2, y2, e2) in prev:
                    if o2 != 'fmul':
                        continue
                    for u2, v2 in ((x2, y2), (y2, x2)):
                        if v2.eq(v):
                            cs += [I(A(v >= 0, u <= u2), e <= e2), I(A(v >= 0, u >= u2), e >= e2)]
        else:
            cs += [I(A(x >= 0, y > 0), e >= 0), I(A(x <= 0, y > 0), e <= 0), I(A(y > 0, x <= y), e <= 1), I(A(y > 0, x >= y), e >= 1), I(x == 0, e == 0), I(y == 1, e == x),
                   I(A(x > 0, y > 0), e > 0), I(A(x >= 0, y > 0, y <= 1), e >= x), I(A(x >= 0, y >= 1), e <= x)]
            for (o2, x2, y2, e2) in prev:
                if o2 == 'fdiv' and y2.eq(y):
                    cs += [I(A(y > 0, x <= x2), e <= e2), I(A(y > 0, x >= x2), e >= e2)]
        st.ghost['nls'] = prev + ((op, x, y, e),)
        st.ghost['nldefs'] = st.ghost.get('nldefs', ()) + (e == exact,)
        st.pc.append(z3.And(cs))
        return e

    def fl(self, q, w):
        import struct
        f = float(q)
        if w == 32:
            f = struct.unpack('<f', struct.pack('<f', f))[0]
        return Fraction(f)

    def rnd(self, st, exact, w, ops, op):
        """result of a correctly rounded operation: rounding is monotone and exact on representable numbers.
        Known representable: operands of the same width, 0, 1/2, 1, 2.  Overflow is excluded by the range obligations."""
        r = self.fresh(st, ('f', w), 'rnd')
        if op == 'trunc' and self.o.get('f32'):
            ops = list(ops) + [v for v in st.ghost.get('f32', ())]
        cs = []
        for k in LANDMARKS + list(st.ghost.get('landmarks', ())) + [o for o in ops if is_sym(o) or o not in LANDMARKS]:
            kk = real(k)
            cs.append(z3.Implies(exact >= kk, r >= kk))
            cs.append(z3.Implies(exact <= kk, r <= kk))
        if op in ('fadd', 'fsub'):
            # Sterbenz/exponent fact: a float sum or difference that is not exactly 0 does not round to 0
            cs.append(z3.Implies(exact > 0, r > 0))
            cs.append(z3.Implies(exact < 0, r < 0))
        # monotone with respect to earlier roundings of this path (same width)
        prev = st.ghost.get('rnds', ())
        for (e2, r2, w2, op2) in prev[-self.o.get('rndmem', 40):]:
            if w2 == w and op2 == op:
                cs.append(z3.Implies(exact <= e2, r <= r2))
                cs.append(z3.Implies(exact >= e2, r >= r2))
        st.ghost['rnds'] = prev + ((exact, r, w, op),)
        st.pc.append(z3.And(cs))
        return r

    def fcmp(self, st, pred, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if not is_sym(a) and not is_sym(b):
                fa, fb = float(a), float(b)
                un = fa != fa or fb != fb
                r = {'eq': fa == fb, 'ne': fa != fb and not un, 'lt': fa < fb, 'le': fa <= fb, 'gt': fa > fb, 'ge': fa >= fb}.get(pred[1:])
                if pred == 'ord': return int(not un)
                if pred == 'uno': return int(un)
                return int((r or un) if pred[0] == 'u' else (r and not un))
            # symbolic values are finite
            c = b if isinstance(b, float) else a
            if c != c:
                return 1 if pred[0] == 'u' else 0
            lt = (isinstance(b, float)) == (c > 0)   # a < b
            return int({'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[pred[1:]] if pred not in ('ord', 'uno') else pred == 'ord')
        if pred == 'ord': return 1
        if pred == 'uno': return 0
        if pred == 'true': return 1
        if pred == 'false': return 0
        p = pred[1:]
        if not is_sym(a) and not is_sym(b):
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        a, b = real(a), real(b)
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[p]())

    def cast(self, st, op, t, a, t2):
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            if t == t2:
                return a
            if t[0] == 'vec' and t2[0] != 'vec':
                es = self.mod.sizeof(t[2])
                return self.conv(st, Cat([(es, x) for x in a], es * t[1]), t2) if t2[0] == 'i' else Cat([(es, x) for x in a], es * t[1])
            if t2[0] == 'vec' and isinstance(a, Cat):
                return tuple(v for w, v in a.parts)
            if t[0] == 'f' and t2[0] == 'i' or t[0] == 'i' and t2[0] == 'f':
                if isinstance(a, Cat) and len(a.parts) == 1:
                    return a.parts[0][1]
                return self.conv(st, a, t2)
            return a
        if op == 'ptrtoint':
            if t2[1] != 64:
                return self.cast(st, 'trunc', ('i', 64), self.addr(st, a), t2)
            return a if isinstance(a, (Ptr, Fn)) and True else a
        if op == 'inttoptr':
            return a
        if op == 'trunc':
            w = t2[1]
            if isinstance(a, (Ptr, Fn)):
                a = self.addr(st, a)
            if isinstance(a, int):
                return a & mask(w)
            if isinstance(a, Cat):
                if w % 8 == 0:
                    return self.conv(st, self.bytes_of(a, a.w, 0, w // 8), t2)
                raise Unsupported('trunc raw bytes')
            if w == 1:
                b = bool_of_bv(a)
                if b is not None:
                    return b
                return simp(z3.Extract(0, 0, a) == 1)
            return simp(z3.Extract(w - 1, 0, a))
        if op in ('zext', 'sext'):
            w, w2 = t[1], t2[1]
            if isinstance(a, int):
                return a if op == 'zext' else sgn(a, w) & mask(w2)
            if isinstance(a, Cat):
                if op == 'zext':
                    return Cat(a.parts + [((w2 - w) // 8, 0)], w2 // 8)
                raise Unsupported('sext raw bytes')
            if isinstance(a, (Ptr, Fn)):
                return a
            if w == 1:
                return z3.If(boo(a), z3.BitVecVal(1 if op == 'zext' else mask(w2), w2), z3.BitVecVal(0, w2))
            if op == 'zext' and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                return z3.If(a.arg(0), z3.BitVecVal(a.arg(1).as_long(), w2), z3.BitVecVal(a.arg(2).as_long(), w2))
            return z3.ZeroExt(w2 - w, a) if op == 'zext' else z3.SignExt(w2 - w, a)
        if op in ('fptrunc', 'fpext'):
            if st.fp == 'round' and op == 'fptrunc':
                if not is_sym(a):
                    return self.fl(a, t2[1]) if not isinstance(a, float) else a
                return self.rnd(st, a, t2[1], [], 'trunc')
            if op == 'fptrunc' and is_sym(a) and z3.is_const(a) and t2[1] == 32:
                # an input of type float: exactly representable
                st.ghost['f32'] = st.ghost.get('f32', ()) + (a,)
            return a
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, int):
                return Fraction(sgn(a, t[1]) if op == 'sitofp' else a)
            if isinstance(a, (Ptr, Fn, Cat)):
                raise Unsupported('pointer to float')
            i = self.int_of(st, a, op == 'sitofp')
            self.i2bv[i.get_id()] = (i, a, op == 'sitofp')
            if st.fp == 'round' and t[1] > (53 if t2[1] == 64 else 24):
                return self.rnd(st, z3.ToReal(i), t2[1], [], 'conv')
            return z3.ToReal(i)
        if op in ('fptosi', 'fptoui'):
            if isinstance(a, float):
                raise Unsupported('conversion of non-finite')
            if not is_sym(a):
                q = abs(a.numerator) // a.denominator
                return (q if a >= 0 else -q) & mask(t2[1])
            x = real(a)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL and x.arg(0).get_id() in self.i2bv:
                _, b, sg = self.i2bv[x.arg(0).get_id()]   # an integer converted to floating point and back
                n = b.size()
                return z3.Extract(t2[1] - 1, 0, b) if n > t2[1] else b if n == t2[1] else (z3.SignExt if sg else z3.ZeroExt)(t2[1] - n, b)
            i = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return z3.Int2BV(i, t2[1])
        raise Unsupported('cast ' + op)

    def int_of(self, st, a, signed):
        import mirror
        x = mirror.to_int(self, st, a, signed)
        return x if x is not None else z3.BV2Int(a, signed)

    # ------------------------------------------------------------ main loop
    def prove(self, name, init=None):
        """run one harness; returns dict of results"""
        self.obl = {}
        self.i2bv = {}
        self.covers = {}
        self.notes = []
        self.npaths = 0
        t0 = self.t0 = time.time()
        st = init.fork() if init is not None else State()
        st.frames = []
        fn = self.mod.func(name)
        if fn is None:
            raise Unsupported('no harness %s' % name)
        st.frames.append(Frame(fn, None, None, None))
        work = [st]
        err = None
        steps0 = 0
        self.total_steps = 0
        self.nd_seen = {}
        self.bounds = set()
        ended = 0
        while work:
            st = work.pop()
            if time.time() - t0 > self.o['max_time']:
                err = 'time limit'
                break
            if self.npaths > self.o['max_paths']:
                err = 'path limit'
                break
            try:
                res = self.run(st, t0)
                if res is None:
                    ended += 1
                    self.npaths += 1
                else:
                    work.extend(reversed(res))
            except StopProof:
                self.npaths += 1
                err = 'stopped after failure'
                break
            except Failure as f:
                self.npaths += 1
                self.record_fail(st, f.label)
                if sum(len(o.failed) for o in self.obl.values()) >= self.o.get('max_fail', 1):
                    err = 'stopped after failure'
                    break
            except PathDead:
                self.npaths += 1
            except Unsupported as u:
                err = 'unsupported: %s [%s]' % (u, self.where(st))
                if self.verbose:
                    import traceback
                    traceback.print_exc()
                    self.dump(st)
                break
        return dict(error=err, obligations=self.obl, covers=self.covers, paths=self.npaths, ended=ended, seconds=time.time() - t0,
                    steps=self.total_steps, bounds=sorted(self.bounds))

    def dump(self, st):
        for f in st.frames[-6:]:
            print('   frame', self.dem(f.fn.name)[:100], f.idx, f.block[max(0, f.idx - 1)] if f.block else '', file=sys.stderr)

    def record_fail(self, st, label):
        o = self.obl.setdefault(label, Obligation(label))
        t = time.time()
        r = self.solver.check(st.pc)
        if r == z3.sat:
            o.failed.append(self.model_values(st))
        elif r == z3.unsat:
            pass
        else:
            o.unknown += 1
        o.time += time.time() - t

    def model_values(self, st, model=None):
        m = model or self.solver.model()
        out = []
        for name, kind, e in st.nds:
            if not is_sym(e):
                v = e
            else:
                v = m.eval(e, model_completion=True)
                if z3.is_bv_value(v):
                    v = v.as_long()
                elif z3.is_true(v):
                    v = 1
                elif z3.is_false(v):
                    v = 0
                elif z3.is_rational_value(v):
                    v = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    a = v.approx(20)
                    v = Fraction(a.numerator_as_long(), a.denominator_as_long())
                elif z3.is_int_value(v):
                    v = v.as_long()
                elif z3.is_string_value(v):
                    v = decode_z3str(v.as_string())
                else:
                    v = str(v)
            if kind == 'int':
                w = 64
                v = sgn(v & mask(64), 64)
            out.append((name, kind, v))
        return out

    def run(self, st, t0):
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.block[fr.idx]
            fr.idx += 1
            n += 1
            self.total_steps += 1
            if n & 0x3ff == 0:
                if time.time() - t0 > self.o['max_time']:
                    raise Unsupported('time limit')
                if self.total_steps > self.o['max_steps']:
                    raise Unsupported('step limit')
            try:
                r = self.step(st, fr, ins)
            except Split as sp:
                fr.idx -= 1
                r = self.do_split(st, sp)
                if PROFILE is not None:
                    k = ' <- '.join(self.dem(f.fn.name).split('(')[0][-60:] for f in reversed(st.frames[-3:])) + (' block %s' % fr.blk if hasattr(fr, 'blk') else '')
                    PROFILE[k] = PROFILE.get(k, 0) + len(r) - 1
                return r
            except Throw as th:
                ti, what = th.ti, th.what
                st.exc = (th.ptr, ti, what)
                # the intrinsic was invoked by this call instruction
                if ins[0] == 'call' and ins[5] is not None:
                    self.jump(st, fr, ins[5][1])
                else:
                    st.frames.pop()
                    self.unwind(st, fr)
                continue
            if r is not None:
                if r == 'end':
                    return None
                return r

    def jump(self, st, fr, lab):
        cur = fr.prev
        src = st_block = fr.loc.get('%%cur', fr.fn.entry)
        blk = fr.fn.blocks[lab]
        v = fr.visits.get(lab, 0) + 1
        fr.visits[lab] = v
        if v > self.o['loop_limit']:
            raise Unsupported('loop limit')
        # phis
        i = 0
        newv = []
        while i < len(blk) and blk[i][0] == 'phi':
            _, dst, t, inc = blk[i]
            for o, l in inc:
                if l == src:
                    newv.append((dst, self.val(st, fr, o, t)))
                    break
            else:
                raise Unsupported('phi without edge %s in %s' % (src, fr.fn.name))
            i += 1
        for d, x in newv:
            fr.loc[d] = x
        fr.loc['%%cur'] = lab
        fr.block = blk
        fr.idx = i

    def unwind(self, st, fr):
        """propagate st.exc out of the popped frame fr"""
        while True:
            if not st.frames:
                raise Failure('uncaught exception: %s' % (st.exc[2],))
            unw = fr.unw
            fr = st.frames[-1]
            if unw is not None:
                self.jump(st, fr, unw)
                return
            st.frames.pop()

    def ti_bases(self, n):
        out = [n]
        while n in self.mod.globals:
            try:
                t, init, c = self.mod.global_init(n)
            except Exception:
                break
            if init is None or init[0] != 'agg' or len(init[1]) < 3:
                break
            b = init[1][2][1]
            if b[0] != 'g':
                break
            n = b[1]
            out.append(n)
        return out

    def step(self, st, fr, ins):
        op = ins[0]
        dst = ins[1]
        loc = fr.loc
        if op == 'call':
            return self.call(st, fr, ins)
        if op == 'load':
            p = self.val(st, fr, ins[3], ('p',))
            loc[dst] = self.load(st, p, ins[2])
        elif op == 'store':
            v = self.val(st, fr, ins[3], ins[2])
            p = self.val(st, fr, ins[4], ('p',))
            self.store(st, p, ins[2], v)
        elif op == 'gep':
            base = self.val(st, fr, ins[3][0][1], ('p',))
            loc[dst] = self.gep(st, fr, ins[2], base, ins[3][1:])
        elif op == 'br':
            self.jump(st, fr, ins[2])
        elif op == 'cbr':
            c = self.val(st, fr, ins[2], ('i', 1))
            if isinstance(c, (int, bool)):
                self.jump(st, fr, ins[3] if c else ins[4])
            else:
                self.jump(st, fr, ins[3] if self.decide(st, c) else ins[4])
        elif op == 'icmp':
            a = self.val(st, fr, ins[4], ins[3])
            b = self.val(st, fr, ins[5], ins[3])
            loc[dst] = self.icmp(st, ins[2], ins[3], a, b)
        elif op == 'bin':
            a = self.val(st, fr, ins[4], ins[3])
            b = self.val(st, fr, ins[5], ins[3])
            loc[dst] = self.binop(st, ins[2], ins[3], a, b)
        elif op == 'cast':
            a = self.val(st, fr, ins[4], ins[3])
            loc[dst] = self.cast(st, ins[2], ins[3], a, ins[5])
        elif op == 'alloca':
            n = self.val(st, fr, ins[3], ('i', 32))
            i = self.newobj(st, self.mod.sizeof(ins[2]) * n, 'stack', dst)
            loc[dst] = Ptr(i, 0)
        elif op == 'extractvalue':
            v = self.val(st, fr, ins[3], ins[2])
            for k in ins[4]:
                v = v[k]
            loc[dst] = v
        elif op == 'insertvalue':
            a = self.val(st, fr, ins[3], ins[2])
            v = self.val(st, fr, ins[5], ins[4])
            loc[dst] = self.insval(a, v, ins[6])
        elif op == 'select':
            c = self.val(st, fr, ins[2], ('i', 1))
            t = self.mod.resolve(ins[3])
            if isinstance(c, (int, bool)):
                loc[dst] = self.val(st, fr, ins[4] if c else ins[5], t)
            else:
                a = self.val(st, fr, ins[4], t)
                b = self.val(st, fr, ins[5], t)
                if t[0] == 'i' and not isinstance(a, (Ptr, Fn, Cat)) and not isinstance(b, (Ptr, Fn, Cat)):
                    loc[dst] = simp(z3.If(c, boo(a), boo(b))) if t[1] == 1 else z3.If(c, bv(a, t[1]), bv(b, t[1]))
                elif t[0] == 'f' and not isinstance(a, float) and not isinstance(b, float):
                    loc[dst] = z3.If(c, real(a), real(b)) if self.o.get('fsel', False) else (a if self.decide(st, c) else b)
                else:
                    loc[dst] = a if self.decide(st, c) else b
        elif op == 'fcmp':
            a = self.val(st, fr, ins[4], ins[3])
            b = self.val(st, fr, ins[5], ins[3])
            loc[dst] = self.fcmp(st, ins[2], a, b)
        elif op == 'fneg':
            a = self.val(st, fr, ins[3], ins[2])
            loc[dst] = -a if not is_sym(a) else -a
        elif op == 'switch':
            v = self.val(st, fr, ins[3], ins[2])
            w = ins[2][1]
            if isinstance(v, int):
                for c, l in ins[5]:
                    if c == v:
                        self.jump(st, fr, l)
                        return
                self.jump(st, fr, ins[4])
                return
            for c, l in ins[5]:
                if self.decide(st, simp(bv(v, w) == c)):
                    self.jump(st, fr, l)
                    return
            self.jump(st, fr, ins[4])
        elif op == 'ret':
            v = None if ins[3] is None else self.val(st, fr, ins[3], ins[2])
            st.frames.pop()
            if not st.frames:
                st.retval = v
                return 'end'
            up = st.frames[-1]
            if fr.dst is not None:
                up.loc[fr.dst] = v
            if fr.norm is not None:
                self.jump(st, up, fr.norm)
        elif op == 'landingpad':
            exc = st.exc
            sel = None
            bases = self.ti_bases(exc[1]) if exc[1] else []
            for cl in ins[3]:
                if cl[0] == 'null':
                    sel = 1
                    break
                if cl[0] == 'g':
                    n = cl[1]
                    if n in bases or (exc[1] == '@*std' and n in ('@_ZTISt9exception', '@_ZTISt11logic_error', '@_ZTISt12out_of_range', '@_ZTISt13runtime_error', '@_ZTISt16invalid_argument')):
                        sel = self.typeid(n)
                        break
                if cl[0] == 'filter':
                    sel = -1
            if sel is None:
                if ins[2]:
                    sel = 0
                else:
                    st.frames.pop()
                    self.unwind(st, fr)
                    return
            loc[dst] = (exc[0] if exc[0] is not None else 0, sel)
        elif op == 'resume':
            st.frames.pop()
            self.unwind(st, fr)
        elif op == 'unreachable':
            self.fail(st, 'undefined behaviour: unreachable code reached')
        elif op == 'extractelement':
            v = self.val(st, fr, ins[3], ins[2])
            loc[dst] = v[self.conc(st, self.val(st, fr, ins[5], ins[4]))]
        elif op == 'insertelement':
            v = list(self.val(st, fr, ins[3], ins[2]))
            v[self.conc(st, self.val(st, fr, ins[7], ins[6]))] = self.val(st, fr, ins[5], ins[4])
            loc[dst] = tuple(v)
        elif op == 'nop':
            pass
        elif op == 'phi':
            raise Unsupported('phi position')
        elif op == 'atomicrmw':
            p = self.val(st, fr, ins[3], ('p',))
            old = self.load(st, p, ins[4])
            v = self.val(st, fr, ins[5], ins[4])
            loc[dst] = old
            o = {'add': 'add', 'sub': 'sub', 'xchg': None}[ins[2]]
            self.store(st, p, ins[4], v if o is None else self.binop(st, o, ins[4], old, v))
        else:
            raise Unsupported('instruction %s' % op)
        return None

    def typeid(self, n):
        d = self.__dict__.setdefault('_tid', {})
        return d.setdefault(n, len(d) + 2)

    def insval(self, a, v, idx):
        if not idx:
            return v
        l = list(a)
        l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return tuple(l)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        _, dst, t, callee, args, dests = ins
        if callee[0] == 'g':
            name = callee[1]
            if name in self.mod.aliases and name not in self.mod.funcs:
                a = self.mod.aliases[name]
                if a[0] == 'g':
                    name = a[1]
        else:
            f = self.val(st, fr, callee, ('p',))
            if not isinstance(f, Fn):
                if isinstance(f, int):
                    self.fail(st, 'memory safety: call through null or wild pointer')
                raise Unsupported('indirect call through %r' % (f,))
            name = f.name
        if name.startswith('@llvm.'):
            h = INTR.get(name)
            if h is None:
                for k in ('@llvm.lifetime', '@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@llvm.is.constant', '@llvm.expect',
                          '@llvm.umul', '@llvm.round', '@llvm.fabs', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.trap',
                          '@llvm.abs', '@llvm.smax', '@llvm.smin', '@llvm.umax', '@llvm.umin', '@llvm.eh.typeid', '@llvm.fmuladd', '@llvm.floor', '@llvm.ceil', '@llvm.maxnum', '@llvm.minnum', '@llvm.stack', '@llvm.objectsize', '@llvm.copysign', '@llvm.usub', '@llvm.uadd', '@llvm.pow', '@llvm.sqrt', '@llvm.trunc', '@llvm.ctpop', '@llvm.cttz', '@llvm.ctlz', '@llvm.bswap', '@llvm.fshl', '@llvm.fshr'):
                    if name.startswith(k):
                        h = INTR.get(k)
                        break
            if h is None:
                raise Unsupported('call of %s' % name)
        else:
            h = INTR.get(name)
            if h is None and name not in self.mod.funcs:
                h = None
                for k, hh in INTR_PREFIX:
                    if name.startswith(k):
                        h = hh
                        break
        if h is not None:
            av = [self.val(st, fr, v, tt) for tt, v in args]
            self.cur_name = name
            r = h(self, st, *av)
            if dst is not None:
                fr.loc[dst] = r
            if dests is not None:
                self.jump(st, fr, dests[0])
            return
        stub = self.overrides.get(name)
        if stub is not None and fr.fn.name != stub:
            target = stub
        else:
            target = name
        fn = self.mod.func(target)
        if fn is None:
            raise Unsupported('call of external %s' % self.dem(target))
        if len(st.frames) > self.o.get('depth', 400):
            raise Unsupported('recursion depth')
        nf = Frame(fn, dst, dests[0] if dests else None, dests[1] if dests else None)
        nf.loc['%%cur'] = fn.entry
        if len(args) < len(fn.params):
            raise Unsupported('arity of %s' % name)
        for (pt, pn), (at, av) in zip(fn.params, args):
            nf.loc[pn] = self.val(st, fr, av, at)
        self.reach.add(target)
        if name in self.merge:
            m = self.merged(st, nf)
            if m is not None:
                if dst is not None:
                    fr.loc[dst] = m[0]
                if dests is not None:
                    self.jump(st, fr, dests[0])
                return
        st.frames.append(nf)

    def nomerge(self, nf, k):
        if PROFILE is not None:
            w = 'no merge (%d) %s' % (k, self.dem(nf.fn.name)[:80])
            PROFILE[w] = PROFILE.get(w, 0) + 1
        return None

    def merged(self, st, nf):
        """value of a side-effect-free call: all its paths are explored here and joined into one expression; None if it is not side-effect free"""
        base = st.fork()
        base.frames = [nf.copy()]
        base.pc = st.pc + [_TRUE]
        n0 = len(st.pc)
        keep = dict(st.mem)
        ghost, nds, exc = dict(st.ghost), len(st.nds), st.exc
        work, outs, changed, dead = [base], [], [], False
        void = self.mod_ret(nf) is None
        while work:
            s = work.pop()
            if time.time() - self.t0 > self.o['max_time']:
                raise Unsupported('time limit')
            if len(outs) + len(work) > 4000:
                return self.nomerge(nf, 1)
            try:
                r = self.run(s, self.t0)
            except PathDead:
                dead = True
                continue
            except (Failure, Unsupported):
                return self.nomerge(nf, 2)
            if r is not None:
                work.extend(reversed(r))
                continue
            if s.ghost != ghost or len(s.nds) != nds or s.excstack != st.excstack:
                return self.nomerge(nf, 3)
            ch = {}
            for k, o in s.mem.items():
                if k >= st.nextid:
                    continue
                old = keep.get(k)
                if old is None:
                    old = self.gmem.get(k)
                    if old is None:
                        return self.nomerge(nf, 4)
                if o is not old and not same_obj(o, old):
                    ch[k] = o
            for k in s.addrs:
                if k not in st.addrs:
                    ko = k if isinstance(k, int) else None
                    if ko is None or ko < st.nextid:
                        return self.nomerge(nf, 6)
            v = s.retval
            if void:
                v = 0
            if not (isinstance(v, (int, bool)) or (is_sym(v) and (z3.is_bool(v) or z3.is_bv(v)))):
                return self.nomerge(nf, 7)
            cs = [e for e in s.pc[n0 + 1:]]
            outs.append((z3.And(cs) if len(cs) > 1 else cs[0] if cs else _TRUE, v))
            changed.append(ch)
            st.steps = max(st.steps, s.steps)
        if not outs:
            raise PathDead()
        joined = {}
        for k in {k for ch in changed for k in ch}:
            o = self.join_obj([ch.get(k) or keep.get(k) or self.gmem.get(k) for ch in changed], keep.get(k) or self.gmem.get(k), [c for c, v in outs], st.nextid)
            if o is None:
                return self.nomerge(nf, 5)
            joined[k] = o
        if dead:
            self.assume(st, z3.Or([c for c, v in outs]))
        for k, o in joined.items():
            o.owner = st.tok
            st.mem[k] = o
        self.merges += 1
        if void:
            return (0,)
        t = self.mod_ret(nf)
        if all(isinstance(v, (int, bool)) and v == outs[0][1] for c, v in outs):
            return (outs[0][1],)
        if t == 1:
            ors = []
            for c, v in outs:
                b = boo(v)
                if z3.is_false(b):
                    continue
                ors.append(c if z3.is_true(b) else z3.And(c, b))
            return (simp(z3.Or(ors)) if ors else 0,)
        r = bv(outs[-1][1], t)
        for c, v in reversed(outs[:-1]):
            r = z3.If(c, bv(v, t), r)
        return (simp(r),)

    def mod_ret(self, nf):
        for b in nf.fn.blocks.values():
            for ins in b:
                if ins[0] == 'ret' and ins[3] is not None:
                    t = self.mod.resolve(ins[2])
                    if t[0] == 'i':
                        return t[1]
                    raise Unsupported('merge of a non-integer function')
        return None

    def join_obj(self, objs, old, conds, lim):
        a = objs[0]
        for o in objs:
            if o.size != a.size or o.freed != a.freed or o.zero != a.zero or o.data is not old.data or o.cstr is not a.cstr or o.cells.keys() != a.cells.keys():
                return None
        n = a.clone(None)
        for k, (w, v) in a.cells.items():
            cs = [o.cells[k] for o in objs]
            if all(c[0] == w and same_val(c[1], v) for c in cs):
                oc = old.cells.get(k)
                if (oc is None or not same_val(oc[1], v)) and new_ref(v, lim):
                    return None
                continue
            if any(c[0] != w for c in cs):
                return None
            r = POISON
            vs = [c[1] for c in cs]
            if all(isinstance(x, (int, bool)) or (is_sym(x) and (z3.is_bv(x) or z3.is_bool(x))) for x in vs):
                r = bv(vs[-1], 8 * w) if not (is_sym(vs[-1]) and z3.is_bv(vs[-1]) and vs[-1].size() != 8 * w) else None
                if r is not None and not any(is_sym(x) and z3.is_bv(x) and x.size() != 8 * w for x in vs):
                    for c, x in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                        r = z3.If(c, bv(x, 8 * w), r)
                    r = simp(r)
                else:
                    r = POISON
            n.cells[k] = (w, r)
        return n

    # ------------------------------------------------------------ obligations
    def check(self, st, cond, label):
        o = self.obl.setdefault(label, Obligation(label))
        if isinstance(cond, (int, bool)):
            if cond:
                o.ok += 1
                o.backend.add('constant')
                return
            raise Failure(label)
        c = boo(cond)
        s = simp(c)
        if isinstance(s, int):
            if s:
                o.ok += 1
                o.backend.add('z3-simplify')
                return
            raise Failure(label)
        t = time.time()
        be = 'z3'
        defs = list(st.ghost.get('nldefs', ()))
        r = self.solver.check(st.pc, z3.Not(s), timeout=self.o['timeout'])
        if defs and r != z3.unsat:
            r = self.solver.check(st.pc, z3.Not(s), *defs, timeout=self.o['timeout'])
        if r == z3.unknown:
            r2, be2 = self.alt(list(st.pc) + defs, z3.Not(s))
            if r2 != z3.unknown:
                r, be = r2, be2
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
            o.backend.add(be)
            st.pc.append(s)
            return
        if r == z3.sat:
            m = self.altmodel if be != 'z3' else self.solver.model()
            o.failed.append(self.model_values(st, m))
            if sum(len(o.failed) for o in self.obl.values()) >= self.o.get('max_fail', 1):
                self.o_stop = True
                raise StopProof(label)
            if not self.feasible(st, s):
                raise PathDead()
            st.pc.append(s)
            return
        o.unknown += 1
        st.pc.append(s)

    def alt(self, pc, goal):
        """second attempt: arithmetic-only subset with nlsat"""
        def arith(e, seen):
            if e.get_id() in seen:
                return True
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                return False
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return z3.is_real(e) or z3.is_bool(e) or z3.is_int(e)
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                    return False
                if e.sort_kind() in (z3.Z3_BV_SORT, z3.Z3_SEQ_SORT, z3.Z3_ARRAY_SORT):
                    return False
                return all(arith(c, seen) for c in e.children())
            return False
        seen = set()
        if not arith(goal, seen):
            return z3.unknown, None
        sub = [e for e in pc if arith(e, set())]
        for tac in (z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'qfnra-nlsat'), z3.Tactic('qfnra')):
            s = tac.solver()
            s.set('timeout', self.o['timeout'])
            for e in sub:
                s.add(e)
            s.add(goal)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return r, 'z3-nlsat'
            if r == z3.sat and len(sub) == len(pc):
                self.altmodel = s.model()
                return r, 'z3-nlsat'
        return z3.unknown, None


class StopProof(Failure):
    pass


INTR_PREFIX = []


def decode_z3str(s):
    # z3 prints \u{XX} escapes
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


import intrinsics  # noqa  (registers INTR)
