"""Exact integer meaning of bit-vector expressions over timestamp inputs.

Every timestamp input has two faces: a bit vector (used by integer instructions) and a mathematical integer.  When the code
converts an integer to floating point, the bit-vector expression is translated to integer arithmetic; each operation that could
wrap is translated only after z3 has shown that it does not on the current path."""
import z3


class NoMirror(Exception):
    pass


class Mirror:
    def __init__(self, en, st):
        self.en, self.st = en, st
        self.leaves = st.ghost.get('ints', {})
        self.cache = {}
        self.facts = []

    def provable(self, conds, goal):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.facts, *conds, z3.Not(goal))
        return s.check() == z3.unsat

    def fit(self, x, w, conds, signed=True):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return self.provable(conds, z3.And(x >= lo, x <= hi))

    def unsigned(self, e, conds):
        x = self.signed(e, conds)
        if z3.is_int_value(x):
            v = x.as_long()
            return z3.IntVal(v if v >= 0 else v + (1 << e.size()))
        if self.provable(conds, x >= 0):
            return x
        return z3.If(x >= 0, x, x + (1 << e.size()))

    def signed(self, e, conds):
        k = (e.get_id(), tuple(c.get_id() for c in conds))
        if k in self.cache:
            return self.cache[k][1]
        r = self._signed(e, conds)
        self.cache[k] = (e, r)
        return r

    def _signed(self, e, conds):
        w = e.size()
        if z3.is_bv_value(e):
            return z3.IntVal(e.as_signed_long())
        if e.get_id() in self.leaves:
            return self.leaves[e.get_id()][1]
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ITE:
            c = self.boolean(ch[0], conds)
            return z3.If(c, self.signed(ch[1], conds + (c,)), self.signed(ch[2], conds + (z3.Not(c),)))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.signed(ch[0], conds)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.unsigned(ch[0], conds)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = self.signed(ch[0], conds)
            if hi == lo == ch[0].size() - 1:
                return z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0))
            if lo == 0 and self.fit(x, w, conds):
                return x
            raise NoMirror()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            xs = [self.signed(c, conds) for c in ch]
            if k == z3.Z3_OP_BNEG:
                r = -xs[0]
            else:
                r = xs[0]
                for x in xs[1:]:
                    r = r + x if k == z3.Z3_OP_BADD else r - x if k == z3.Z3_OP_BSUB else r * x
            # intermediate wrap-around is harmless: the operations are homomorphisms modulo 2^w, only the result must fit
            if not self.fit(r, w, conds):
                raise NoMirror()
            return r
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            f = self.unsigned if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else self.signed
            a, b = f(ch[0], conds), f(ch[1], conds)
            if not self.provable(conds, z3.And(a >= 0, b > 0)):
                raise NoMirror()
            r = a / b if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else a % b
            if not self.fit(r, w, conds):
                raise NoMirror()
            return r
        raise NoMirror()

    def boolean(self, c, conds):
        if z3.is_true(c) or z3.is_false(c):
            return c
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(ch[0], conds))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boolean(x, conds) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boolean(x, conds) for x in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(ch[0]) and len(ch) == 2:
            a, b = self.signed(ch[0], conds), self.signed(ch[1], conds)
            return a == b if k == z3.Z3_OP_EQ else a != b
        S = {z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SGT: lambda a, b: a > b, z3.Z3_OP_SGEQ: lambda a, b: a >= b}
        U = {z3.Z3_OP_ULT: S[z3.Z3_OP_SLT], z3.Z3_OP_ULEQ: S[z3.Z3_OP_SLEQ], z3.Z3_OP_UGT: S[z3.Z3_OP_SGT], z3.Z3_OP_UGEQ: S[z3.Z3_OP_SGEQ]}
        if k in S:
            return S[k](self.signed(ch[0], conds), self.signed(ch[1], conds))
        if k in U:
            return U[k](self.unsigned(ch[0], conds), self.unsigned(ch[1], conds))
        raise NoMirror()


def sync(en, st):
    """translate the path condition over timestamps; returns a Mirror that knows it"""
    m = Mirror(en, st)
    for (e, i, lo, hi) in st.ghost.get('ints', {}).values():
        m.facts.append(z3.And(i >= lo, i <= hi))
    done = st.ghost.get('mirrored', {})
    new = dict(done)
    for c in st.pc:
        if c.get_id() in done:
            if done[c.get_id()][1] is not None:
                m.facts.append(done[c.get_id()][1])
            continue
        try:
            x = m.boolean(c, ())
        except (NoMirror, AttributeError, z3.Z3Exception):
            x = None
        new[c.get_id()] = (c, x)
        if x is not None:
            m.facts.append(x)
    st.ghost['mirrored'] = new
    return m


def to_int(en, st, a, signed):
    """integer value of bit vector a, or None"""
    if not st.ghost.get('ints'):
        return None
    known = len(st.ghost.get('mirrored', {}))
    m = sync(en, st)
    try:
        x = m.signed(a, ()) if signed else m.unsigned(a, ())
    except NoMirror:
        return None
    for c, x2 in list(st.ghost['mirrored'].values()):
        if x2 is not None and x2.get_id() not in st.ghost.get('mirpc', {}):
            st.ghost['mirpc'] = dict(st.ghost.get('mirpc', {}))
            st.ghost['mirpc'][x2.get_id()] = x2
            st.pc.append(x2)
    return x
