"""Writes harness/grammar.h: the LR(0) automaton of the grammar (rules.txt: lhs -> rhs of every production, transcribed from narsese.par), the
terminals each state has to tell apart, and the expected tokens and trees of sample texts.  The numbering of the states is that of the parser's
tables (read once from narsese.h when this file is generated); that the automaton is that of the grammar is checked again by the harness."""
import re, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open('/repo/Narsese/Parser/narsese.h').read()
def tab(name):
    i = t.index(name); i = t.index('{', i); d = 0; j = i
    while True:
        if t[j] == '{': d += 1
        if t[j] == '}':
            d -= 1
            if d == 0: break
        j += 1
    return t[i:j + 1]
def rows(s): return [[eval(x.strip()) for x in r.split(',') if x.strip()] for r in re.findall(r'\{([^{}]*)\}', s)]
A = rows(tab('const int actions[')); G = rows(tab('const int go['))
D = rows('{%s}' % tab('def_prod[').strip('{}'))[0]; DS = rows(tab('dfa_select['))[0]
ACC = rows(tab('const int dfa_accept['))
s = t[t.index('const _syminfo symbols'):t.index('const _prodinfo productions')]
S = [eval(r[1]) for r in re.findall(r'\{ /\* (\d+) \*/ ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), (\d+),([^}]*)\}', s)]
S = [x.replace('\\\\', '\\') for x in S]
p = t[t.index('const _prodinfo productions'):]
P = [(eval(r[1]), eval(r[2]), int(r[3]), int(r[4])) for r in re.findall(r'\{ /\* (\d+) \*/ ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), (\d+), (\d+) \}', p)]
R = [(int(m[0]), [int(x) for x in m[2].split(',') if x.strip()]) for m in re.findall(r'\{(\d+), (\d+), \{([^}]*)\}\}', open(V + '/tools/rules.inc').read())]
byl = {}
for i, (l, o) in enumerate(R): byl.setdefault(l, []).append(i)
def closure(k):
    c = set(k); st = list(k); seen = set()
    while st:
        q, i = st.pop()
        if i < len(R[q][1]):
            X = R[q][1][i]
            if X in byl and X not in seen:
                seen.add(X)
                for r in byl[X]:
                    if (r, 0) not in c: c.add((r, 0)); st.append((r, 0))
    return c
kern = {0: frozenset((p, 0) for p in byl[59])}; work = [0]; trans = {}
while work:
    s = work.pop(); tr = {}
    for q, i in closure(kern[s]):
        if i < len(R[q][1]): tr.setdefault(R[q][1][i], set()).add((q, i + 1))
    for X, k in tr.items():
        row = (G if X in byl else A)[s]
        e = [(row[2 + 3 * j], row[3 + 3 * j]) for j in range(row[0]) if row[1 + 3 * j] == X]
        assert len(e) == 1
        trans[s, X] = e[0]
        if e[0][0] == 2:
            if e[0][1] in kern: assert kern[e[0][1]] == frozenset(k)
            else: kern[e[0][1]] = frozenset(k); work.append(e[0][1])
n = len(A); assert sorted(kern) == list(range(n))
T = [sorted({x - 1 for x in ACC[DS[s]] if x > 0}) if DS[s] >= 0 else [] for s in range(n)]
for s in range(n):
    for X in range(59):
        assert (s, X) not in trans or X == 0 or X in T[s]
# ---- reference lexer: longest prefix in one of the languages of the terminals
RX = {3: r'[^-+<>="&|!.?@~%;,:/\\*#$\[\]{}()^ \x80-\xff\n]+', 6: r'"([^\\"\x80-\xff]([\\][\\"])?)*"', 57: r'-?[0-9]+', 34: r'[1-9]+[0-9]*', 58: r'[\t ]'}
for k in (29, 31, 56): RX[k] = r'(0?\.[0-9]+|1\.0*|1|0)'
for k in (30, 35): RX[k] = r'0?\.0*[1-9]+[0-9]*'
for i in range(1, 59): RX.setdefault(i, re.escape(S[i]))
def lex(ts, x):
    best = (0, -1)
    for l in range(1, len(x) + 1):
        c = [i for i in ts if i and re.fullmatch(RX[i], x[:l])]
        if c:
            if len(c) > 1: ties.setdefault(tuple(c), set()).add(x[:l])
            best = (l, c[0])
    return best
ties = {}
texts = [S[i] for i in range(1, 58) if i not in (3, 6, 29, 30, 31, 34, 35, 56, 57)] + [' ', '  a', 'w', 'word7', 'under_score', "it's", '"q"', '"a b.c"', '"a\\"b"', '"a\\\\"', '""', '"open', '"', '0', '1', '1.', '1.0', '1.00', '1.01', '0.5', '.5', '0.05', '0.50', '.0', '0.0', '00', '12', '90', '7', '05', '-3', '-', '--3', '3.5', '2.0', '=', '==', '=/', '=|', '<-', '</', '<=', '<|', '{-', ':/', ':|', ':!', '-- ', '--a', '-a', '&a', '<a', '&&a', '<->a', '{--a', '$a', '^', 'a-->b', 'a.b', 'ab ', "'", '`', 'A', 'Z9']
texts += [chr(c) for c in range(1, 128) if chr(c) not in '\t\n\r\v\f']
texts = list(dict.fromkeys(texts))
# every step of the recognisers: a text that leads to each of their states, any character, and texts that tell the states apart that follow
DI = rows(tab('const int dfa_idx[')); DC = rows(tab('const int dfa_chars['))[0]; DT = rows(tab('const int dfa_trans['))[0]
def recogniser(m):
    def step(q, c):
        if q < 0: return -1
        k = DI[m][q]
        while DC[k] > -1:
            if DC[k] <= c <= DC[k + 1]: return DT[k // 2]
            k += 2
        return -1
    chars = [c for c in range(1, 128) if c not in (9, 10)]; acc = {0: ''}; w = [0]
    for q in w:
        for c in [ord(x) for x in 'wa019-.<>=|&+/\\"!:; '] + list(range(32, 127)):
            r = step(q, c)
            if r >= 0 and r not in acc: acc[r] = acc[q] + chr(c); w.append(r)
    classes = {}
    for c in chars: classes.setdefault(tuple(step(q, c) for q in acc), []).append(c)
    one = [ord(min((chr(c) for c in v), key=lambda c: (not c.isalnum(), not 32 <= ord(c) < 127, c))) for v in classes.values()]
    out = lambda q: ACC[m][q] if q >= 0 else 0
    # words that tell every two different states apart
    qs = list(acc) + [-1]; W = []
    def run(q, z):
        for c in z: q = step(q, ord(c))
        return out(q)
    blocks = [qs]
    blocks = [b for b in by(qs, out)]
    while 1:
        found = None
        for b in blocks:
            for i, x in enumerate(b):
                for y in b[i + 1:]:
                    seen = {(x, y)}; todo = [((x, y), '')]
                    for (u, v), z in todo:
                        if out(u) != out(v): found = z; break
                        for c in one:
                            n2 = (step(u, c), step(v, c))
                            if n2 not in seen: seen.add(n2); todo.append((n2, z + chr(c)))
                    if found: break
                if found: break
            if found: break
        if not found: return acc, chars, one, W
        W.append(found); blocks = [c for b in blocks for c in by(b, lambda q: run(q, found))]
def by(b, f):
    d = {}
    for q in b: d.setdefault(f(q), []).append(q)
    return list(d.values())
def steps(ts, m):
    acc, chars, one, W = recogniser(m); o = []
    for w in acc.values():
        r = []
        for c in chars:
            l, sym = lex(ts, w + chr(c))
            if r and r[-1][1] == c - 1 and r[-1][2:] == [sym, l]: r[-1][1] = c
            else: r.append([c, c, sym, l])
        o.append((w, '', r))
        for z in W: o.append((w, z, [[c, c, lex(ts, w + chr(c) + z)[1], lex(ts, w + chr(c) + z)[0]] for c in sorted(one)]))
    return o
# ---- reference parser
def parse(x):
    pos = 0; st = [(0, [])]
    for step in range(100000):
        s = st[-1][0]; l, sym = lex(T[s], x[pos:])
        if pos == len(x): sym, l = 0, 0
        if (s, sym) in trans:
            k, tgt = trans[s, sym]
            node = [(S[sym], x[pos:pos + l])] if sym in (3, 6, 29, 30, 31, 34, 35, 56, 57) else []
            pos += l
            st.append((tgt if k == 2 else -1, node)); act = tgt if k == 3 else None
            if k == 2: continue
        else:
            c = [q for q, i in closure(kern[s]) if i == len(R[q][1])]
            act = choose(s, sym, c)
            if act is None: return None
        while act is not None:
            lhs, rhs = R[act]; ch = []
            for _ in rhs: ch = st.pop()[1] + ch
            if P[act][1]: ch = [(P[act][1], ch)]
            if not rhs: pass
            if lhs == 59: return ch
            k, tgt = trans[st[-1][0], lhs]
            st.append((tgt if k == 2 else -1, ch)); act = tgt if k == 3 else None
RED = {}
for s in range(n):
    c = [q for q, i in closure(kern[s]) if i == len(R[q][1])]
    if len(c) > 1: RED[s] = c
def choose(s, sym, c):
    if not c: return None
    if len(c) == 1: return c[0]
    return PICK[s].get(sym, PICK[s][-1])
# the states in which more than one phrase is complete: the next token decides
PICK = {}
for s, c in RED.items():
    d = {}
    lh = {R[q][0]: q for q in c}
    if 226 in lh: d = {55: lh[226], 54: lh[219], 53: lh[216], 52: lh[210], -1: lh[226]}     # . ? ! @ end a sentence of that kind
    elif 201 in lh: d = {48: lh[201], -1: [q for q in c if q != lh[201]][0]}               # (^op) is an operation without arguments
    assert d, (s, c)
    PICK[s] = d
    row = A[s]
    for X in list(range(59)):
        e = [(row[2 + 3 * j], row[3 + 3 * j]) for j in range(row[0]) if row[1 + 3 * j] == X]
        if e and e[0][0] == 1: assert d.get(X, d[-1]) == e[0][1]
        elif not e: assert d.get(X, d[-1]) == D[s]
print(RED, PICK)
samples = r'''(a, b, c, d).
(*, a, b, c, d, e).
{a, b, c, d, e}.
(a * b * c * d).
(&/, a, +1, b, +2, c).
(^go, a, b, c, d)!
(/, r, a, _, b, c).
<a --> b>@
[a, b, c]?
(\, r)!
(a || b || c).
(a &| b &| c).
(a | b | c)@
(a & b & c).
<a --> b>.
<a-->b>.
(a --> b).
  <  a   -->  b >  . 
<a <-> b>.
<a {-- b>.
<a --] b>.
<a {-] b>.
<a ==> b>.
<a =/> b>.
<a =|> b>.
<a =\> b>.
<a <=> b>.
<a </> b>.
<a <|> b>.
a.
a?
a!
a@
"a b".
a. :|:
a. :/:
a. :\:
a. :!5:
a. :! -5 :
a. %0.5%
a. %0.5;0.9%
a. :|: %1.0; .9 ; 12%
a? :|:
a! :/: %1;0.5%
a@ :\:
$0.5$ a.
$0.5;0.4$ a.
$ 1 ; 0.4 ; 0.3 $ a.
<$x --> a>.
<#x --> ?y>.
^go.
<a --> ^go>.
(^go).
(^go, a, $x)!
go(a).
go(a, (b * c), #x)!
+5.
(&/, a, +5, b).
{a}.
{a, b, c}.
[a].
[ a , b ].
--a.
(--, a).
(--, --a).
(a * b).
(a * b * c).
(a, b).
(a, b, c).
(*, a).
(*, a, b, c).
(&&, a, b).
(||, a, b, c).
(&|, a, b).
(&/, a, b).
(|, a, b).
(&, a, b).
(a && b && c).
(a || b).
(a &| b).
(a &/ b &/ c).
(a | b).
(a & b).
(-, a, b).
(~, a, b).
(a - b).
(a ~ b).
(-, (a * b), c).
(-, a * b, c & d).
(a & b - c).
(a - b * c).
(/, r, _, a).
(\, r, a, _).
(/, r).
<<a --> b> ==> <c --> d>>.
<<$x --> b> ==> (&&, <$x --> c>, {a, [b]})>?
((a --> b) ==> c).
(<a --> b>, c).
(a --> (b, c)).
<(*, {a}, $x) --> ^op>.
<(a, b) --> c>. :|: %0.5;0.5%
{(a - b), --c, (/, r, _)}.
<{a} --> [b]>.
<a -- b>.
<a --> b>
<a --> b.
a --> b.
(a).
(a, ).
(a * b & c).
(&&, a).
(-, a).
(-, a, b, c).
{}.
[].
{a].
<a>.
$x.
#y.
?z.
a. b.
a..
.
%0.5% a.
a. %1.5%
a. %0.5;1%
a. %0.5;0%
a? %0.5%
a@ %0.5%
$0.5 a.
$0.5;0$ a.
$2$ a.
a. :!:
a. :5:
a. :|
(^go a).
^(go).
go().
go(a, ).
^.
+.
-5.
+-5.
a b.
(--a).
(--, a, b).
<a => b>.
<a --> b>. %0.9
"a.
"a\"b".
(a, b, c]'''.split('\n')
trees = [(x, parse(x)) for x in samples] + [('', parse(''))]
def show(c): return ''.join('%s%s' % (e, '=' + k + ' ' if isinstance(k, str) else '(' + show(k) + ')') for e, k in c)
if __name__ == '__main__':
    q = lambda x: '"' + ''.join(c if c.isalnum() or c in " _-+<>=&|!.@~%;,:/*#$[]{}()^'`" else '\\%03o' % ord(c) for c in x) + '"'
    kinds = sorted(set(map(tuple, T))); o = []
    o.append('// generated by tools/mkgrammar.py: the grammar (transcribed from narsese.par), its LR(0) automaton, expected tokens and trees of sample texts')
    o.append('struct Rule { short lhs, length, rhs[7]; };\nstatic const Rule rules[] = {\n' + ',\n'.join('{%d, %d, {%s}}' % (l, len(r), ', '.join(map(str, r))) for l, r in R) + '};')
    o.append('static const int RULES = %d, STATES = %d, TERMINALS = 59, SYMBOLS = %d;' % (len(R), n, len(S)))
    o.append('static const char *const symbol_names[] = {' + ', '.join(q(x) for x in S) + '};')
    ks = []; kp = []
    for s in range(n):
        ks.append(len(kp) // 2)
        for a, b in sorted(kern[s]): kp += [a, b]
    ks.append(len(kp) // 2)
    o.append('static const short kernel_start[] = {%s};\nstatic const short kernel[][2] = {%s};' % (', '.join(map(str, ks)), ', '.join('{%d, %d}' % (kp[i], kp[i + 1]) for i in range(0, len(kp), 2))))
    o.append('struct Pick { short state, next, rule; };\n// where several phrases are complete the next token decides (next -1: any other)\nstatic const Pick picks[] = {%s};\nstatic const int PICKS = %d;' % (', '.join('{%d, %d, %d}' % (s, x, r) for s in PICK for x, r in PICK[s].items()), sum(len(d) for d in PICK.values())))
    o.append('static const short kind[] = {%s};   // which terminals a state tells apart' % ', '.join(str(kinds.index(tuple(x))) for x in T))
    o.append('static const int KINDS = %d, TEXTS = %d;' % (len(kinds), len(texts)))
    o.append('static const bool tells[%d][59] = {%s};' % (len(kinds), ',\n'.join('{' + ', '.join(str(int(i in k)) for i in range(59)) + '}' for k in kinds)))
    o.append('static const char *const texts[] = {' + ', '.join(q(x) for x in texts) + '};')
    o.append('// per kind and text: the token (from 40 for none) and its length\nstatic const char *const expected_token[%d] = {%s};' % (len(kinds), ',\n'.join(q(''.join(chr(41 + lex(k, x)[1]) + chr(48 + lex(k, x)[0]) for x in texts)) for k in kinds)))
    o.append('struct Step { const char *before, *after; int from, to; };'); es = []; ks2 = [0]; fl = []
    for k in kinds:
        if k:
            for w, z, r in steps(k, DS[T.index(list(k))]): a0 = len(fl) // 4; fl += [x for e in r for x in e]; es.append('{%s, %s, %d, %d}' % (q(w), q(z), a0, len(fl) // 4))
        ks2.append(len(es))
    o.append('// per kind, what is recognised of before + a character of the range + after: first and last character, token, its length')
    o.append('static const short step_start[] = {%s};\nstatic const Step steps[] = {%s};\nstatic const signed char step[][4] = {%s};' % (', '.join(map(str, ks2)), ',\n'.join(es), ', '.join('{%s}' % ', '.join(map(str, fl[i:i + 4])) for i in range(0, len(fl), 4))))
    cum = [0]; tot = 0
    for w in range(0, len(es)):
        a0, b0 = map(int, re.search(r', (\d+), (\d+)\}$', es[w]).groups()); tot += sum(fl[4 * i + 1] - fl[4 * i] + 1 for i in range(a0, b0)); cum.append(tot)
    o.append('static const int STEPS = %d;\nstatic const int part[] = {%s};   // parts of about the same size' % (len(es), ', '.join(str(next(i for i, c in enumerate(cum) if c >= tot * k // 20)) for k in range(21))))
    print('steps', len(es), len(fl) // 4, 'texts', sum(fl[i + 1] - fl[i] + 1 for i in range(0, len(fl), 4)))
    o.append('struct Sample { const char *text, *tree; };\nstatic const Sample samples[] = {\n' + ',\n'.join('{%s, %s}' % (q(x), q(show(c)) if c is not None else 'nullptr') for x, c in trees) + '};\nstatic const int SAMPLES = %d;' % len(trees))
    open(V + '/harness/grammar.h', 'w').write('\n'.join(o) + '\n')
    print('ties', ties, 'kinds', len(kinds), 'texts', len(texts), 'samples', len(trees))
    for x, c in trees: print(x, '|', show(c) if c is not None else None)
