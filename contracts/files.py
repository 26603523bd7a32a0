"""Contracts of the functions that write a formula to a file (C19) or split it by the level of summation (C18).

write_to_txt(P, name):  exactly one file is opened, for writing, under the given name with '.txt' appended exactly if the name
does not end with it; its content is   str(variables) + ': value(in fraction)\n'   followed, once per term, by
str(key) + ': (' + numerator + ',' + denominator + ')\n'; P is unchanged.
write_to_csv(P, name):  the same with '.csv'; the rows (through the csv writer, so that any name or key reads back) are the
variables with the index variables spelled out (l1..ln, o1..on or o2..on, p2..pn, q2..qn), 'num', 'den', and once per term the
components of the key in that order, numerator, denominator.  Formulas whose terms differ in the number of summations are refused.
"""
import z3
from engine.files import CALLS, FileUnit, PolyP, Tup, Txt, El, Coef, KEY, iv, fresh, Arr, ArrEl, Unsupported, Failed

INDEX = ('l_{1:n}', 'o_{1:n}', 'o_{2:n}', 'p_{2:n}', 'q_{2:n}')
C = lambda s: Txt([('c', s)])
KINDS = {'plain': (), 'first-order jumps': ('l_{1:n}', 'o_{2:n}'), 'jumps': ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')}


def formula(vf, kind, nA=None, name='P'):
    """a formula over A + (index names of the kind) + B with any number of terms"""
    idx = KINDS[kind]
    a = z3.Int('lenA') if nA is None else nA
    b = z3.Int('lenB')
    kf = Tup([('var', a, lambda i: El(('A', i), INDEX), 'A')] + [('el', C(x)) for x in idx]
             + ([('var', b, lambda i: El(('B', i), INDEX), 'B')] if idx else []))
    lev = z3.Function('level_' + name, KEY, z3.IntSort())

    def mkkey(k):
        n = lev(k)
        m = z3.If(n >= 1, n - 1, z3.IntVal(0))
        segs = [('var', a, lambda i: El(('kA', k, i)), ('kA', k))]
        for x in idx:
            ln = m if x.endswith('{2:n}') else n
            segs.append(('el', Tup([('var', ln, lambda i, x=x: El(('k' + x, k, i)), None)])))
        if idx:
            segs.append(('var', b, lambda i: El(('kB', k, i)), None))
        return Tup(segs)
    P = PolyP(name, kf, mkkey, lambda k: [lev(k) >= 0])
    P.lev, P.idx, P.a, P.b = lev, idx, a, b
    return P, ([a >= 0] if nA is None else []) + ([b >= 0] if idx else [])


def setup(kind):
    def f(vf):
        P, pre = formula(vf, kind)
        return [P, Txt([('z', z3.String('filename'))])], pre
    return f


def opened(vf, st, args, ext):
    """the one file the function wrote: list of its content events"""
    P, fname = args
    if any(e[0] == 'mutate' for e in st.ev):
        raise Failed('the formula is changed')
    flat = st.ev
    op = [e for e in flat if e[0] == 'open']
    vf.need(len(op) == 1, f'{len(op)} files opened, expected 1')
    _, h, name, mode, enc, newline = op[0]
    f = fname.z()
    vf.need(name.z() == z3.If(z3.SuffixOf(z3.StringVal(ext), f), f, z3.Concat(f, z3.StringVal(ext))), f'file name: given name, {ext} appended only when missing')
    vf.need(mode in ('w', 'wt', 'tw'), f'mode {mode!r}: the file is not written from scratch as text')
    vf.need((enc or '').lower().replace('_', '-') in ('utf-8', 'utf8'), f'encoding {enc!r}')
    i = flat.index(op[0])
    cl = [j for j, e in enumerate(flat) if e[0] == 'close' and e[1] == h]
    vf.need(bool(cl), 'the file is closed')
    out = []
    for e in flat[i + 1:]:
        if e[0] == 'close':
            continue
        if e[0] in ('write', 'row'):
            vf.need(e[1] == h, 'written to the opened file')
        if flat.index(e) > cl[0]:
            raise Failed('written after the file was closed')
        out.append(e)
    return out, newline


def pergroup(vf, ev, P):
    """the loop over the terms: yields (state, key id, events) for every path of its body"""
    vf.need(ev[0] == 'each' and ev[1] == P.name, 'one group of writes per term')
    _, _, kid, base, alts = ev
    for c, evs, s in alts:
        sv, vf.s = vf.s, s
        if vf.sat() != z3.unsat:
            yield s, kid, evs
        vf.s = sv


def post_txt(vf, st, kind, val, args):
    vf.need(kind == 'return', 'the formula is written, not refused')
    evs, nl = opened(vf, st, args, '.txt')
    P = args[0]
    vf.need(nl in (None, '\n', ''), 'newline')
    head, rest = [], list(evs)
    while rest and rest[0][0] == 'write':
        head += rest.pop(0)[2].ps
    vf.need(vf.same(Txt(head), Txt([('s', P.kf), ('c', ': value(in fraction)\n')])), 'title line: the variables')
    vf.need(len(rest) == 1, 'nothing else than the terms is written after the title')
    for s, k, es in pergroup(vf, rest[0], P):
        ps = []
        for e in es:
            vf.need(e[0] == 'write', 'text written per term')
            ps += e[2].ps
        want = Txt([('s', P.mkkey(k)), ('c', ': ('), ('s', El(('numerator', k))), ('c', ','), ('s', El(('denominator', k))), ('c', ')\n')])
        vf.need(vf.same(Txt(ps), want), 'one line per term: key, numerator and denominator')


def level(vf, P, st):
    return None


def post_csv(vf, st, kind, val, args):
    P = args[0]
    if kind == 'raise':
        ks = [k for n, k in st.keys if n == P.name]
        vf.need(bool(P.idx) and z3.Or(*[P.lev(x) != P.lev(y) for i, x in enumerate(ks) for y in ks[:i]] + [z3.BoolVal(False)]),
                'refused only when two terms differ in the number of summations')
        return
    evs, nl = opened(vf, st, args, '.csv')
    vf.need(nl == '', f'newline {nl!r}')
    # all terms at one level, which is also the level of the title
    k0 = vf.newkey(P)
    if vf.sat() == z3.unsat:        # no term at all
        vf.need(len(evs) == 1 and evs[0][0] == 'row', 'a formula without terms: the title row only')
        vf.need(EMPTY(vf, evs[0][2], P), 'title row of a formula without terms')
        return
    vf.need(len(evs) == 2 and evs[0][0] == 'row', 'title row, then one group of rows over the terms')
    head, rest = evs[0][2], evs[1]
    n = P.lev(k0)
    vf.need(vf.samet(head, title(P, n)), 'title row: the variables, index variables spelled out, num, den')
    for s, k, es in pergroup(vf, rest, P):
        vf.need(len(es) == 1 and es[0][0] == 'row', 'one row per term')
        segs = []
        for x in P.mkkey(k).segs:
            segs += x[1].segs if x[0] == 'el' else [x]
        want = Tup(segs + [('el', El(('numerator', k))), ('el', El(('denominator', k)))])
        vf.need(vf.samet(es[0][2], want), 'one row per term: components of the key in the order of the title, numerator, denominator')
        if P.idx:
            other = vf.newkey(P)
            vf.need(P.lev(k) == P.lev(other), 'formulas of mixed summation levels are refused')


def EMPTY(vf, row, P):
    sv = vf.s
    vf.s = vf.start.copy()
    try:
        return vf.samet(row, title(P, z3.IntVal(0)))
    finally:
        vf.s = sv


def title(P, n):
    m = z3.If(n >= 1, n - 1, z3.IntVal(0))
    segs = [P.kf.segs[0]]
    for x in P.idx:
        a, ln = (2, m) if x.endswith('{2:n}') else (1, n)
        segs.append(('var', ln, lambda i, x=x, a=a: Txt([('c', x[0]), ('s', iv(i) + a)]), None))
    if P.idx:
        segs.append(P.kf.segs[-1])
    return Tup(segs + [('el', C('num')), ('el', C('den'))])


def search(*a, **k):
    from bounded import files
    return files.search(*a, **k)


W = 'ajdmom.poly.Poly.'
for kind in KINDS:
    FileUnit(W + 'write_to_txt', setup(kind), post_txt, variant=kind, search=search)
    FileUnit(W + 'write_to_csv', setup(kind), post_csv, variant=kind, search=search)


# ------------------------------------------------------------------ splitting by level (svvj)
def kf_part(P, lev):
    """variables of the part with `lev` nested sums (lev: 0 or positive)"""
    return Tup([P.kf.segs[0], P.kf.segs[-1]]) if lev == 0 else P.kf


def setup_classify(vf):
    P, pre = formula(vf, 'jumps', nA=6)
    return [P], pre


def walk_groups(vf, evs):
    for e in evs:
        if e[0] not in ('range', 'each'):
            raise Failed('unexpected effect ' + e[0])


def post_classify(vf, st, kind, val, args):
    """the parts are indexed by the distinct levels in increasing order; part j holds exactly the terms of its level, under
    the same key (the empty index tuples dropped at level 0) and coefficient, once each; the formula is unchanged"""
    P, = args
    vf.need(kind == 'return', 'classified, not refused')
    vf.need(isinstance(val, Arr), 'a list of formulas')
    if any(e[0] == 'mutate' for e in st.ev):
        raise Failed('the formula is changed')
    walk_groups(vf, st.ev)
    puts = [e for e in st.ev if e[0] == 'each']
    kfs = [e for e in st.ev if e[0] == 'range']
    vf.need(len(puts) == 1, 'every term is placed once')
    vf.need(len(kfs) == 1, 'the variables of every part are set once')
    # variables
    _, i, n, base, alts = kfs[0]
    vf.need(vf.eqi(n, val.len), 'the variables of every part are set')
    levels = {}
    for c, evs, s in alts:
        sv, vf.s = vf.s, s
        if vf.sat() != z3.unsat:
            vf.need(len(evs) == 1 and evs[0][0] == 'set_keyfor' and evs[0][1].arr is val and vf.eqi(evs[0][1].i, i), 'the variables of part i are set')
            v = evs[0][2]
            w = [k for nm, k in vf.s.keys if str(k).startswith('w!')]
            if not w:
                raise Unsupported('level of the part unknown')
            lv = P.lev(w[-1])
            # a key of this part: the part's position is that of the level
            for want, cond in ((0, lv == 0), (1, lv > 0)):
                vf.s.pc.append(cond)
                if vf.sat() != z3.unsat:
                    vf.need(vf.samet(v, kf_part(P, want)), 'variables of a part at level ' + ('0' if want == 0 else 'above 0'))
                vf.s.pc.pop()
        vf.s = sv
    for s, k, es in pergroup(vf, puts[0], P):
        vf.need(len(es) == 1 and es[0][0] in ('put', 'add') and es[0][1].arr is val, 'every term is placed in one part')
        _, el, key, v = es[0]
        vf.need(isinstance(v, Coef) and v.kid.eq(k), 'coefficient kept')
        d = [x for x in st.env.values() if type(x).__name__ == 'Dist']
        if not d:
            raise Unsupported('no list of levels')
        d = d[-1]
        vf.need(vf.eqi(d.len, val.len) and d.srt, 'one part per level, in increasing order')
        kid = z3.Const(fresh('k'), KEY)
        vf.need(d.f(kid) == P.lev(kid), 'the parts are indexed by the number of summations')
        vf.need(vf.eqi(el.i, d.idx(P.lev(k))), 'placed in the part of its level')
        full = P.mkkey(k)
        for want, cond in ((0, P.lev(k) == 0), (1, P.lev(k) > 0)):
            vf.s.pc.append(cond)
            if vf.sat() != z3.unsat:
                vf.need(vf.samet(key, Tup([full.segs[0], full.segs[-1]]) if want == 0 else full), 'key kept')
            vf.s.pc.pop()


def call_classify(vf, f, args, kw):
    P = args[0]
    if not isinstance(P, PolyP) or kw:
        raise Unsupported('classify')
    n = z3.Int(fresh('nparts'))
    vf.s.pc.append(n >= 0)
    a = Arr('classify(' + P.name + ')', n)
    return a


def call_simplify(vf, f, args, kw):
    """the formula with e^{-kt}: same value (contract of simplify, C18), same index variables"""
    P = args[0]
    tp = kw.get('tp', args[1] if len(args) > 1 else 0)
    if not isinstance(P, PolyP) or tp != 0:
        raise Unsupported('simplify')
    Q, pre = formula(vf, 'jumps', nA=6, name='simplified')
    vf.s.pc += pre
    return Q


VV = 'ajdmom.mdl_svvj.cond2_cmom.'
FileUnit(VV + 'classify', setup_classify, post_classify, at_call=call_classify, search=search)


def setup_sub(vf):
    P, pre = formula(vf, 'jumps', nA=6)
    return [P, z3.Int('nth')], pre + [z3.Int('nth') >= 0]


def post_sub(vf, st, kind, val, args):
    """every part of the simplified formula is written once, part j to svvj-cond-cmoment-{nth}-formula-{j}.txt"""
    P, nth = args
    vf.need(kind == 'return', 'not refused')
    if any(e[0] == 'mutate' for e in st.ev):
        raise Failed('the formula is changed')
    vf.need(len(st.ev) == 1 and st.ev[0][0] == 'range', 'one write per part')
    _, i, n, base, alts = st.ev[0]
    for c, evs, s in alts:
        sv, vf.s = vf.s, s
        if vf.sat() != z3.unsat:
            vf.need(len(evs) == 1 and evs[0][0] == 'write_to_txt', 'one text file per part')
            _, el, a, kw = evs[0]
            vf.need(el.arr.name == 'classify(simplified)' and vf.eqi(el.arr.len, n) and vf.eqi(el.i, i), 'every part of the simplified formula is written')
            name = (list(a) + list(kw.values()))[0]
            vf.need(vf.same(name, Txt([('c', 'svvj-cond-cmoment-'), ('s', nth), ('c', '-formula-'), ('s', i), ('c', '.txt')])), 'file name of the part')
        vf.s = sv


CALLS[VV + 'simplify'] = call_simplify
FileUnit(VV + 'write_to_subpolys', setup_sub, post_sub, search=search)
