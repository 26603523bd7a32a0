"""enlarge for any two lists of distinct variable names: every term keeps its coefficient, its exponents move to the position of their
variable in the new list, the other positions are 0; a variable missing in the new list is refused; the formula is unchanged."""
import z3
from engine import unit as U
from engine.files import FileUnit, PolyP, Tup, El, Ref, Coef, Scatter, KEY, iv, fresh, Failed, Unsupported, asb

I = z3.IntSort()
IN, POS, INV = z3.Function('contained', I, z3.BoolSort()), z3.Function('position', I, I), z3.Function('which', I, I)
EX = z3.Function('exponent', KEY, I, I)


def setup(vf):
    n, m = z3.Int('n'), z3.Int('m')
    old = Tup([('var', n, lambda i: El(('old', i)), 'old')])
    new = Tup([('var', m, lambda i: El(('new', i)), 'new')])
    P = PolyP('P', old, lambda k: Tup([('var', n, lambda i: EX(k, iv(i)), None)]), lambda k: [])
    P.new, P.n, P.m = new, n, m

    def find(x):
        if not (isinstance(x, El) and x.tag[0] == 'old'):
            raise Unsupported('position of this name')
        i = iv(x.tag[1])
        vf.s.pc.append(z3.Implies(IN(i), z3.And(POS(i) >= 0, POS(i) < m, INV(POS(i)) == i)))
        return IN(i), POS(i)
    vf.hooks['new'] = find
    h = vf.newlist(new)
    return [P, h], [n >= 0, m >= 0]


def post(vf, st, kind, val, args):
    P = args[0]
    if any(e[0] == 'mutate' for e in st.ev):
        raise Failed('the formula is changed')
    if kind == 'raise':
        # refused: some variable of the formula is not in the new list
        miss = [c for c in st.pc if z3.is_not(c) and c.arg(0).decl().eq(IN)]
        vf.need(bool(miss) and z3.Or(*[z3.And(c, c.arg(0).arg(0) >= 0, c.arg(0).arg(0) < P.n) for c in miss]), 'refused only when a variable is missing in the new list')
        return
    if not (isinstance(val, Ref) and val.kind == 'poly'):
        raise Unsupported('result')
    if any(e[0] not in ('set_keyfor', 'each', 'remove_zero') for e in st.ev):
        raise Failed('unexpected effect')
    kf = [e for e in st.ev if e[0] == 'set_keyfor' and e[1].h == val.h]
    vf.need(bool(kf) and vf.samet(kf[-1][2], P.new), 'variables of the result: the new list')
    g = [e for e in st.ev if e[0] == 'each']
    k0 = vf.newkey(P)
    if not g:
        vf.need(vf.sat() == z3.unsat, 'terms are kept')
        return
    vf.need(len(g) == 1, 'every term is moved once')
    for c, es, s in g[0][4]:
        sv, vf.s = vf.s, s
        k = g[0][2]
        if vf.sat() != z3.unsat:
            vf.need(len(es) == 1 and es[0][0] in ('add', 'put') and es[0][1].h == val.h, 'one term per term')
            _, _, key, v = es[0]
            vf.need(isinstance(v, Coef) and v.kid.eq(k), 'coefficient kept')
            key = vf.tup(key)
            sg = key.segs
            if not (len(sg) == 1 and sg[0][0] == 'var' and isinstance(sg[0][3], Scatter)):
                raise Unsupported('key')
            sc = sg[0][3]
            vf.need(vf.eqi(sg[0][1], P.m), 'one exponent per new variable')
            b = vf.norm(sc.base)
            vf.need(len(b) == 1 and b[0][0] == 'var' and vf.same(b[0][2](z3.Int(fresh('i'))), 0), 'exponents of the new variables: 0')
            vf.need(vf.eqi(sc.n, P.n), 'every exponent is moved')
            vf.s.pc += [sc.i >= 0, sc.i < P.n] + sc.pcs
            # at normal return every variable of the formula is contained
            vf.hooks['new'](El(('old', sc.i)))
            vf.need(z3.And(sc.idx == POS(sc.i), IN(sc.i)), 'exponent at the position of its variable')
            vf.need(vf.same(sc.val, EX(k, sc.i)), 'exponent kept')
        vf.s = sv


Q = 'ajdmom.mdl_svcj.cond_mom.enlarge'
OLD = [U.UNITS.pop(nm) for nm in [n for n, u in U.UNITS.items() if u.qual == Q]]


def search(qual, seed, tries, seconds=30):
    ran = 0
    for u in OLD:
        r = U.concrete_search(u, seed=seed, seconds=max(2, seconds / len(OLD)))
        ran += r.get('ran', 0)
        if r.get('witness'):
            return {**r, 'ran': ran}
    return {'ran': ran, 'ok': ran}


FileUnit(Q, setup, post, search=search)
