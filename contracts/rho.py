"""simplify_rho for any number of variables and any position: s^(2p) -> (1 - r^2)^p, s the variable at the position, r the one before.

Every term  c A r^a s^b B  contributes, once per i in 0..b/2, the term  c comb(b/2, i) (-1)^i A r^(a+2i) B  (binomial theorem);
an odd power of s is refused; the variable list loses s; the formula itself is unchanged; terms that cancel are removed."""
import z3
from engine import unit as U
from engine.files import FileUnit, PolyP, Tup, Txt, El, Ref, KEY, iv, fresh, COEF, COMB, POWC, Failed, Unsupported, real
from .files import C

I = z3.IntSort()
RHO, SQ = z3.Function('power_rho', KEY, I), z3.Function('power_sqrt', KEY, I)


def setup(vf):
    n, b = z3.Int('n'), z3.Int('lenB')
    kf = lambda full: Tup([('var', n - 1, lambda i: El(('A', i)), 'A'), ('el', El(('rho',)))] + ([('el', El(('sqrt(1-rho^2)',)))] if full else [])
                          + [('var', b, lambda i: El(('B', i)), 'B')])

    def key(k, r=None):
        return Tup([('var', n - 1, lambda i: El(('kA', k, i)), None), ('el', RHO(k) if r is None else r)] + ([('el', SQ(k))] if r is None else [])
                   + [('var', b, lambda i: El(('kB', k, i)), None)])
    P = PolyP('P', kf(True), key, lambda k: [SQ(k) >= 0])
    P.result, P.key = kf(False), key
    p, x = z3.Int('p'), z3.Real('x')
    return [P, n], [n >= 1, b >= 0, z3.ForAll([p], z3.Implies(p >= 0, COMB(p, 0) == 1), patterns=[COMB(p, 0)]),
                    z3.ForAll([x], POWC(x, 0) == 1, patterns=[POWC(x, 0)])]


def post(vf, st, kind, val, args):
    P = args[0]
    if any(e[0] == 'mutate' for e in st.ev):
        raise Failed('the formula is changed')
    if kind == 'raise':
        ks = [k for n, k in st.keys]
        vf.need(z3.Or(*[SQ(k) % 2 == 1 for k in ks] + [z3.BoolVal(False)]), 'refused only for an odd power of sqrt(1-rho^2)')
        return
    if not (isinstance(val, Ref) and val.kind == 'poly'):
        raise Unsupported('result')
    evs = [e for e in st.ev if e[0] in ('each', 'range') or e[1] is val or getattr(e[1], 'h', None) == val.h]
    kf = [e for e in evs if e[0] == 'set_keyfor']
    vf.need(bool(kf) and vf.samet(kf[-1][2], P.result), 'variables of the result: without sqrt(1-rho^2)')
    groups = [e for e in evs if e[0] in ('each', 'range')]
    k0 = vf.newkey(P)
    if not groups:
        vf.need(vf.sat() == z3.unsat, 'terms are kept')
        return
    vf.need(len(groups) == 1 and groups[0][0] == 'each', 'every term is expanded once')
    if evs[-1][0] != 'remove_zero':
        raise Failed('terms that cancel are removed')
    for c, es, s in groups[0][4]:
        sv, vf.s = vf.s, s
        k = groups[0][2]
        if vf.sat() != z3.unsat:
            vf.need(SQ(k) % 2 == 0, 'an odd power of sqrt(1-rho^2) is refused')
            vf.need(len(es) == 1, 'one expansion per term')
            e = es[0]
            if e[0] == 'add':
                vf.need(SQ(k) == 0, 'single term only without sqrt(1-rho^2)')
                one(vf, P, val, k, e, z3.IntVal(0))
            else:
                vf.need(e[0] == 'range', 'terms are added')
                vf.need(iv(e[2]) == SQ(k) / 2 + 1, 'binomial expansion: all terms')
                for c2, es2, s2 in e[4]:
                    vf.s = s2
                    if vf.sat() != z3.unsat:
                        vf.need(len(es2) == 1 and es2[0][0] == 'add', 'one term per index')
                        one(vf, P, val, k, es2[0], e[1])
        vf.s = sv


def one(vf, P, val, k, e, i):
    vf.need(e[1].h == val.h, 'added to the result')
    vf.need(vf.same(e[2], P.key(k, RHO(k) + 2 * i)), 'key: power of rho raised by 2i, the others kept')
    vf.need(real(e[3]) is not None and vf.holds(real(e[3]) == COEF(k) * COMB(SQ(k) / 2, i) * POWC(z3.RealVal(-1), i)), 'coefficient: binomial with alternating sign')


OLD = []
for nm in [n for n, u in U.UNITS.items() if u.qual == 'ajdmom.utils.simplify_rho']:
    OLD.append(U.UNITS.pop(nm))


def search(qual, seed, tries, seconds=30):
    ran = 0
    for u in OLD:
        r = U.concrete_search(u, seed=seed, seconds=max(2, seconds / len(OLD)))
        ran += r.get('ran', 0)
        if r.get('witness'):
            return {**r, 'ran': ran}
    return {'ran': ran, 'ok': ran}


FileUnit('ajdmom.utils.simplify_rho', setup, post, search=search)
