"""mdl_srjd.cmom, mom: moments of the stationary square-root jump diffusion.

v_t - E[v] = e^{-kt} [(v_0 - E[v]) + sigma IE + (IEZ - E IEZ)], so the conditional central moment of order n is a polynomial in
v_0 - E[v]; taking expectations under the stationary law gives   U_n = e^{-nkt} U_n + SUM_{j<n} (coefficient of (v_0-E[v])^j) U_j
for all t.  Exponentials e^{jkt} of different j are linearly independent, so U_n is the part of the sum free of e^{kt}.
find_same_order and divide check this structure at run time and refuse otherwise.  They are proved never to refuse a polynomial
of that structure; that the conditional moment has it is a lemma (leading monomial) and the trusted stationarity equation."""
from .base import *
from engine.tables import *
from . import cpp_mom, srjd_iez, srjd_cond
from .srjd_cond import MIC, KC, SH, gen7
from .srjd import add7

M, Q = 'ajdmom.mdl_srjd.cmom.', 'ajdmom.mdl_srjd.mom.'
KU = ('k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v')
KE = ('e^{kt}',) + KU


def inv_c(k, args):
    n1, n2 = args
    return [ge(k[0], 0), ge(k[2], 0), ge(k[3], 0), c_le(2 * k[2], n1), c_or(gt(n1 + n2, 0), c_and(*[c_eq(x, ZERO) for x in k]))]


inv_c.with_args = True
ATOM_INV['M_cIEIEZ'] = inv_c


def vc_(n):
    """E[(v_t - E v)^n | v_0]"""
    return over_splits(n, 3, lambda n, s: add7(MIC(s[0], s[1]), -n, 0, s[2], 0, s[0], 0, 0).scale(multinom(n, s)))


def inv_vc(k, n):
    lead = (-n, ZERO, n, ZERO, ZERO, ZERO, ZERO)
    return [ge(k[2], 0), ge(k[3], 0), c_le(k[2], n), c_or(c_lt(k[2], n), c_and(*[c_eq(x, y) for x, y in zip(k, lead)]))]


vc = defined('VC_srjd', SH, vc_, inv=lambda k, a: inv_vc(k, a[0]))


@contract(M + 'cond_cmoment_v')
def cond_cmoment_v(it, n):
    need_nonneg(it, n)
    return poly(vc(n), KC)


Unit(M + 'cond_cmoment_v', lambda it: ([I('n')], nonneg('n')), ranges={'n': (0, 4)}, tries=10, goal=def_goal('VC_srjd'))


# ---- the equations for the stationary moments
def UM(n):
    return fatom('U_srjd', (toE(n),), 'iiiii')


def expect(f, get=UM):
    """the powers of v_0 - E[v] replaced by the stationary central moments"""
    def ob(k):
        o = k[2]
        a = (k[0], k[1]) + tuple(k[3:])
        r = fmono(ONE, a).guard(c_eq(o, ZERO))
        if not o.is_const() or o.cval() > 1:
            r = r + get(o).mapkey(lambda q: (a[0],) + tuple(x + y for x, y in zip(a[1:], q))).guard(ge(o, 2))
        return r
    return bind_over(f, ob)


def lower(f, n):
    return bind_over(f, lambda k: fmono(ONE, k).guard(c_lt(k[2], n)))


def free(f):
    """the part free of e^{kt}"""
    return bind_over(f, lambda k: fmono(ONE, tuple(k[1:])).guard(c_eq(k[0], ZERO)))


def rhs(get, n):
    return free(expect(lower(vc(n), n), get))


def df(args):
    if not const_all(args):
        return None
    n = int(args[0].cval())
    return fmono(ONE, (ZERO,) * 5) if n == 0 else FZERO if n <= 1 else None


DEFS['U_srjd'] = df
UNFOLD['U_srjd'] = lambda n: (ge(n, 2), rhs(UM, n))
facts('U_srjd', (1,))
ATOM_REAL['U_srjd'] = real_poly(M + 'cmoment_v')


@contract(M + 'key_times_poly')
def key_times_poly(it, c, k, p):
    return poly(it.getf(p).scale(toE(c)).mapkey(lambda q: (k[0], k[1] + q[0]) + tuple(x + y for x, y in zip(k[3:], q[1:]))), KE)


Unit(M + 'key_times_poly', lambda it: ([R('c'), tuple(I(f'k{i}') for i in range(7)), P('P', 'iiiii', keyfor=KU)], []), keyshape='iiiiii')

LU = {'atom': 'U_srjd', 'shape': 'iiiii', 'keyfor': KU}


def ulist(it, name, n):
    l = SymListV(toE(n), lambda it, i: PolyV(fatom(name, (toE(i),), 'iiiii'), KU, 0), 0)
    return l


def lead(n):
    n = toE(n)
    return (-n, ZERO, n, ZERO, ZERO, ZERO, ZERO)


def lead_lemma(it):
    """the only monomial of order n of the conditional central moment of order n is e^{-nkt} (v_0 - E[v])^n, with coefficient one"""
    n = I('n')
    it.pc = [ge(n, 0)]
    part = lambda s0, s1, s2: bind_over(add7(MIC(s0, s1), -n, 0, s2, 0, s0, 0, 0).scale(multinom(n, (s0, s1, s2))), lambda k: fmono(ONE, k).guard(c_eq(k[2], n)))
    body = lambda rest: over_splits(n, 3, lambda n, s: rest(part(*s), s[0], s[1]))
    chk_equal(it, body(lambda f, a, b: f.guard(ge(a + b, 1))), FZERO, 'monomials of the highest order with volatility or jumps')
    one = body(lambda f, a, b: f.guard(c_eq(a, ZERO)).guard(c_eq(b, ZERO)))
    chk_equal(it, one, part(ZERO, ZERO, n), 'the split without volatility and jumps')
    chk_equal(it, part(ZERO, ZERO, n), fmono(ONE, lead(n)), 'monomial of the highest order')
    return 3


LEAD = Lemma('leading monomial of the conditional central moments of the square-root jump diffusion', lead_lemma).name


@contract(M + 'find_same_order')
def find_same_order(it, p, n):
    """requires: the conditional central moment of order n (whose only monomial of order n is the leading one, lemma)"""
    a = pure_atom(it.getf(p))
    if a is None or a.name != 'VC_srjd' or not valid(it.pc, c_and(c_eq(a.args[0], n), ge(n, 0))):
        raise Undecided('not the conditional central moment of that order')
    it.fact(Cond('atom', ('in', p.memb, lead(n))))       # its coefficient is one
    return True


REFUSE = {'may_refuse': True, 'havoc': True}


def only_value(unit, it, args, out):
    """refusing is allowed (partial correctness); a value returned is the one the contract gives"""
    if out.kind == 'value':
        out.raises = []
        default_goal(unit, it, args, out)


def stationary(get, n):
    """SUM_{j<n} (coefficient of (v_0-E[v])^j) U_j, which equals U_n - e^{-nkt} U_n"""
    return expect(lower(vc(n), n), get)


@contract(M + 'divide')
def divide(it, n, p):
    """requires: S - e^{-nkt} S with S free of e^{kt}.  Trusted: the stationary equation has this form"""
    f = it.getf(p)
    try:
        ok = valid(it.pc, ge(n, 2)) and equal(f, stationary(UM, n), it.pc, DEFS, want_model=False) is None
    except Undecided:
        ok = False
    if not ok:
        raise Undecided('not the stationary equation of that order')
    return poly(free(f), KU)


def setup_same(it):
    n = I('n')
    low = bind_over(fatom('P', (), SH), lambda k: fmono(ONE, k).guard(c_lt(k[2], n)))
    return [PolyV(fmono(ONE, lead(n)) + low, KC, 0, name='P', param=True), n], [ge(n, 0)]


def setup_div(it):
    n = I('n')
    S = fatom('S', (), 'iiiii')
    return [n, PolyV(S.mapkey(lambda k: (ZERO,) + tuple(k)) + S.refresh().mapkey(lambda k: (-n,) + tuple(k)).scale(-ONE), KE, 0, name='P', param=True)], [ge(n, 2)]


ANY = {'spec': lambda it, p, n: True}, {'spec': lambda it, n, p: poly(free(it.getf(p)), KU)}
Unit(M + 'find_same_order', setup_same, **ANY[0], ranges={'n': (0, 5)}, gen={'P': lambda rnd: tuple(rnd.randint(-3, 4) for _ in range(7))})
Unit(M + 'divide', setup_div, **ANY[1], ranges={'n': (2, 6)})
Unit(M + 'divide', lambda it: ([I('n'), P('P', 'iiiiii', keyfor=KE)], []), **ANY[1], variant='any polynomial: value if not refused', goal=only_value, opts=REFUSE)


@contract(M + 'last_expectation')
def last_expectation(it, p, lst):
    f = it.getf(p)
    lst = as_list(it, LU, lst)
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb) + [ge(t.key[2], 2)]
        if feasible(pc) and not valid(pc, c_lt(t.key[2], lst.length)):
            raise Undecided('moment of that order not in the list')
    return poly(expect(f, lambda o: it.getf(lst.fn(it, o))), KE)


def setup_last(it, n=I('n')):
    return [P('P', SH, keyfor=KC, dom=lambda k: [ge(k[2], 0), c_lt(k[2], n)]), ulist(it, 'U_list', n)], [ge(n, 2)]


Unit(M + 'last_expectation', setup_last, csetup=lambda it: setup_last(it, E.const(5)), gen={'P': gen7}, keyshape='iiiiii')


@contract(M + 'solve_polynomial')
def solve_polynomial(it, n, lst):
    """requires: the list holds the stationary central moments of the orders below n"""
    lst = as_list(it, LU, lst)
    if not valid(it.pc, c_and(ge(n, 2), c_le(n, lst.length))):
        raise Undecided('order')
    o = Sym(fresh('o'), True)
    x = lst.fn(it, o)
    if equal(it.getf(x), UM(o), it.pc + [ge(o, 0), c_lt(o, n)], DEFS, want_model=False) is not None:
        raise Undecided('entries of the list')
    return poly(rhs(lambda o: it.getf(lst.fn(it, o)), n), KU)


Unit(M + 'solve_polynomial', lambda it: ([I('n'), ulist(it, 'U_srjd', I('n'))], [ge(I('n'), 2)]), opts={'real_atoms': True}, ranges={'n': (2, 4)})


@contract(M + 'cmoment_v')
def cmoment_v(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    return poly(UM(n), KU)


Unit(M + 'cmoment_v', lambda it: ([I('n')], []), opts={'list': LU}, ranges={'n': (-1, 4)}, tries=6)


# ---- non-central moments
KT = ('k^{-}', 'theta', 'sigma', 'lmbd', 'mu_v')


def expand_f(f):
    """E[v] = theta + lmbd mu_v / k"""
    def ob(k):
        n = k[1]
        return over_splits(n, 2, lambda n, s: fmono(multinom(n, s), (k[0] + s[1], s[0], k[2], k[3] + s[1], k[4] + s[1])))
    return bind_over(f, ob)


@contract(Q + 'expand')
def expand(it, p):
    f = it.getf(p)
    for t in f.ts:
        if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb) + [c_lt(t.key[1], ZERO)]):
            raise Undecided('negative power of E[v]')
    return poly(expand_f(f), KT)


Unit(Q + 'expand', lambda it: ([P('P', 'iiiii', keyfor=KU, dom=lambda k: [ge(k[1], 0)])], []), gen={'P': lambda rnd: tuple(rnd.randint(0, 4) for _ in range(5))})


def um_(n):
    return over_splits(n, 2, lambda n, s: UM(s[0]).mapkey(lambda k: (k[0], k[1] + s[1]) + tuple(k[2:])).scale(multinom(n, s)))


um = defined('UV_srjd', 'iiiii', um_, inv=lambda k, a: [ge(k[1], 0)])


@contract(Q + 'moment_v')
def moment_v(it, n, simplify=True):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    f = um(n)
    return poly(expand_f(f), KT) if it.truth(simplify) else poly(f, KU)


for s in (True, False):
    Unit(Q + 'moment_v', (lambda s: lambda it: ([I('n'), s], []))(s), ranges={'n': (-1, 4)}, tries=8, variant='expanded' if s else 'in E[v]',
         goal=None if s else def_goal('UV_srjd', [0]))
