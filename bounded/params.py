from fractions import Fraction as F
# admissible parameter points (rational, so values are exact inputs)
A = dict(k=F(13, 10), theta=F(3, 5), sigma=F(7, 10), rho=F(-2, 5), mu=F(3, 20), h=F(9, 10), v0=F(1, 2), t=F(9, 10), t0=F(2, 5),
         lmbd=F(6, 5), mu_v=F(3, 10), rhoJ=F(-1, 2), mu_s=F(-1, 4), sigma_s=F(2, 5), rho_J=F(-1, 2), lmbd_s=F(4, 5),
         mu_j=F(-1, 5), sigma_j=F(3, 10), s=F(1, 4), J_i=F(3, 7),
         k1=F(7, 10), theta1=F(2, 5), sigma1=F(1, 2), k2=F(19, 10), theta2=F(3, 10), sigma2=F(3, 5), v1=F(1, 3), v2=F(1, 4))
A['lambda'] = F(7, 10)
B = dict(k=F(4, 7), theta=F(5, 3), sigma=F(6, 5), rho=F(3, 5), mu=F(-1, 3), h=F(3, 2), v0=F(9, 4), t=F(3, 2), t0=F(1, 7),
         lmbd=F(1, 3), mu_v=F(5, 4), rhoJ=F(2, 3), mu_s=F(1, 5), sigma_s=F(5, 7), rho_J=F(2, 3), lmbd_s=F(3, 2),
         mu_j=F(1, 3), sigma_j=F(4, 5), s=F(1, 2), J_i=F(5, 3),
         k1=F(5, 4), theta1=F(6, 5), sigma1=F(1, 3), k2=F(3, 7), theta2=F(1, 2), sigma2=F(9, 10), v1=F(5, 6), v2=F(7, 5))
B['lambda'] = F(5, 4)
# jump paths within (0, h); times distinct
JA = [((), ()), ((F(1, 3),), (F(2, 5),)), ((F(1, 5), F(3, 5)), (F(1, 2), F(1, 3))), ((F(7, 10), F(1, 10), F(2, 5)), (F(1, 4), F(3, 4), F(1, 5)))]
FL = {k: float(v) for k, v in A.items()}
def par1(P, **kw):   # dictionaries the package's scalar functions take
    d = dict(mu=float(P['mu']), k=float(P['k']), theta=float(P['theta']), sigma_v=float(P['sigma']), rho=float(P['rho']), h=float(P['h']),
             v0=float(P['v0']))
    d.update({'lambda': float(P['lambda']), 'mu_j': float(P['mu_j']), 'sigma_j': float(P['sigma_j'])})
    return d
def par2(P):
    d = {x: float(P[x]) for x in ('mu', 'k1', 'theta1', 'k2', 'theta2', 'h', 'lambda', 'mu_j', 'sigma_j')}
    d['sigma_v1'] = float(P['sigma1']); d['sigma_v2'] = float(P['sigma2'])
    return d
def par3(P, J=((), ())):
    d = {x: float(P[x]) for x in ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'h', 'lmbd', 'mu_v', 'rhoJ', 'rho_J', 'mu_s', 'sigma_s', 'lmbd_s')}
    d['jumptime'] = tuple(float(x) for x in J[0]); d['jumpsize'] = tuple(float(x) for x in J[1])
    d['lb'] = float(P['s']); d['ub'] = float(P['t'])
    return d
