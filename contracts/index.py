"""which contract modules and units each property rests on (dependencies are added from the contracts used)"""
P = 'ajdmom.poly.Poly.'
ITO = 'ajdmom.ito_mom.'
COND = 'ajdmom.ito_cond_mom.'
ITOS = 'ajdmom.itos_mom.'
CPP = 'ajdmom.cpp_mom.'
S1, S1J, S2, S2J = (f'ajdmom.mdl_{m}.' for m in ('1fsv', '1fsvj', '2fsv', '2fsvj'))
VV = 'ajdmom.mdl_svvj.'
SR = 'ajdmom.mdl_srjd.'
SC = 'ajdmom.mdl_svcj.'
DECOMP = 'the return over an interval is the linear form in the Ito integrals and the initial variance that the model documentation states; multinomial expansion; linearity of expectation'
MOMIND = 'moments of independent parts multiply'

PLAN = {
    'C01': {'modules': ['poly'], 'units': [P + x for x in ('__add__', '__sub__', '__mul__', '__rmul__', '__pow__', 'merge',
                                                          'add_keyval', 'remove_zero', 'set_keyfor', 'is_exact_type')], 'complete': True},
    'C02': {'modules': ['poly'], 'units': [P + x for x in ('__add__', '__sub__', '__mul__', 'merge', '__pow__', 'is_exact_type', 'mul_poly')]
            + ['ajdmom.poly.kv'], 'complete': True},
    'C04': {'modules': ['poly', 'utils_c', 'ito', 'ito_cond', 'cond_cm', 'itos', 'srjd_iez', 'srjd_cond', 'srjd_cond2', 'svcj'], 'complete': True, 'units': [S1 + 'cond_cmom.int_mIEII', SR + 'cond2_mom.int_e_IE', SR + 'cond2_mom.int_e_IEZ_IE', SC + 'cond_ieii_ieziziz_mom.int_e_s_poly', SR + 'cond_ie_iez_mom.int_e_poly', SR + 'cond_ie_iez_cmom.int_e_poly', SR + 'cond2_mom.int_e_poly'] + [ITO + x for x in ('c_nmi', 'int_et', 'int_e_poly')]
            + [COND + x for x in ('int_et_fZ', 'int_e_poly', 'int_e_IEZ_poly')]
            + [ITOS + x for x in ('c', 'int_et', 'int_mIEI_IEII')],
            'lemmas': ['a function with the given derivative and value 0 at the lower limit is the definite integral']},
    'C05': {'modules': ['poly', 'ito'], 'units': [ITO + 'moment_IEII', ITO + 'moment_v', ITO + 'recursive_IEII'], 'complete': True,
            'lemmas': ["Ito's formula for products of the integrals (recursion for E[eI^n3 I^n4 I*^n5 | v])", 'moments of the Gamma law']},
    'C06': {'modules': ['poly', 'ito', 'itos'], 'units': [ITOS + x for x in ('c', 'int_et', 't_mul_t0', 'int_mIEI_IEII', 'coef_poly',
                                                                            'recursive_IEI_IEII', 'moment_IEI_IEII')], 'complete': True,
            'lemmas': ["Ito's formula for products of the five integrals (independent factors)"]},
    'C07': {'modules': ['poly', 'ito', 'ito_cond', 'fz'], 'units': [COND + x for x in ('int_e_poly', 'int_e_IEZ_poly', 'recursive_IEII', 'moment_IEII')]
            + ['ajdmom.utils.fZ', 'ajdmom.utils.fZ_each_index'],
            'complete': True,
            'lemmas': ["Ito's formula for products of the integrals, conditionally on the jumps of the variance"]},
    'C08': {'modules': ['poly', 'cpp_mom'], 'units': [CPP + x for x in ('dmgf', 'mnorm', 'd1_times_key', 'dterm', 'dmgf_cpp', 'decode',
                                                                       'mcpp_original', 'mcpp', 'cmcpp')], 'complete': True,
            'lemmas': ['the n-th derivative at 0 of the moment generating function is the n-th moment',
                       'generating functions of the normal law and of compound Poisson sums', 'binomial expansion of central moments']},
    'C03': {'modules': ['poly', 'utils_c'], 'units': ['ajdmom.utils.' + x for x in ('comb', 'dbfactorial', 'cmnorm', 'multilevel_index', 'multilevel_comb')], 'complete': True},
    'C15': {'modules': ['poly', 'cpp_mom', 'ito', 'utils_c', 'srjd_iez', 'srjd_cond', 'srjd_mom', 'svcj_z', 'svcj'], 'units': [SC + x for x in (
        'ieziziz_mom.moment_ejjj', 'ieziziz_mom.d1_times_key', 'ieziziz_mom.dterm', 'ieziziz_mom.dmgf_ieziziz', 'ieziziz_mom.decode', 'ieziziz_mom.moment_ieziziz',
        'cond_ieii_ieziziz_mom.ieziziz_to_ieii_ieziziz', 'cond_ieii_ieziziz_mom.expand_ieziziz', 'cond_ieii_ieziziz_mom.int_e_s_poly',
        'cond_ieii_ieziziz_mom.key_times_poly', 'cond_ieii_ieziziz_mom.recursive_ieii_ieziziz', 'cond_ieii_ieziziz_mom.moment_ieii_ieziziz',
        'cond_mom.b_n', 'cond_mom.enlarge', 'cond_mom.expand_sqrt', 'cond_mom.moment_y', 'cond_cmom.cmoment_y', 'mom.moment_v_theta', 'mom.key_times_poly', 'mom.moment_y',
        'cmom.cmoment_y', 'cmom.remove_mu_column')] + ['lemma leading monomial*'],
        'complete': True, 'lemmas': [DECOMP, "Ito's formula; the jump sums after s are independent of the past", 'n-th derivative of the generating function of the three jump sums at 0',
                   'the joint jump moments are not identically zero', 'stationarity of the variance']},
    'C18': {'modules': ['poly', 'utils_c', 'ito', 'cpp_mom', 'ito_cond', 'cond_cm', 'srjd_iez', 'srjd_cond', 'srjd_mom', 'svcj_z', 'svcj', 'files'], 'units': [
        VV + 'cond2_cmom.classify', SC + 'cond_ieii_ieziziz_mom.ieziziz_to_ieii_ieziziz', SC + 'cond_ieii_ieziziz_mom.expand_ieziziz', SC + 'cond_mom.enlarge', SC + 'cond_mom.expand_sqrt',
        SC + 'cmom.remove_mu_column', SR + 'mom.expand', 'ajdmom.utils.simplify_rho', S1 + 'cond_cmom.simplify', VV + 'cond2_cmom.simplify'], 'complete': True},
    'C14': {'modules': ['poly', 'ito', 'utils_c', 'ito_cond', 'cond_cm', 'cpp_mom', 'svij', 'svcj2'], 'units': [VV + 'cond2_cmom.' + x for x in ('cmoments_y_to', 'cmoment_y')]
            + [VV + 'cond2_mom.' + x for x in ('moment_comb', 'moments_y_to', 'moment_y')]
            + ['ajdmom.mdl_svij.cond2_mom.moment*', 'ajdmom.mdl_svij.cond2_cmom.cmoment*', 'ajdmom.mdl_svcj.cond2_mom.m*', 'ajdmom.mdl_svcj.cond2_mom.comb_poly',
               'ajdmom.mdl_svcj.cond2_cmom.cmoment*'],
            'complete': True, 'lemmas': [DECOMP, MOMIND]},
    'C09': {'modules': ['poly', 'ito', 'utils_c', 'm1fsv', 'ito_cond', 'cond_cm'], 'units': ['ajdmom.ito_mom.moment_IEII', 'ajdmom.ito_mom.moment_v', 'ajdmom.utils.comb']
            + [S1 + 'mom.' + x for x in ('b_n', 'moment_comb', 'sub_v', 'moment_y')]
            + [S1 + 'cmom.' + x for x in ('b_n', 've_IEII', 'moment_comb', 'sub_v', 'cmoment_y')]
            + [S1 + 'cond_cmom.' + x for x in ('int_mIEII', 'recursive_IEII', 'cmoments_y_to', 'simplify')], 'complete': True, 'lemmas': [DECOMP]},
    'C10': {'modules': ['poly', 'ito', 'itos', 'utils_c', 'm1fsv', 'm1fsvj', 'm2fsv', 'm2fsvj', 'cpp_mom'], 'units': [S1 + 'cov.' + x for x in (
        'exp_vn', 've_IEII_vn', 'moment_inner_comb', 'moment_outer_comb', 'moment_yy', 'cov_yy')] + [S1J + 'cov.' + x for x in ('moment_yy', 'cov_yy')]
        + [S2 + 'cov.' + x for x in ('vvee_IEI_IEII_vnvn', 'moment_inner_comb', 'moment_outer_comb', 'moment_yy', 'cov_yy')]
        + [S2J + 'cov.' + x for x in ('moment_yy', 'cov_yy')], 'complete': True, 'lemmas': [DECOMP, MOMIND]},
    'C11': {'modules': ['poly', 'ito', 'itos', 'utils_c', 'm1fsv', 'm1fsvj', 'm2fsv', 'm2fsvj', 'cpp_mom'],
            'units': [S1J + 'mom.moment_y', S1J + 'cmom.cmoment_y', S2J + 'mom.moment_y', S2J + 'cmom.cmoment_y'],
            'complete': True, 'lemmas': [DECOMP, MOMIND]},
    'C12': {'modules': ['poly', 'ito', 'itos', 'utils_c', 'm2fsv'], 'units': [S2 + 'mom.' + x for x in ('b_n', 'moment_comb', 'sub_v', 'moment_y')]
            + [S2 + 'cmom.' + x for x in ('b_n', 'vvee_IEI_IEII', 'moment_comb', 'sub_v', 'cmoment_y')], 'complete': True, 'lemmas': [DECOMP]},
    'C16': {'modules': ['poly', 'utils_c', 'm1fsv', 'm1fsvj', 'm2fsv', 'm2fsvj', 'deriv', 'p2n'], 'units': [x + 'dpoly' for x in
            (S1 + 'mom.', S1 + 'cmom.', S1J + 'mom.', S1J + 'cmom.', S2 + 'mom.', S2 + 'cmom.', S2J + 'mom.', S2J + 'cmom.')]
            + [S2 + 'cmom.dt0'] + [x + y for x in (S1, S1J, S2, S2J) for y in ('mom.dm', 'cmom.dcm', 'cov.dcov')] + ['lemma d/d*'],
            'complete': True, 'lemmas': ['derivative of a finite sum is the sum of the derivatives; derivatives of exp, powers and products']},
    'C13': {'modules': ['poly', 'cpp_mom', 'srjd_iez', 'srjd_cond', 'srjd', 'srjd_cond2', 'srjd_mom'], 'units': [SR + x for x in (
        'iez_mom.moment_EJ', 'iez_mom.decode', 'iez_mom.moment_IEZ', 'iez_cmom.*', 'cond_ie_iez_mom.*', 'cond_ie_iez_cmom.*', 'cond_mom.*', 'cond_cmom.*',
        'cond2_mom.int_e_poly', 'cond2_mom.coef_poly', 'cond2_mom.int_e_IE', 'cond2_mom.int_e_IEZ_IE', 'cond2_mom.recursive_IE', 'cond2_mom.moment_IE',
        'cond2_mom.moment_v', 'cond2_cmom.cmoment_v', 'cmom.*', 'mom.expand', 'mom.moment_v')] + ['lemma leading monomial*'],
        'complete': True, 'lemmas': ["Ito's formula for products of the volatility and jump integrals; the jump integral's increment is independent of the past",
                   'stationarity of the process: SUM_{j<n} (coefficient of (v_0-E[v])^j) U_j equals U_n - e^{-nkt} U_n; linear independence of the exponentials e^{jkt}', 'moment generating function of compound Poisson integrals']},
    'C17': {'modules': ['poly', 'utils_c', 'm1fsv', 'm1fsvj', 'm2fsv', 'm2fsvj', 'p2n', 'p2n_cond', 'entries'], 'units':
            [x + y for x in (S1, S1J, S2, S2J) for y in ('mom.poly2num', 'cmom.poly2num', 'mom.m', 'cmom.cm', 'cov.cov')]
            + ['ajdmom.mdl_' + x + '.poly2num' for x in ('svvj.cond2_mom', 'svvj.cond2_cmom', 'svij.cond2_mom', 'svij.cond2_cmom', 'svcj.cond2_mom',
               'svcj.cond2_cmom', 'svcj.cond_mom', 'svcj.mom', 'svcj.cond_ieii_ieziziz_mom', 'svcj.ieziziz_mom', 'srjd.cond_ie_iez_mom',
               'srjd.cond_ie_iez_cmom', 'srjd.cond2_mom', 'srjd.cond_mom', 'srjd.iez_mom', '1fsv.cond_cmom')]
            + [x + y for x in (S1, S1J, S2, S2J) for y in ('mom.dm', 'cmom.dcm', 'cov.dcov')]
            + ['ajdmom.mdl_' + x for x in ('svvj.cond2_mom.m', 'svvj.cond2_cmom.cm', 'svij.cond2_mom.m', 'svij.cond2_cmom.cm', 'svcj.cond2_mom.m', 'svcj.cond2_cmom.cm',
               '1fsv.cond_cmom.cond_cm', 'srjd.iez_mom.m', 'srjd.iez_cmom.cm', 'srjd.cond_ie_iez_mom.m_ie', 'srjd.cond_ie_iez_mom.m_ie_iez', 'srjd.cond_ie_iez_cmom.m_ie',
               'srjd.cond_ie_iez_cmom.cm_ie_iez', 'srjd.cond_mom.m_x', 'srjd.cond_mom.m', 'srjd.cond_cmom.cm_x', 'srjd.cond_cmom.cm', 'srjd.cond2_mom.m',
               'srjd.cond2_cmom.cm', 'svcj.cond_mom.m_y', 'svcj.cond_cmom.cm_y', 'svcj.mom.unm_y', 'svcj.cmom.cm_y', 'svcj.ieziziz_mom.m_ieziziz',
               'svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz')], 'complete': True},
    'C19': {'modules': ['poly', 'utils_c', 'ito', 'cpp_mom', 'ito_cond', 'cond_cm', 'svcj', 'files'], 'units': [P + 'write_to_txt', P + 'write_to_csv', VV + 'cond2_cmom.write_to_subpolys',
            VV + 'cond2_cmom.classify', VV + 'cond2_cmom.simplify'], 'complete': True,
            'lemmas': ['str of a tuple of ints, strings and tuples reads back through ast.literal_eval; the csv module reads back what it writes',
                       'keys match the variable list (index tuples of lengths n and max(n-1, 0))']},
    'C20': {'modules': ['sims'], 'units': ['ajdmom.mdl_1fsv.euler.*', 'ajdmom.mdl_1fsvj.euler.*', 'ajdmom.mdl_2fsv.euler.*', 'ajdmom.mdl_2fsvj.euler.*',
            'ajdmom.mdl_svvj.euler.*', 'ajdmom.mdl_svij.euler.*', 'ajdmom.mdl_svcj.euler.*', 'ajdmom.mdl_srjd.euler.*'], 'complete': True,
            'lemmas': ['numpy draws: normal needs a scale that is not negative, Poisson counts are not negative, noncentral chi-square draws are not negative',
                       'exp is positive, below 1 for negative and above 1 for positive arguments; sqrt of a number that is not negative is not negative',
                       'finiteness over the reals (every division has a nonzero divisor, every square root an admissible argument); overflow of doubles is not modelled',
                       'axioms of the jump path: strictly increasing positive times, sizes not negative, counting function, prefix sums']},
}
