#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
S='src/ajdmom/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Polynomial arithmetic is exact ring arithmetic and leaves operands untouched",
 "For any polynomials over the same variables, addition, subtraction, multiplication, scaling by a rational constant, positive integer powers and in-place merging give exactly the polynomial that mathematics prescribes, for every variable exponent (negative ones included). Every result carries the same variable names as the operands and stores no zero coefficient, and the operands (except the target of an in-place merge) keep their contents and variable names.",
 ["inputs"],"all pairs of polynomials with equal variable lists, all rational scalars, all positive powers",
 "tests/test_poly.py checks about ten fixed two-variable polynomials; the guarantee is needed for polynomials of any size, exponent sign and cancellation pattern.",
 ["poly.py"],[("Poly.__add__/__sub__/__mul__/__rmul__/__pow__/merge","poly.py"),("add_keyval/remove_zero","poly.py")],
 state=[{"name":"data","meaning":"exponent tuple -> rational coefficient","where":S+"poly.py"},{"name":"keyfor","meaning":"variable names","where":S+"poly.py"}])
p("C02","Polynomials over different variables never mix silently",
 "Combining two polynomials whose variable lists differ (in length, name or order), or a polynomial with a non-polynomial, through addition, subtraction, multiplication or merging is refused with an error and changes neither operand, and so is a power that is not a positive integer. The explicit cross-variable product maps every variable of either factor to exactly the requested position, adds exponents of variables mapped to the same position, treats an absent variable as exponent zero, and stores no zero coefficient.",
 ["inputs"],"all pairs of polynomials with arbitrary variable lists; all index maps",
 "the unit tests try one mismatching pair and one index map.",
 ["poly.py"],[("Poly.is_exact_type","poly.py"),("Poly.mul_poly, kv","poly.py")])
p("C03","Combinatorial helpers are exact for every size",
 "The multinomial coefficient, the enumeration of all index combinations, the enumeration of all ways to split a power over several terms, the double factorial and the central moments of a normal variable equal their mathematical definitions for every admissible integer argument. The enumerations list every element exactly once and nothing else.",
 ["inputs"],"all non-negative integer arguments, all numbers of terms",
 "tests/test_utils.py samples a few small tuples.",
 ["utils.py"],[("comb, multilevel_index, multilevel_comb, dbfactorial, cmnorm","utils.py")])
p("C04","Exponential-polynomial time integrals are exact antiderivatives",
 "For every integer exponent rate (zero and negative included), every pair of rates in the two-rate case, and every non-negative power of time, the returned closed form equals the definite integral of exponential times power from the lower limit to t; in the version with jumps the lower limit is the latest of the jump times. Integrating a whole polynomial against such a weight equals the sum of the integrals of its terms, each multiplied by the requested constant and model factor.",
 ["inputs"],"all integer rates n, n1, n2 (any sign, including zero), all powers m >= 0, all polynomials",
 "tests integrate a handful of small (n, m); nothing covers negative rates, cancelling rate pairs or general polynomials.",
 ["ito_mom.py","itos_mom.py","ito_cond_mom.py","mdl_srjd/cond2_mom.py","mdl_srjd/cond_ie_iez_mom.py","mdl_svcj/cond_ieii_ieziziz_mom.py"],
 [("c_nmi, int_et, int_e_poly","ito_mom.py"),("c, int_et, int_mIEI_IEII","itos_mom.py"),("int_et_fZ, int_e_poly, int_e_IEZ_poly","ito_cond_mom.py")])
p("C05","One-factor Ito-integral joint moments are exact for every order",
 "For every triple of non-negative orders, the joint conditional moment of the exponentially weighted volatility integral, the plain volatility integral and the independent price integral, given the initial variance, equals its exact mathematical value as an identity in all symbols. Moments of every order of the stationary variance equal those of its Gamma distribution.",
 ["inputs"],"all orders (n3, n4, n5) and n; all parameter values",
 "tests compare orders up to 3 with tables; the recursion is used by every model at every higher order.",
 ["ito_mom.py"],[("recursive_IEII, moment_IEII","ito_mom.py"),("moment_v","ito_mom.py")],
 state=[{"name":"IEII","meaning":"table of lower-order moments; the two previous orders must be present","where":S+"ito_mom.py"}])
p("C06","Two-factor Ito-integral joint moments are exact for every order",
 "For every quintuple of non-negative orders, the joint conditional moment of the two exponentially weighted and two plain volatility integrals (one pair per variance factor) and the common price integral, given both initial variances, equals its exact mathematical value for all parameter values at which the closed form is defined (no resonance n1*k1 + n2*k2 = 0 among the rates that occur). The one-order and the all-lower-orders entry points agree.",
 ["inputs"],"all orders (n4..n8); all parameter values with independent factors",
 "tests cover orders up to 2 and (3,0,0,0,0) only; mixed orders of total 3 and above are never compared with a true value.",
 ["itos_mom.py"],[("recursive_IEI_IEII, moment_IEI_IEII","itos_mom.py"),("coef_poly, int_mIEI_IEII, t_mul_t0","itos_mom.py")])
p("C07","Joint moments given the variance jumps are exact for every order and jump path",
 "Given the initial variance and any finite set of variance-jump times and sizes, the joint moment of every order of the two volatility integrals and the price integral equals its exact mathematical value. The nested sums over jumps that occur in the formulas are evaluated exactly, with running latest jump times, for any number of jumps including none.",
 ["inputs","histories"],"all orders; all jump histories (number, times, sizes)",
 "tests compare formula tables up to order 3 only, and the end-to-end ones need Monte Carlo with 10% tolerance (those for order >= 4 fail on the released code).",
 ["ito_cond_mom.py","utils.py"],[("recursive_IEII, moment_IEII, int_e_IEZ_poly","ito_cond_mom.py"),("fZ, fZ_each_index","utils.py")])
p("C08","Compound-Poisson and normal jump moments are exact for every order",
 "For every order, the raw and central moments of a compound Poisson sum of independent normal jumps over an interval, and the raw moments of a normal variable, equal those of the distribution as identities in intensity, interval length, jump mean and jump standard deviation. Order zero gives one, and negative orders are refused.",
 ["inputs"],"all orders n >= 0; all parameter values",
 "tests tabulate orders up to 5 or so.",
 ["cpp_mom.py"],[("dmgf, mnorm, dmgf_cpp, decode, mcpp, cmcpp","cpp_mom.py")])
p("C09","Heston-model moments and central moments are exact for every order",
 "For the one-factor stochastic volatility model with stationary variance, the moment and the central moment of every order of the return over an interval, and the conditional central moments given the initial variance, equal their exact values as identities in all model parameters. Order zero gives one and central order one gives zero.",
 ["inputs"],"all orders n; all parameter values",
 "tests compare a few low orders with Monte-Carlo samples or tables.",
 ["mdl_1fsv/mom.py","mdl_1fsv/cmom.py","mdl_1fsv/cond_cmom.py"],
 [("b_n, moment_comb, sub_v, moment_y","mdl_1fsv/mom.py"),("b_n, ve_IEII, moment_comb, sub_v, cmoment_y","mdl_1fsv/cmom.py"),("cmoments_y_to, recursive_IEII","mdl_1fsv/cond_cmom.py")])
p("C10","Return autocovariances are exact for every pair of orders in every model",
 "For the one- and two-factor stochastic volatility models, with and without price jumps, the covariance between powers of two successive interval returns equals its exact value for every pair of positive orders, as an identity in all model parameters (for two factors: wherever no resonance n1*k1 + n2*k2 = 0 makes the closed form undefined).",
 ["inputs"],"all order pairs (l1, l2); four models; all parameter values",
 "tests check (1,1),(1,2),(2,1),(2,2) for some models against samples; the two-factor tests are never run in the stable suite.",
 ["mdl_1fsv/cov.py","mdl_1fsvj/cov.py","mdl_2fsv/cov.py","mdl_2fsvj/cov.py"],
 [("moment_inner_comb, moment_outer_comb, moment_yy, cov_yy","mdl_1fsv/cov.py"),("moment_yy, cov_yy","mdl_1fsvj/cov.py"),("moment_yy, cov_yy","mdl_2fsv/cov.py"),("cov_yy","mdl_2fsvj/cov.py")])
p("C11","Independent price jumps extend diffusion moments by exact convolution",
 "For the one- and two-factor models with an independent compound Poisson jump in the price, the moment and central moment of every order equal the exact values of the sum of the jump-free return and the jump sum, as identities in all parameters; with zero jump intensity they reduce to those of the jump-free model (for two factors: wherever no resonance n1*k1 + n2*k2 = 0 makes the closed form undefined).",
 ["inputs","configurations"],"all orders; both models; all parameter values including zero intensity",
 "low orders only, against samples.",
 ["mdl_1fsvj/mom.py","mdl_1fsvj/cmom.py","mdl_2fsvj/mom.py","mdl_2fsvj/cmom.py"],
 [("moment_y, cmoment_y via mul_poly","mdl_1fsvj/mom.py")])
p("C12","Two-factor model moments and central moments are exact for every order",
 "For the two-factor stochastic volatility model with independent stationary variance factors, the moment and the central moment of every order of the interval return equal their exact values for all parameter values without a resonance n1*k1 + n2*k2 = 0 among the rates that occur; exchanging the two factors' parameters does not change any of them.",
 ["inputs"],"all orders; all parameter values",
 "tests/test_mdl_2fsv.py is not part of the stable suite, so nothing settles any order today.",
 ["mdl_2fsv/mom.py","mdl_2fsv/cmom.py"],[("b_n, moment_comb, sub_v, moment_y","mdl_2fsv/mom.py"),("b_n, vvee_IEI_IEII, moment_comb, cmoment_y","mdl_2fsv/cmom.py")])
p("C13","Square-root jump-diffusion moments are exact for every order",
 "For the square-root process with exponentially distributed compound Poisson jumps, the moments and central moments of every order of the process, conditional on its initial value, conditional in addition on the jump path, or under stationarity, and the joint moments of its volatility and jump integrals, equal their exact values as identities in all parameters.",
 ["inputs","histories"],"all orders; all parameter values; all jump histories",
 "tests compare a few orders with simulation and one identity.",
 ["mdl_srjd/mom.py","mdl_srjd/cmom.py","mdl_srjd/cond_mom.py","mdl_srjd/cond_cmom.py","mdl_srjd/cond2_mom.py","mdl_srjd/cond2_cmom.py","mdl_srjd/iez_mom.py","mdl_srjd/iez_cmom.py","mdl_srjd/cond_ie_iez_mom.py","mdl_srjd/cond_ie_iez_cmom.py"],
 [("moment_v, solve_polynomial, last_expectation","mdl_srjd/cmom.py"),("recursive_ie_iez","mdl_srjd/cond_ie_iez_mom.py"),("moment_IE, moment_v","mdl_srjd/cond2_mom.py")])
p("C14","Return moments given the variance-jump path are exact for every order",
 "For the models with jumps in the variance (alone, with independent price jumps, or with simultaneous correlated price jumps), the moment and central moment of every positive order of the return, given the initial variance and any finite variance-jump path, equal their exact values for all parameter values. With an empty jump path and no price jumps they coincide with the model without jumps.",
 ["inputs","histories"],"all orders; all jump histories (any number of jumps, sizes, ordered times); all parameters",
 "tests use Monte Carlo with 10% tolerance at one parameter set; the higher-order ones fail on the released code and are excluded.",
 ["mdl_svvj/cond2_mom.py","mdl_svvj/cond2_cmom.py","mdl_svij/cond2_mom.py","mdl_svij/cond2_cmom.py","mdl_svcj/cond2_mom.py","mdl_svcj/cond2_cmom.py"],
 [("cmoments_y_to","mdl_svvj/cond2_cmom.py"),("moment_comb, moments_y_to","mdl_svvj/cond2_mom.py"),("moment_IZs, mnorm_cond, comb_poly","mdl_svcj/cond2_mom.py"),("cmoment_IZs","mdl_svcj/cond2_cmom.py")])
p("C15","Contemporaneous-jump model moments are exact for every order",
 "For the model with contemporaneous jumps in price and variance, the moment and the central moment of every order of the return, given the initial variance or under stationarity, equal their exact values as identities in all parameters, and so do the joint moments of the three jump integrals over any sub-interval.",
 ["inputs"],"all orders; all parameter values; all sub-intervals",
 "tests only exercise the versions conditional on the jump path; the unconditional modules have no test at all.",
 ["mdl_svcj/mom.py","mdl_svcj/cmom.py","mdl_svcj/cond_mom.py","mdl_svcj/cond_cmom.py","mdl_svcj/cond_ieii_ieziziz_mom.py","mdl_svcj/ieziziz_mom.py"],
 [("moment_ieii_ieziziz","mdl_svcj/cond_ieii_ieziziz_mom.py"),("moment_ieziziz","mdl_svcj/ieziziz_mom.py"),("b_n, expand_sqrt, moment_y","mdl_svcj/cond_mom.py"),("moment_y","mdl_svcj/mom.py")])
p("C16","Partial derivatives of moments and covariances are exact",
 "For every moment, central-moment or covariance formula of the four models that offer derivatives, and for every model parameter, the derivative formula (or number) equals the true partial derivative of that formula with respect to that parameter, whatever its order. An unknown parameter name is refused.",
 ["inputs"],"all formulas (any exponents), all parameters, four models",
 "tests differentiate one or two low-order formulas with respect to some parameters.",
 ["mdl_1fsv/cmom.py","mdl_1fsv/cov.py","mdl_1fsvj/cmom.py","mdl_1fsvj/cov.py","mdl_2fsv/cmom.py","mdl_2fsv/cov.py","mdl_2fsvj/cmom.py","mdl_2fsvj/cov.py"],
 [("dpoly","mdl_1fsv/cmom.py"),("dpoly","mdl_1fsvj/cmom.py"),("dt0, dpoly","mdl_2fsv/cmom.py"),("dpoly","mdl_2fsvj/cmom.py"),("dcm, dm, dcov","mdl_1fsv/cov.py")])
p("C17","Numeric values equal the formulas evaluated at the parameters",
 "In every model, the number returned for a moment, central moment, covariance or derivative is the value of the corresponding symbolic formula with each named variable replaced by the value the parameters give it, for any formula over those variables and any admissible parameters. Evaluating never alters the formula or the parameters.",
 ["inputs"],"all formulas over each model's variables; all parameter values",
 "tests evaluate a few formulas at one parameter set, compared loosely with samples.",
 ["mdl_1fsv/cmom.py","mdl_1fsv/mom.py","mdl_1fsv/cond_cmom.py","mdl_1fsvj/cmom.py","mdl_2fsv/cmom.py","mdl_2fsvj/cmom.py","mdl_srjd/cond2_mom.py","mdl_srjd/cond_ie_iez_mom.py","mdl_srjd/iez_mom.py","mdl_svvj/cond2_mom.py","mdl_svvj/cond2_cmom.py","mdl_svij/cond2_mom.py","mdl_svij/cond2_cmom.py","mdl_svcj/cond2_mom.py","mdl_svcj/cond2_cmom.py","mdl_svcj/mom.py","mdl_svcj/cond_mom.py","mdl_svcj/ieziziz_mom.py"],
 [("poly2num and the scalar entry points of each module","mdl_1fsv/cmom.py")])
p("C18","Re-expressing a formula in other variables preserves its value",
 "Every conversion of a formula between variable sets (eliminating the square root of one minus squared correlation, replacing composite variables by the original parameters, switching the sign convention of the exponential, embedding into a larger variable list, splitting into parts) yields a formula with the same value for every parameter choice. No term is lost or counted twice.",
 ["inputs"],"all formulas over the source variables (any exponents the variables admit)",
 "tests print or compare one or two simplified formulas.",
 ["utils.py","mdl_1fsv/cond_cmom.py","mdl_svvj/cond2_cmom.py","mdl_svcj/cond_mom.py","mdl_svcj/cmom.py","mdl_svcj/cond_ieii_ieziziz_mom.py","mdl_srjd/mom.py"],
 [("simplify_rho","utils.py"),("simplify","mdl_1fsv/cond_cmom.py"),("simplify, classify","mdl_svvj/cond2_cmom.py"),("enlarge, expand_sqrt","mdl_svcj/cond_mom.py"),("expand_ieziziz","mdl_svcj/cond_ieii_ieziziz_mom.py")])
p("C19","Exported formula files reproduce the formula exactly",
 "Writing any formula to a text or CSV file and reading the file back according to its header recovers exactly the same variables, terms and rational coefficients, each term appearing once. The requested file name is used, with the extension appended only when missing, and the formula itself is unchanged.",
 ["inputs"],"all formulas (including those with variable-length jump indexes), all file names",
 "tests never read a written file back.",
 ["poly.py"],[("write_to_txt, write_to_csv","poly.py")],observe=["the written file"])
p("C20","Simulators stay in the admissible domain and return complete samples",
 "For all admissible parameters, segment counts and random draws, the Euler simulators never take the square root of a negative variance, return exactly the requested number of finite samples, and apply every variance or price jump falling in the simulated window exactly once.",
 ["inputs","histories"],"all admissible parameters, all numbers of samples and segments, all sequences of random draws, all jump paths with distinct ordered positive times",
 "tests look at sample means of default-seeded runs; they cannot reach particular draws (large negative shocks, jumps on segment borders).",
 ["mdl_1fsv/euler.py","mdl_1fsvj/euler.py","mdl_2fsv/euler.py","mdl_2fsvj/euler.py","mdl_srjd/euler.py","mdl_svvj/euler.py","mdl_svij/euler.py","mdl_svcj/euler.py"],
 [("r1FSV, r1FSV_iid","mdl_1fsv/euler.py"),("r2FSV","mdl_2fsv/euler.py"),("rSRD, rSRJD","mdl_srjd/euler.py"),("incIEII, rIEII, rSVVJ, IZ, IEZ","mdl_svvj/euler.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
