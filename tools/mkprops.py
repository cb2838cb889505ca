"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/finoptions/"
V, B, AM, BT, S3, SA, HN, MC = (SRC + x for x in (
    "vanillaoptions.py", "base.py", "basic_american_options/__init__.py", "binomial_tree_options/__init__.py",
    "spread_options/bitree3d.py", "spread_options/spreadapprox.py", "heston_nandi_options/__init__.py",
    "monte_carlo_options/__init__.py"))
MI, MP, MY = (SRC + "monte_carlo_options/mc_%s.py" % x for x in ("innovations", "paths", "payoffs"))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [],
                               hook_needed=None), _note=note))


prop("C01", "European prices equal the generalized Black-Scholes formula",
     "For every spot, strike, maturity, rate, cost of carry and volatility, the call and put prices of the generalized Black-Scholes and Black-Scholes options are exactly S*e^((b-r)t)*N(d1) - K*e^(-rt)*N(d2) and K*e^(-rt)*N(-d2) - S*e^((b-r)t)*N(-d1), and Black-76 is the same with zero cost of carry. "
     "Put-call parity C - P = S*e^((b-r)t) - K*e^(-rt) holds, and the price does not depend on how the object was constructed (positional, keyword).",
     ["inputs"], "all S, K, t, sigma > 0, all real r and b; call and put; GBS, Black-Scholes, Black-76",
     "The tests compare a few textbook inputs; a term that vanishes or cancels at those inputs (b = r, b = 0, t = 1) is invisible to them.",
     [V], [("d1, d2", V + ":GBSOption.__init__"), ("closed form", V + ":GBSOption.call/put"), ("zero carry", V + ":Black76Option.__init__")],
     "All reals (no sampling): polynomial identity after exact normalisation of exp/log/sqrt, N uninterpreted with N(-x) = 1 - N(x).",
     ["call()", "put()"])
prop("C02", "Analytic greeks are the exact derivatives of the reported price",
     "For the generalized Black-Scholes, Black-Scholes and Black-76 options, delta, gamma, vega, theta (negative time derivative), lambda (delta*S/price), cost-of-carry sensitivity and rho are exactly the partial derivatives of the price the same object reports; rho moves b together with r when b is non-zero and holds b at zero otherwise. "
     "The greeks dictionary, the individual methods and the explicit 'analytic' method give the same values, put greeks follow from call greeks by parity, call delta lies in [0, e^((b-r)t)] and gamma and vega are not negative.",
     ["inputs"], "all S, K, t, sigma > 0, all real r, b; call and put; every access path (greeks(), method, method='analytic')",
     "Tests compare single values with small tolerances; sign or term errors that need b < 0, b = 0, put side or a particular access path are not reached.",
     [V], [("analytic greeks", V + ":GBSOption.delta/theta/vega/rho/lamb/gamma/c_of_c"), ("dictionary", V + ":GBSOption.greeks")],
     "Exact over all reals; the price is differentiated symbolically (N' = density) and compared with the returned greek.", ["greeks()", "delta()"])
prop("C03", "Finite-difference greeks differentiate the right price in the right parameter",
     "For every option class and both call and put, each numerical greek is the derivative of that same option's own price with respect to the named parameter, all other parameters fixed: delta and gamma first and second order in the underlying(s), vega in each volatility (vega and gamma, which take no side, of the call), rho in r, theta minus the derivative in t with a step of at most one trading day, and lambda is delta times underlying over price. "
     "Two-asset options report per-asset dictionaries and the Miltersen-Schwartz vega covers the spot, convenience-yield and forward-rate volatilities in that order.",
     ["inputs", "configurations"], "every class with numerical greeks, call and put, all inputs and any smooth price function",
     "Tests check a few numbers per class; differentiating the wrong side, parameter, order or sign in a rarely combined class/greek pair is not sampled.",
     [B, V, AM, BT, S3, SA], [("bump on a copy", B + ":GreeksFDM._make_partial_der"), ("greeks", B + ":GreeksFDM"),
      ("per-asset greeks", S3 + ":BionomialSpreadAllTypes.delta/vega/gamma"), ("dict prices", AM + ":BSAmericanApproxOption._make_partial_der")],
     "numdifftools is replaced by the exact derivative of the function it is given (its accuracy is trusted, its steps are recorded); prices of the heavy classes are arbitrary functions of the parameters.", ["greeks()"])
prop("C04", "Changing a parameter is the same as constructing the option afresh",
     "After any sequence of parameter changes, an option reports exactly the parameters and prices (and derived quantities) of a freshly constructed option with those parameters, for every option class and every parameter, including setting a volatility that was left undefined. "
     "A copy shares nothing with the original: changing either leaves the other's parameters and prices unchanged.",
     ["inputs", "histories"], "every class, every parameter, all values, sequences of changes with copies in between",
     "Tests change one parameter in a couple of classes; stale cached quantities appear only for particular parameter/class pairs or after several changes.",
     [B, V, AM, BT, S3, SA], [("re-initialise from parameters", B + ":Option.set_param"), ("Black-76 override", V + ":Black76Option.set_param"), ("deep copy", B + ":Derivative.copy"), ("get_params per class", V + "," + AM + "," + BT + "," + S3 + "," + SA)],
     "Bounded to sequences of at most three operations (change, change, copy); all values symbolic; lattices at n <= 2.", ["set_param()", "get_params()", "copy()", "call()"])
prop("C05", "Pricing is pure: no call changes the option, its inputs or another option",
     "Calling any pricing, greek, volatility, summary or parameter method, in any order and any number of times, leaves the option's parameters and subsequent prices unchanged, and never affects another instance of the same or another class. "
     "Array arguments passed by the caller are not modified.",
     ["inputs", "histories"], "every class, all inputs, histories interleaving every public method with other instances, defaults shared between instances",
     "Tests call each method once on a fresh object; leakage through shared or cached state shows only in longer histories.",
     [B, V, AM, BT, S3, SA, MC], [("instance state only", B + ":Option.__init__"), ("work on copies", B + ":GreeksFDM._make_partial_der"), ("tree arrays local", BT + ":CRRBinomialTreeOption._euro/_amer")],
     "Histories: every public method once between two pricings plus repeats and interleaved instances; values symbolic; lattices n <= 2.", ["call()", "get_params()"])
prop("C06", "Array inputs give, element by element, the scalar results",
     "Wherever arrays are accepted (generalized Black-Scholes, Black-Scholes, Black-76, Miltersen-Schwartz, Kirk spread approximation), passing one or several parameters as arrays returns an array whose i-th element is exactly the result for the i-th scalar inputs, for prices, every analytic and numerical greek, and any mixture of array and scalar arguments. "
     "That includes arrays whose elements take different branches, such as a cost of carry that is zero in some elements.",
     ["inputs"], "arrays of length up to 3 in every parameter position, symbolic elements, including zero and non-zero carry in one array",
     "Tests use one or two arrays in typical positions; mixtures of branches within one array and arrays in unusual positions are not tried.",
     [V, SA, B], [("numpy element-wise code", V + ":GBSOption"), ("rho branches", V + ":GBSOption.rho"), ("vega transpose", V + ":MiltersenSchwartzOption.vega")],
     "Array length bounded by 3 (elements are independent in the code); elements are arbitrary reals.", ["call()", "greeks()"])
prop("C07", "The normal distribution functions are accurate, symmetric and monotone",
     "The univariate normal distribution function used for pricing differs from the true one by less than 7.5e-8 for every real argument, is exactly 1/2 at zero, satisfies N(x) + N(-x) = 1, stays in [0, 1], does not decrease, and the density is the exact normal density. "
     "The bivariate function is defined for every pair of arguments and every correlation, is symmetric in its two arguments, obeys the reflection identity N2(a,b,rho) = N(a) - N2(a,-b,-rho) off the borders between its quadrant cases, and equals Drezner's quadrature in the base quadrant.",
     ["inputs"], "all real x; for the bivariate function all real a, b and -1 < rho < 1 (limits +-1 separately)",
     "Tests evaluate a handful of points; the approximation must hold on the whole line and the quadrant reductions on all sign combinations.",
     [B], [("polynomial approximation", B + ":_Base._CND"), ("density", B + ":_Base._NDF"), ("Drezner quadrature and quadrant reductions", B + ":_Base._CBND")],
     "Error bound by certified Taylor enclosures on pieces of [0, 6.5] plus tail bounds, each decided by the solver for the coefficients read from the code; monotonicity via the sign of the derivative.", ["_CND", "_CBND"])
prop("C08", "European lattice prices are the discounted risk-neutral expectation",
     "With n steps, the CRR, Jarrow-Rudd, Tian and trinomial European prices are exactly e^(-rt) times the expected payoff over the tree's terminal nodes with its up/down(/middle) factors and probabilities, which sum to one and, except for Jarrow-Rudd, make the expected growth per step exactly e^(b dt). "
     "Hence lattice call minus put is S*e^((b-r)t) - K*e^(-rt) (for Jarrow-Rudd, S times its own growth factor), for every n.",
     ["inputs"], "all S, K, t, sigma > 0, r, b real; every n up to the bound, call and put",
     "Tests compare single prices for one n; off-by-one in node indices, probabilities or factors at other n or parameter regions is not seen.",
     [BT], [("step factors", BT + ":*._calc_price"), ("backward induction", BT + ":CRRBinomialTreeOption._euro, TrinomialTreeOption._euro")],
     "n bounded (quick 4, thorough 6): the whole expectation is compared symbolically, payoff max case-free.", ["call()", "put()"])
prop("C09", "American lattice values follow the optimal exercise recursion",
     "At every node of a CRR, Jarrow-Rudd, Tian or trinomial American tree the value is the larger of immediate exercise at that node's asset price and the discounted expected continuation value. "
     "Hence the American price is at least intrinsic value and, when step probabilities lie in [0, 1], at least the European price; an American call on the CRR, Tian and trinomial trees then equals the European one when b >= r >= 0.",
     ["inputs"], "all inputs, call and put, every node for n up to the bound",
     "Tests check single prices for n = 5; a wrong node price or missing exercise at one node changes few inputs' results.",
     [BT], [("exercise comparison", BT + ":CRRBinomialTreeOption._amer, TrinomialTreeOption._amer")],
     "n bounded (quick 3, thorough 4-5); values of the children are cut to arbitrary reals node by node.", ["call()", "put()", "call(tree=True)"])
prop("C10", "Returned trees show each node's value in its documented place",
     "With tree=True the binomial trees return an (n+1)x(n+1) array whose column k holds the values after k steps ordered from the top (all ups) downward with zeros below, and the trinomial tree a (2n+1)x(n+1) array centred on the middle row. "
     "The root entry equals the price returned without tree=True, the last column is the payoff at the terminal nodes, and every entry satisfies the backward recursion, for both exercise styles, call and put.",
     ["inputs"], "all inputs, every n up to the bound, all four lattices, both styles",
     "Tests compare one printed tree; misplaced entries at other n or values merely swapped in symmetric trees are not noticed.",
     [BT], [("tree assembly", BT + ":CRRBinomialTreeOption._euro/_amer"), ("centred layout", BT + ":TrinomialTreeOption._reshape")],
     "n <= 4 (quick), 5 (thorough).", ["call(tree=True)", "put(tree=True)"])
prop("C11", "Two-asset lattice prices implement every documented payoff and both styles",
     "The two-asset binomial lattice price is the discounted risk-neutral expectation (or the optimal exercise recursion for American style) of the documented payoff for each of the nine option types, call and put, on nodes with the stated drifts, volatilities and correlation. "
     "The dedicated spread, maximum and minimum classes equal the general class with the corresponding option type, max plus min equals the sum of the two single-asset options, and European parity holds for the spread.",
     ["inputs", "configurations"], "all inputs including weights Q1, Q2, second strike and correlation in (-1, 1); all nine payoffs, call and put, both styles, n up to the bound",
     "Tests price a few option types for one input, often with weights 1; swapped assets, dropped weights or a wrong put side are invisible there.",
     [S3], [("payoffs", S3 + ":BionomialSpreadAllTypes._payoff"), ("lattice", S3 + ":BionomialSpreadAllTypes._calc_price"), ("dedicated classes", S3 + ":BionomialMaxOption/BionomialMinOption/BionomialSpreadOption")],
     "n <= 2 (quick), 3 (thorough).", ["call()", "put()"])
prop("C12", "The spread approximation is Kirk's formula with exact limits and parity",
     "The spread approximation equals Kirk's formula in all parameters including weights, and call minus put is Q1*S1*e^((b1-r)t) - Q2*S2*e^((b2-r)t) - K*e^(-rt) exactly. "
     "With zero strike it is Margrabe's exchange formula, and when the second leg vanishes it is the generalized Black-Scholes price of the first leg.",
     ["inputs"], "all positive prices, strikes (including 0), weights (including Q2 -> 0), maturities, volatilities; all rates; correlation in (-1, 1)",
     "Tests check one published table with unit weights.",
     [SA], [("composite asset, F and volatility", SA + ":SpreadApproxOption.__init__"), ("price", SA + ":SpreadApproxOption.call/put")],
     "Exact over all reals.", ["call()", "put()"])
prop("C13", "The Miltersen-Schwartz price uses the integrated variances of its factors",
     "The option price is Pt*(FT*e^(-vxz)*N(d1) - K*N(d2)) where the variance and covariance are the exact time integrals of the futures price volatility (spot, convenience-yield and forward-rate components with mean reversion) and of its product with the bond volatility, and the put follows by parity. "
     "It depends on each volatility, correlation and mean-reversion speed only through those integrals.",
     ["inputs"], "all volatilities, correlations, positive mean-reversion speeds, 0 < t <= T",
     "The one published example fixes all thirteen inputs; a wrong sign or exponent in a cross term changes it little or not at all when that correlation is near zero.",
     [V], [("integrated variances", V + ":MiltersenSchwartzOption.__init__"), ("price", V + ":MiltersenSchwartzOption.call/put")],
     "The integrals are derived independently by symbolic integration and compared for all reals.", ["call()", "put()"])
prop("C14", "The Barone-Adesi-Whaley price follows its definition on both sides",
     "The American approximation equals the European call when b >= r, equals intrinsic value at or beyond the critical price, and otherwise the European price plus the quadratic-approximation premium, which is not negative where b <= r, for call and put. "
     "The critical price used satisfies the value-matching equation to within one millionth of the strike.",
     ["inputs"], "all S, K, t, sigma > 0, r > 0, all b; Newton iterations up to the bound",
     "Tests sample the published table; the boundary, the b >= r switch and the put's critical price equation for other inputs are not reached.",
     [AM], [("critical prices by Newton iteration", AM + ":BAWAmericanApproxOption._bawKc/_bawKp"), ("price", AM + ":BAWAmericanApproxOption.call/put")],
     "The price pieces hold for every critical price value (arbitrary symbol); the iteration is unrolled a bounded number of times.", ["call()", "put()"])
prop("C15", "The Bjerksund-Stensland price and trigger follow the 1993 formulas",
     "The American call approximation equals the European price when b >= r (with no trigger), intrinsic value at or above the trigger price, and otherwise the published formula; the reported trigger is the published flat boundary. "
     "The put is the call with spot and strike exchanged, r replaced by r - b and b by -b, including its trigger.",
     ["inputs"], "all S, K, t, sigma > 0, r > 0, all b",
     "Tests compare a few prices; the trigger, the branch at the boundary and the put transformation elsewhere are not constrained.",
     [AM], [("price and trigger", AM + ":BSAmericanApproxOption._BSAmericanCallApprox"), ("phi", AM + ":BSAmericanApproxOption._bsPhi"), ("put transformation", AM + ":BSAmericanApproxOption.put")],
     "Exact over all reals (b < r, b >= r and both sides of the trigger are separate paths).", ["call()", "put()"])
prop("C16", "The Roll-Geske-Whaley price follows its definition in every regime",
     "A call on a stock with one known dividend is the European price on the dividend-stripped spot whenever early exercise can never be optimal (D <= K(1 - e^(-r(t-td)))), and otherwise the Roll-Geske-Whaley formula evaluated at the ex-dividend price at which exercise and holding are equally good, found to 1e-5; when that price is out of reach (above 1e8) the price is the European one. "
     "The optimal-exercise indicator agrees with the regime used.",
     ["inputs"], "all S, K, sigma > 0, 0 < td < t, r real, 0 < D < K; bounded bisection steps",
     "Tests price one example; the regime switch, the bracketing of the critical price and the exact roles of t, td and t - td elsewhere are not constrained.",
     [AM], [("regime test and bisection", AM + ":RollGeskeWhaleyOption.call"), ("indicator", AM + ":RollGeskeWhaleyOption.is_call_optimal")],
     "Bisection unrolled to a bounded number of steps; bivariate normal and (in the search) the auxiliary European price uninterpreted.", ["call()", "is_call_optimal()"])
prop("C17", "Implied volatility reprices the option exactly on the requested side",
     "The implied volatility of every class that offers it is a root of (given price - the option's own call or put price as a function of volatility alone), for call and put, scalars and arrays, with the caller's tolerance and iteration limit honoured and the whole range of volatilities from 1% to 500% within the search bracket. "
     "The option itself is left unchanged, also if it had no volatility, and verbose mode returns the full solver result.",
     ["inputs"], "all inputs and prices, call and put, scalar and array, verbose or not",
     "Tests invert a few prices; searching with the wrong side, stale parameters or a bracket that misses some volatilities is input-dependent.",
     [B, V, AM], [("objective and bracket", B + ":Option._volatility"), ("public wrappers", V + ":GBSOption.volatility, " + AM + ":RollGeskeWhaleyOption.volatility")],
     "The root finder is replaced by 'some x in the bracket with f(x) = 0' (its convergence is trusted).", ["volatility()"])
prop("C18", "Heston-Nandi prices and greeks come from one characteristic function",
     "The Heston-Nandi call is the Fourier inversion of the documented GARCH characteristic function recursion over the given number of days, starting from the stationary variance, and the put obeys parity. "
     "Delta and gamma are the first and second derivatives of that price in the spot, put delta is call delta minus one.",
     ["inputs"], "all S, K > 0, r, lambda, omega, alpha, beta, gamma; maturities up to the bound in days",
     "The test checks one parameter set; a recursion error that vanishes there, or wrong derivative factors, are not seen.",
     [HN], [("characteristic function", HN + ":_fHN"), ("price and greeks", HN + ":HestonNandiOption.call/put/delta/gamma"), ("derivative integrands", HN + ":_fdeltaHN/_fgammaHN")],
     "Days bounded (quick 3, thorough 6); the integral is kept symbolic and the integrands are compared; quadrature accuracy is trusted.", ["call()", "put()", "delta()", "gamma()"])
prop("C19", "GARCH filtering inverts simulation, and symmetric fits ignore gamma",
     "Filtering a simulated Heston-Nandi path with the parameters that generated it returns exactly the innovations and variances used, and the reported negative log-likelihood is the Gaussian one. "
     "Symmetric fits do not depend on gamma and report it as zero, asymmetric ones do; fitted parameters are back-transformed into (0,1) with consistent persistence and variance, the burn-in is dropped, and no input series is modified.",
     ["inputs", "configurations"], "all parameters with positive stationary variance, all innovation sequences up to the bound, symmetric and not",
     "The tests fit one data set; filter errors are absorbed by the optimiser and only change fitted numbers slightly.",
     [HN], [("filter and likelihood", HN + ":_llhHNGarch"), ("simulation", HN + ":hngarch_sim"), ("fit", HN + ":hngarch_fit")],
     "Series length <= 4 (quick), 6 (thorough); the optimiser is replaced by 'returns some parameter vector'.", ["hngarch_sim()", "hngarch_fit()"])
prop("C20", "Monte Carlo paths and payoffs follow their definitions",
     "A Wiener path has increments (b - sigma^2/2) dt + sigma sqrt(dt) eps elementwise, the plain vanilla payoff is the discounted positive part of terminal price minus strike (or reverse), and the arithmetic Asian payoff that of the average of the path's prices, one value per path. "
     "Call minus put payoff is the discounted average (or terminal) price minus strike on every path.",
     ["inputs"], "all innovations, all parameters, path counts and lengths up to the bound",
     "Tests compare a single seeded average; axis, discounting or drift errors of small size stay within Monte Carlo noise.",
     [MP, MY], [("path", MP + ":WienerPath.generate_path"), ("payoffs", MY + ":PlainVanillaPayoff, ArithmeticAsianPayoff")],
     "Up to 3 paths by 3 steps with arbitrary innovations.", ["generate_path()", "call()", "put()"])
prop("C21", "The Monte Carlo engine averages the right payoffs over the right innovations",
     "Each loop draws fresh innovations of the requested shape, mirrors them when antithetic variates are requested, standardises them to zero mean and unit variance when requested, and records the mean payoff of the requested side; the result has one entry per loop. "
     "The trace prints the running mean of the loops so far, and Sobol innovations are always finite normal quantiles with exactly the requested number of paths and dimensions, scrambled or not.",
     ["inputs", "configurations", "fault_sequences"], "all innovations, all option flags, user-supplied path/payoff/innovation classes, Sobol points including 0 and 1",
     "Tests use seeded draws with loose tolerances; a stale draw, wrong mirror or missed infinite quantile rarely moves the mean.",
     [MC, MI], [("loop", MC + ":MonteCarloOption._sim_mc"), ("trace", MC + ":MonteCarloOption._print_trace"), ("Sobol", MI + ":NormalSobolInnovations")],
     "Up to 3 loops of 2-3 paths by 2 steps; Sobol generator replaced by arbitrary points in [0,1).", ["call()", "put()"])
prop("C22", "Prices are homogeneous and depend on time and rates only as products",
     "For every model, multiplying all monetary inputs (prices, strikes, dividends) by a positive constant multiplies call and put prices by the same constant (ratio and product payoffs by their own degree) and leaves deltas unchanged. "
     "For the models driven by constant rates and volatilities, multiplying all times by a constant and dividing rates, carries and squared volatilities by it leaves every price unchanged.",
     ["inputs"], "all inputs and all positive scale factors; every pricing class",
     "Tests never compare two related inputs; absolute constants, tolerances or units leaking into a formula break this only away from the tested scale.",
     [V, AM, BT, S3, SA, HN], [("closed forms", V), ("lattices", BT + "," + S3), ("approximations", AM + "," + SA)],
     "Closed forms in full; one-asset lattices n <= 3, two-asset n <= 2; Barone-Adesi-Whaley critical price up to one Newton step; Roll-Geske-Whaley at an arbitrary critical price.", ["call()", "put()"])
prop("C23", "Printed reports and repr state the option's true parameters and prices",
     "repr() starts with the declared name of the model, summary() with its title, and both list every parameter with its current value in constructor order, the summary adds the call and put prices rounded to six digits (arrays: two) when they can be computed, and summary(printer=False) returns exactly what summary() prints. "
     "Binomial and spread reports label the exercise style in use; the Bjerksund-Stensland report includes the trigger and the Roll-Geske-Whaley one the exercise indicator.",
     ["inputs", "configurations"], "every class, all parameter values, volatility defined or not",
     "Tests only check that a report can be produced, or compare one string.",
     [B, AM, BT, S3], [("summary/repr", B + ":Option.summary/__repr__"), ("overrides", AM + "," + BT + "," + S3)],
     "Parameter values are symbols that must appear at their place in the text; lattices n <= 2.", ["summary()", "repr()"])
prop("C24", "Invalid requests are refused instead of priced",
     "A European option without volatility refuses pricing and every greek, the American approximations refuse array arguments, lattices refuse unknown exercise styles, two-asset lattices refuse unknown option types, and finite-difference rho is refused when the cost of carry is not zero. "
     "Valid requests next to these limits are not refused.",
     ["inputs", "configurations"], "every class, every method, any unknown style string or type number, arrays in any argument position",
     "Tests check one or two refusals; the guard must sit on every method and argument.",
     [V, AM, BT, S3], [("volatility guard", V + ":GBSOption._check_sigma"), ("array guard", B + ":Option._check_array"), ("style and type", BT + ":*._calc_price, " + S3 + ":_calc_price/_payoff")],
     "Unknown styles are an arbitrary symbolic string, option numbers an arbitrary symbolic integer outside 1..9.", ["call()", "greeks()"])
prop("C25", "Tree plots draw and label every node with its own value",
     "Plotting a binomial or trinomial tree marks each node exactly at its step and level, connects it to its successors and annotates it with that node's value rounded to the requested digits, each node being labelled with the value the tree holds for it. "
     "The call flag selects which tree is drawn, and offsets, font size and figure options are passed through.",
     ["inputs", "configurations"], "all inputs, n up to the bound, call and put, all four lattices, any dx, dy, size, digits",
     "The tests only check that a figure is returned.",
     [BT], [("binomial plot", BT + ":BiTreePlotter"), ("trinomial plot", BT + ":TriTreePlotter"), ("entry", BT + ":CRRBinomialTreeOption.plot, TrinomialTreeOption.plot")],
     "n <= 4; matplotlib replaced by a recorder of the calls.", ["plot()"])

TECH = {}
NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA or not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
            continue
        checks.append(dict(property=i, quick_cmd=f"python3-vt symfin/run.py {i} quick", thorough_cmd=f"python3-vt symfin/run.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH.get(i, "symbolic execution of the real Python code, claims decided by SMT (z3, cvc5)"),
                           level="model_checking",
                           level_note=p["_note"] + " Real arithmetic instead of floating point; the stand-ins for numpy and scipy in symfin/shims.py are trusted and validated on replayed runs of the real code."))
    m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, numpy, scipy'", checks=checks, not_applicable=na,
             notes="One command per property; counterexamples are replayed on the real code under /opt/venv/bin/python. known_findings.json lists the repaired defects.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
