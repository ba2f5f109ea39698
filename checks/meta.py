"""Texts of the properties: properties.jsonl, MANIFEST.json and the evidence explanations are generated from here
(python3 tools/gen_meta.py)."""
PE = 'frm/pricing_engine/'
ABS = ('interprocedural abstract interpretation of the syntax trees into gated algebraic normal forms (global value numbering), '
       'compared with the reference form; no execution, no path enumeration, no solver')
PROPS = []
EXPLANATIONS = {}
NOT_APPLICABLE = []


def prop(pid, title, statement, text, why, files, mech, technique, note, expl, over=('inputs',)):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, title=title, statement=' '.join(statement.split()), over=list(over), text=text, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=' '.join(note.split())))
    EXPLANATIONS[pid] = ' '.join(expl.split())


def na(pid, title, statement, text, why, files, mech, reason, over=('inputs',)):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, title=title, statement=' '.join(statement.split()), over=list(over), text=text, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], technique=None, note=None))
    NOT_APPLICABLE.append(dict(property=pid, reason=' '.join(reason.split())))


TRUST = ('Assumes real (not floating-point) arithmetic, the documented semantics of the numpy/scipy calls modelled in fsa/models.py, '
         'and inputs in the documented domain (positive times and volatilities unless stated). An obligation that meets a construct outside the model is printed as UNDECIDED and never counted as holding.')
EXPL = ('The functions named in functions_analysed are interpreted abstractly from their current source: every value becomes a gated algebraic normal form over the inputs, '
        'branches are joined (not enumerated), loops are summarised as recurrences or element-wise maps, in-repository callees are followed or replaced by the contract decided by another property. '
        'Each obligation compares the resulting form with the reference form on every feasible gate combination. ')
WHY = ('Quantifies over every real-valued market input and every option flag; the tests compare a handful of hand-picked quotes to tabulated numbers.')

prop('P01', 'FX option value is the Garman-Kohlhagen value, with parity and intrinsic split',
     '''For every spot (with or without a market forward), strike, rates, volatility, expiry and option flag, the FX option price is the Garman-Kohlhagen closed form, so call minus put is the
     discounted forward minus the discounted strike. The reported intrinsic value is the discounted forward payoff, intrinsic plus time value is the price, and asking for greeks or for the split does not change the price.
     At zero time to expiry the price is the undiscounted payoff and the time value is zero.''',
     'all S0, F, tau>=0, r_d, r_f, cp, K, vol and all flag combinations', WHY,
     [PE + 'garman_kohlhagen.py'], [('closed form and expiry overwrite', PE + 'garman_kohlhagen.py: garman_kohlhagen_price'), ('intrinsic/time split', PE + 'garman_kohlhagen.py: garman_kohlhagen_price')],
     'abstract interpretation to algebraic normal form', 'Equality of the extracted formula with the closed form for all inputs. ' + TRUST, EXPL + 'Reference: the GK closed form, the parity identity, the payoff.')
prop('P02', 'FX option greeks are the stated derivatives of the price',
     '''Every analytical greek reported with an FX option price (spot delta, forward delta, vega, gamma, theta, rho) is the exact partial derivative of the pricing formula in its own variable, in the documented scaling
     (per 1% volatility, per calendar day, per basis point or percent as documented). Every bump-and-reprice greek is the symmetric finite difference of the price in that one variable, in the same scaling, all other inputs unchanged.''',
     'all market inputs, both option types, both greek methods, with and without a market forward', WHY,
     [PE + 'garman_kohlhagen.py'], [('analytical greeks', PE + 'garman_kohlhagen.py: garman_kohlhagen_price'), ('numerical greeks', PE + 'garman_kohlhagen.py: garman_kohlhagen_price')],
     'abstract interpretation to algebraic normal form + symbolic-free differentiation of the normal form', 'The extracted expression equals the derivative of the reference price, for all inputs. ' + TRUST,
     EXPL + 'Reference: the derivative of the closed form, taken term by term on the normal form; for bumped greeks the difference quotient of two summaries of the price.')
prop('P03', 'Strike solved from an FX delta reproduces that delta',
     '''For every delta, option type, delta convention and market input, pricing at the strike solved from the delta gives back that delta under the convention used (premium-adjusted ones included).
     The premium-adjusted 50-delta (at-the-money) strike makes a straddle delta neutral, whatever other deltas are solved in the same call.''',
     'all deltas, conventions (regular/premium-adjusted, spot/forward), option types, arrays of mixed deltas', WHY,
     [PE + 'garman_kohlhagen.py'], [('closed-form strike', PE + 'garman_kohlhagen.py: garman_kohlhagen_solve_strike_from_delta'), ('premium-adjusted root bracket', PE + 'garman_kohlhagen.py: solve_k_lower_bound, solve_delta')],
     'abstract interpretation to algebraic normal form; root-finder calls summarised by their defining equation', 'The strike expression inverts the delta expression of the pricing function, or is the bracketed root of exactly that equation. '
     'That scipy brentq/root converge is assumed. ' + TRUST, EXPL + 'Roots are atoms carrying their defining equation; brackets are compared with the known lower bound (Reiswich-Wystup) and the regular strike.')
prop('P04', 'Black-76 and Bachelier values, parity, split, annuity and greeks',
     '''For every forward, strike, volatility, expiry, shift and option type the cap/floor/swaption pricers return the annuity times the (shifted) Black-76 or Bachelier closed form, call minus put is the annuity times (forward minus strike),
     and intrinsic plus time value is the price with the intrinsic the annuity-scaled payoff. The value scales linearly with the annuity, and asking for greeks or the split does not change it.
     Each analytical greek is the derivative of the formula in its documented scaling and each numerical one the symmetric difference in its own variable.''',
     'all F, K, vol, tau, shift, annuity, flags', WHY, [PE + 'black76_bachelier.py'],
     [('Black-76 pricer', PE + 'black76_bachelier.py: black76_price'), ('Bachelier pricer', PE + 'black76_bachelier.py: bachelier_price')],
     'abstract interpretation to algebraic normal form', 'Extracted price and greeks equal the closed forms for all inputs. ' + TRUST, EXPL + 'Reference: shifted Black-76, Bachelier and their derivatives.')
prop('P05', 'Implied volatilities and volatility conversions reprice the option',
     '''Every implied volatility the library returns (FX, Black-76 and Bachelier) is one at which its own pricing function, called with the same contract terms, gives the observed price.
     Converting a volatility between shifts or between normal and log-normal quoting returns a volatility that reprices the option of the original quote; the analytical conversions follow their published formula and at-the-money equality.''',
     'all prices/quotes, strikes, expiries, shifts and quoting conventions', WHY, [PE + 'garman_kohlhagen.py', PE + 'black76_bachelier.py'],
     [('FX implied vol', PE + 'garman_kohlhagen.py: garman_kohlhagen_solve_implied_vol'), ('rates implied vol', PE + 'black76_bachelier.py: black76_solve_implied_vol, bachelier_solve_implied_vol'),
      ('conversions', PE + 'black76_bachelier.py: shift_black76_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol')],
     'abstract interpretation with root-finder summaries (objective and unknown extracted from source)',
     'Every returned value is traced to a root of price(vol)=price; convergence of scipy is assumed, not shown. ' + TRUST,
     EXPL + 'The objective handed to the root finder or minimiser is extracted as a normal form in the unknown and compared with price(vol) - observed price (absolute, relative or squared).')
prop('P06', 'SABR smile is the Hagan formula and the fit reprices the at-the-money quote',
     '''The SABR smile volatility is the published Hagan expansion away from the money and its limit at the money, and depends on forward and strike only through their shifted values; solved alpha and fit are unshifted where no shift is given.
     The solved alpha makes the smile reproduce the at-the-money volatility exactly. The fitted parameters stay inside their valid ranges (beta in [0,1], correlation in (-1,1), vol-of-vol non-negative) and minimise the squared smile error at the quoted strikes.''',
     'all forwards, strikes, expiries, parameters, shifts; given or solved beta', WHY, [PE + 'sabr.py'],
     [('smile', PE + 'sabr.py: calc_sln_vol_for_strike_from_sabr_params'), ('alpha', PE + 'sabr.py: solve_alpha_from_sln_vol'), ('fit', PE + 'sabr.py: fit_sabr_params_to_sln_smile')],
     'abstract interpretation to algebraic normal form; cubic and least-squares calls summarised', 'Formula equality for all inputs; quality of the minimiser is assumed. ' + TRUST,
     EXPL + 'Reference: Hagan et al. 2002 eq. (2.17)/(2.18); alpha cubic re-derived from the extracted at-the-money formula.')
prop('P07', 'Heston characteristic functions and integrands are the published ones',
     '''The Heston characteristic functions of the log price and of the log return are the published (branch-cut-safe) ones for every parameter set and frequency, and equal each other up to the deterministic drift.
     The 1993 and Lewis-Lipton integrands are built from the same model: they agree with the published ones for every integration variable and parameter set, a price of volatility risk acting as the published shift of the mean reversion.''',
     'all spot, rates, expiries, model parameters and frequencies', 'A test samples a few parameter sets and compares prices, where integrand errors cancel or vanish at special values.', [PE + 'heston.py'],
     [('characteristic functions', PE + 'heston.py: chf_heston_fang2008, chf_heston_albrecher2007'), ('integrands', PE + 'heston.py: heston_1993_vanilla_european_integral, heston_lipton_vanilla_european_integral')],
     'abstract interpretation to complex algebraic normal form', 'Formula equality over the complex normal form. ' + TRUST, EXPL + 'Reference: Albrecher et al. 2007, Fang-Oosterlee 2008, Heston 1993 and Lewis/Lipton formulas in complex arithmetic.')
prop('P08', 'Every Heston pricing method inverts the model and obeys put-call parity',
     '''Each Heston pricing method (1993 quadrature, Lewis-Lipton, Carr-Madan by quadrature or FFT, cosine expansion) recovers the price from the model's characteristic function or integrand by its published inversion formula, with the discounting, damping, weights,
     truncation range and payoff coefficients of that formula. Puts and calls of the same contract obey put-call parity. The general pricer reaches the method asked for with exactly the caller's arguments, defaults aside.''',
     'all contract and model inputs, both option types, every method name', WHY, [PE + 'heston.py', PE + 'cosine_method_generic.py'],
     [('pricers', PE + 'heston.py: heston_price_vanilla_european and the per-method pricers'), ('truncation', PE + 'cosine_method_generic.py: get_cos_truncation_range')],
     'abstract interpretation; integral and FFT atoms with extracted integrand/grid', 'The discrete or integral formula equals the published one; numerical accuracy of the quadrature is not claimed. ' + TRUST,
     EXPL + 'Integrals are atoms over their extracted integrand and limits; grids and FFT inputs are compared element by element.')
prop('P09', 'Heston simulation steps follow the published scheme',
     '''A Heston path starts at the given spot and variance, and each later point is the published step of the chosen scheme from the preceding point alone: the quadratic-exponential scheme (moment-matched variance, switch at 1.5, central log-price discretisation) or the Euler scheme
     with correlated increments and absorbed or reflected variance. The scalar and the vectorised simulators take the same step. An unknown scheme name is rejected.''',
     'all model parameters, step counts, paths, random draws', 'Quantifies over all histories of random draws and steps; tests look at terminal averages with tolerances.', [PE + 'heston.py'],
     [('vectorised simulator', PE + 'heston.py: heston_simulate'), ('scalar simulator', PE + 'heston.py: heston_simulate_scalar')],
     'abstract interpretation with loop recurrences', 'The loop body, as a function of the preceding row and the draws, equals the published step. Convergence in the number of steps is not claimed. ' + TRUST,
     EXPL + 'The time loop is summarised as a first-order recurrence; the step is compared with the published one.', over=('inputs', 'histories'))
prop('P10', 'Heston calibration reports the fit of the parameters it returns',
     '''Calibrating the Heston model to a volatility smile minimises the sum of squared differences between quoted volatilities and the implied volatilities of model prices at the strikes of the quoted deltas, using the pricing method asked for.
     The parameters, implied volatilities and error it returns belong together: the reported volatilities and error are those of the reported parameters, in the documented order, with the initial variance the square of the at-the-money quote.''',
     'all smiles, deltas, option types, rates, methods', 'Quantifies over every smile and method; tests check a few fitted numbers with tolerances.', [PE + 'heston.py'],
     [('objective and reporting', PE + 'heston.py: heston_calibrate_vanilla_smile')],
     'abstract interpretation with minimiser summary', 'Consistency of the objective and of the reported tuple, not the quality of the optimum. ' + TRUST, EXPL + 'The minimiser call is an atom carrying its extracted objective; pricers, strike and implied-volatility solvers are summaries (P01, P03, P05, P08).')
prop('P11', 'Simulated GBM paths, correlations and antithetic pairs are exact',
     '''Simulated geometric Brownian motion paths start at the spot and take the exact log-normal step of each period with that period's drift, volatility and length, per underlying.
     Correlated normal variates have exactly the requested correlation matrix, and are standard normal of the requested shape. With antithetic variates every mirrored simulation is the exact negative of a drawn one and the requested number of simulations is returned, odd or even.''',
     'all drifts, volatilities, period grids, correlation matrices, shapes, seeds', 'Quantifies over every path and matrix; tests check sample moments with tolerances.', [PE + 'geometric_brownian_motion.py', PE + 'monte_carlo_generic.py'],
     [('step', PE + 'geometric_brownian_motion.py: simulate_gbm_path'), ('correlation', PE + 'monte_carlo_generic.py: normal_corr'), ('antithetic', PE + 'monte_carlo_generic.py: generate_rand_nbs')],
     'abstract interpretation with loop recurrences and matrix atoms', 'Exact algebra of the step and of the correlation factor. Quality of numpy\'s generator is assumed. ' + TRUST, EXPL + 'Cholesky factors are expanded for 2 and 3 variables; slices of the draw array are compared as index maps.', over=('inputs', 'histories'))
prop('P12', 'Clewlow-Strickland paths follow the one-factor forward-curve step',
     '''Each simulated Clewlow-Strickland log-spot moves from one day to the next by the drift of the forward curve, the mean reversion towards it, the published variance correction and volatility times the square root of the day fraction times a standard normal draw.
     The result has one row per day from zero to the horizon, the first being the initial spot and each the exponential of the simulated log spot.''',
     'all forward curves, mean-reversion speeds, volatilities, horizons, draws', 'Quantifies over all histories of draws; the one test runs one parameter set.', [PE + 'clewlow_strickland_1_factor.py'],
     [('step and output', PE + 'clewlow_strickland_1_factor.py: clewlow_strickland_1_factor_simulate')],
     'abstract interpretation with loop recurrences', 'The loop body equals the published step for all inputs. ' + TRUST, EXPL + 'The day loop is summarised as a recurrence; the step is compared with the published one.', over=('inputs', 'histories'))
prop('P13', 'Hull-White bonds, bond options, caplets and swaptions have their closed forms',
     '''In the Hull-White one-factor model theta(t) is the slope of the instantaneous forward curve plus the mean-reversion and variance terms (its fit takes equally spaced times from each pillar to the next and the setting with the least root mean square error of the pillar zero rates), and the initial short rate is the continuous zero rate at time zero.
     A zero-coupon bond is exp(a - b r) with b(t,T) = (1 - exp(-a(T-t)))/a, both from the fitted theta and from the initial curve.
     Calls and puts on zero-coupon bonds are the closed form (their intrinsic value at expiry zero), a caplet or floorlet is the equivalent bond put or call, and a payer or receiver swaption is Jamshidian's sum of bond options over every coupon and the notional, at the strikes where the fixed leg is worth par.''',
     'all curves, parameters, dates, strikes, coupon schedules and option flags', WHY, [PE + 'hw1f.py'],
     [('theta', PE + 'hw1f.py: get_thetas, setup_theta, fit_theta'), ('bonds', PE + 'hw1f.py: calc_b, calc_discount_factor_by_solving_ode_1/2'),
      ('options', PE + 'hw1f.py: price_zero_coupon_bond_option, price_optionlet'), ('swaption', PE + 'hw1f.py: jamshidian_decomposition, price_swaption')],
     ABS, 'Every formula equals the published one as an algebraic identity; the quality of the spline fit of theta and of the root search is not decided. ' + TRUST,
     EXPL + 'Integrals and root searches are values determined by their integrand or objective, so both must be the right ones.')
prop('P21', 'Hull-White paths follow their scheme and discount factors accumulate the rates',
     '''Every simulated Hull-White short-rate path starts at the initial short rate and each step follows from the preceding one by the chosen scheme (Euler, Runge-Kutta drift, or the exact transition with its own standard deviation) using theta at that time and one standard normal draw per step and path, for any number of steps.
     The discount factor of every path is the exponential of minus the trapezoidal integral of the simulated rates, one at time zero, zero rates are those of the discount factors and the averages are over the simulations; an unknown scheme is rejected.''',
     'all parameters, horizons, numbers of steps and simulations, and histories of draws', 'Quantifies over all histories of draws and numbers of steps; the tests run one seeded setting.', [PE + 'hw1f.py'],
     [('simulation', PE + 'hw1f.py: simulate')],
     'abstract interpretation with loop recurrences', 'The loop body is compared with the scheme for a symbolic step; induction from the initial row. ' + TRUST,
     EXPL + 'Loops become recurrences over a symbolic index; the step, its range and the initial rows are each obligations.', over=('inputs', 'histories'))
prop('P14', 'Forward volatility and volatility interpolation conserve variance',
     '''The forward volatility between two times is the one whose variance, added to the first total variance, gives the second; decreasing times and negative forward variance are rejected and equal times give no number.
     Volatility interpolated between two pillars has total variance linear in time, reproducing each pillar exactly.''',
     'all times and volatilities, scalars and arrays', WHY, [PE + 'volatility_generic.py'],
     [('forward volatility', PE + 'volatility_generic.py: forward_volatility'), ('interpolation', PE + 'volatility_generic.py: flat_forward_interp')],
     'abstract interpretation to algebraic normal form', 'Formula equality for all inputs, arrays and scalars. ' + TRUST, EXPL + 'Reference: additivity of total variance.')
UT = 'frm/utils/'
TS = 'frm/term_structures/'
prop('P15', 'Zero rates, discount factors and compounding conversions are exact inverses',
     '''For every compounding frequency (simple, continuous, daily to annual) the discount factor of a zero rate is the textbook compounding formula with that frequency's number of periods per year, and the zero rate of a discount factor is its exact inverse.
     Converting a rate from any frequency to any other keeps the one-year discount factor, so converting there and back returns the original rate.''',
     'all rates, times and pairs of compounding frequencies', 'Quantifies over all rates and 64 pairs of conventions; tests sample a few.', ['frm/enums/utils.py'],
     [('compounding', 'frm/enums/utils.py: CompoundingFreq')],
     'abstract interpretation to algebraic normal form (canonical power products)', 'Formula equality for all positive times and rates. ' + TRUST, EXPL + 'Reference: 1/(1+rt), exp(-rt), (1+r/n)^(-nt), inverses, and conversions through the one-year discount factor.')
ZCF = TS + 'zero_curve.py'
prop('P16', 'A zero curve reprices its pillars and its zero rates match its discount factors',
     '''However its pillars are quoted (by date, days, years or tenor; discount factors, or zero rates of any compounding frequency; in any order; with or without a pillar at the curve date), a zero curve holds the quoted discount factors at the pillar times, starts from a discount factor of 1 at the curve date,
     and between pillars follows the chosen interpolation. Every zero rate it reports, at any time and in any compounding frequency, is the one that belongs to the discount factor it reports there.
     A flat shift of the curve multiplies each pillar discount factor by exp(-shift x time) and keeps the conventions of the curve.''',
     'all pillars, quote conventions, interpolation methods, times and compounding frequencies', 'Quantifies over all curves, conventions and times; the repository has almost no stable tests of the curve.', [ZCF, 'frm/enums/utils.py'],
     [('pillars', ZCF + ': ZeroCurve._process_pillar_df'), ('daily table', ZCF + ': ZeroCurve._setup_daily_df'), ('look-ups by time', ZCF + ': index_daily_data, get_discount_factors, get_zero_rates'), ('shift', ZCF + ': flat_shift')],
     'abstract interpretation of the constructor and look-ups on symbolic pillars; interpolators are atoms over their knots',
     'Equality with the textbook curve for all pillars; that scipy/numpy interpolators pass through their knots is assumed. ' + TRUST, EXPL + 'A curve is constructed on symbolic pillars for every quoting convention; each table column and look-up is compared with the reference curve.')
prop('P17', 'Forward rates of a zero curve are those implied by its discount factors',
     '''A simple, compounded or continuous forward rate between two dates is the rate at which the ratio of the curve's discount factors at those dates accrues over the year fraction of the period in the curve's day count; a daily-compounded overnight rate is the same simple rate.
     Averaged overnight forward rates are the mean of the daily forward rates of the days (business days for the simple average) of the period. The instantaneous forward rate is minus the slope of the log discount factor.''',
     'all curves, periods, forward rate types', 'Quantifies over all curves and periods; the repository has almost no stable tests of the curve.', [ZCF],
     [('forward rates', ZCF + ': ZeroCurve.get_forward_rates'), ('instantaneous', ZCF + ': ZeroCurve.get_instantaneous_forward_rate')],
     'abstract interpretation to algebraic normal form; discount factors and year fractions are summaries (P16, P20)', 'Equality with the defining formula for all curves and periods. ' + TRUST, EXPL + 'The result for each forward-rate type is compared with its definition in terms of two discount factors.')
prop('P18', 'Date look-ups on a zero curve agree with time look-ups; off-curve dates give NaN',
     '''Looking up discount factors or zero rates of a curve by dates or by days from the curve date gives what the look-up by time gives at the year fraction of that date, one result per requested date in the requested order, scalars and arrays alike.
     Dates before the curve date or after its last pillar give NaN when no extrapolation was asked for, and the nearest end of the curve under flat extrapolation. Exactly one of dates, days and years must be given.''',
     'all curves, date arguments (single, index, series, days), in and out of range', 'Quantifies over all curves and dates; the repository has almost no stable tests of the curve.', [ZCF],
     [('look-up', ZCF + ': ZeroCurve.index_daily_data')],
     'abstract interpretation; table joins are look-up atoms, out-of-range keys map to NaN', 'Equality of the two look-ups for all dates. ' + TRUST, EXPL + 'The join with the daily table is a look-up on the day grid; keys off the grid are NaN.')
prop('P19', 'Swap index fixings splice history and forward curve at the curve date',
     '''A term fixing is the latest historical fixing on or before the period start when the period starts before the curve date, and the curve's forward rate of the requested type (simple where none is requested) otherwise. An overnight-rate coupon uses historical fixings for periods that have ended by the curve date, forward rates for periods starting on or after it,
     and for a period over the curve date the two parts accrue one after the other (compounded for daily compounding, which is the default, day-weighted for averages). A historical overnight coupon averages or daily-compounds the latest fixing on each day of the period (published fixings only for the simple average), and periods the fixings do not cover are rejected.
     One result is returned per period, in the order asked for, and the discount factors of an overnight swap curve are those of its zero curve.''',
     'all curves, fixing histories, periods and calculation methods', 'Quantifies over all histories and periods; the repository has no stable test of fixings.', [TS + 'swap_curve.py', TS + 'historical_swap_index_fixings.py'],
     [('splice', TS + 'swap_curve.py: TermSwapCurve.get_fixings, RFRSwapCurve.get_fixings'), ('history', TS + 'historical_swap_index_fixings.py: RFRFixings.get_coupon_rates, TermFixings.index_historical_fixings')],
     'abstract interpretation; masked assignments are gates, as-of joins are atoms with tracked row order', 'Equality with the definition for all periods and histories. ' + TRUST, EXPL + 'Forward rates, year fractions and historical coupons are summaries where they are not the object of the obligation.', over=('inputs', 'histories'))
prop('P20', 'Day counts and year fractions follow the ISDA definitions for every date pair',
     '''For every start and end date and each day-count basis (ACT/360, ACT/365, ACT/366, ACT/ACT, 30/360, 30E/360, 30E/360 ISDA) the day count and the year fraction are those of the ISDA definition, including end-of-month and end-of-February rules,
     leap years and the termination-date exception of 30E/360 ISDA. Scalars, arrays and mixtures of both give the same numbers, a vector's last end date counting as the termination date.''',
     'all pairs of ordered dates, 7 bases, scalars and arrays', 'Quantifies over every pair of calendar dates; the tests sample some dates per convention.', [UT + 'daycount.py'],
     [('day count', UT + 'daycount.py: day_count'), ('year fraction', UT + 'daycount.py: year_frac'), ('broadcasting', UT + 'daycount.py: convert_to_same_shape_datetimeindex')],
     'abstract interpretation with gates on calendar fields', 'Equality with the definition on every gate combination (leap year, month, day-of-month thresholds). ' + TRUST,
     EXPL + 'Dates are symbolic with integer year/month/day fields; literal combinations with no integer in the field range are skipped.')
SCH = UT + 'schedule.py'
prop('P22', 'Generated schedule dates are whole periods from the anchor, rolled, contiguous',
     '''A date schedule generated forward (from the start) or backward (from the end) has as interior boundaries exactly the dates 1, 2, 3 ... whole periods from that anchor (measured from the anchor, so month ends do not drift), moved to the given day of the month or its last day where asked,
     then rolled by the given convention on the given business-day calendar, as long as they lie strictly inside the term. They come in increasing order; each is both the end of one period and the start of the next; the first period starts on the start date and the last one ends on the end date (rolled too only when asked).
     An end date not after the start date and an unknown direction are rejected.''',
     'all start and end dates, 7 frequencies, 5 roll conventions, 33 day rolls, both directions, every calendar', 'Quantifies over all dates and calendars and an unbounded number of periods.', [SCH],
     [('generation', SCH + ': generate_date_schedule'), ('roll', SCH + ': busday_offset_timestamp')],
     'abstract interpretation; the generation loop is summarised as an inductive sequence (element k of the list, exit condition)', 'Each list element as a function of its position, and the loop condition, equal the definition for all dates. numpy.busday_offset and pandas offsets are trusted. ' + TRUST,
     EXPL + 'The loop is summarised by its recurrence: element k+1 of both lists and the loop condition are compared with the definition.')
prop('P23', 'Stubs: schedules honour stub types and user dates without gaps or overlaps',
     '''A schedule of periods covers its term without gaps or overlaps: the first period starts on the start date, each further period starts where the one before ends, and the last one ends on the end date. Without stub dates it is generated backward from the end (first stub, the default) or forward from the start (last stub only), a long stub merging the two periods at its end;
     two stubs without dates are rejected. A given first period end is the end of the first period and a given last period start is the start of the last, the dates between being whole periods from one of them or those of a regular schedule that has them. Zero-coupon schedules are one period.
     Frequency, roll convention, day roll and calendar are those given; start, end and stub dates are rolled exactly when asked. Dates out of order and stub dates outside the term are rejected.''',
     'all dates, stub types and combinations of stub dates, up to 4 regular periods', 'Quantifies over all terms and the many combinations of stub inputs, most of which no test visits.', [SCH],
     [('stubs', SCH + ': make_schedule')],
     'abstract interpretation with the generated dates as named symbols in an assumed order', 'Equality of the boundary lists for every combination of stub types, aligned and unaligned stub dates and 1-4 generated periods; longer schedules take the same paths. ' + TRUST,
     EXPL + 'Each combination of stub types and dates is one case; generated dates are summaries (P22).', over=('inputs', 'schedules'))
prop('P24', 'Payment dates, period lengths and notional flows of a schedule',
     '''The payment date of a period is its end (in arrears) or start (in advance) plus the payment delay in business days, rolled by the schedule's convention on its calendar; with no adjustment and no delay it is that date itself. Day count and year fraction columns are those of the period's own dates in the given basis; adding them again replaces them.
     A notional schedule has one notional for each period (one for all, or one each; other shapes are rejected), pays the fall in notional at each period's payment date, and when asked adds a row paying minus the first notional on the initial exchange date (the first period's start unless given) and repays the last notional at the end;
     coupon payment dates use the coupon's own delay and timing. The schedule's options all reach its construction.''',
     'all dates, calendars, delays, timings, notionals, exchange options; 1-3 periods for the notional flows', 'Quantifies over all schedules, calendars and notionals.', [SCH],
     [('payments', SCH + ': BaseSchedule.add_payment_dates'), ('lengths', SCH + ': BaseSchedule.add_period_daycount, add_period_yearfrac'), ('notionals', SCH + ': NotionalSchedule.add_notional_schedule'), ('coupons', SCH + ': CouponSchedule')],
     'abstract interpretation of the constructors on symbolic schedules', 'Equality of each column with its definition; notional flows for 1-3 periods with symbolic dates and notionals. ' + TRUST,
     EXPL + 'Columns are compared element by element; rows without a period (initial exchange) stay empty.', over=('inputs', 'schedules'))
prop('P25', 'FX exposure date grids hold exactly the sampled dates and last days of value',
     '''The exposure date grid is the curve date, the dates of a forward schedule of the sampling frequency up to the last delivery date (or the given pillars), and, as asked, every delivery's last day of value and the day after it: the delivery date itself and the next day when payments on the value date still have value, one day earlier otherwise.
     The grid is sorted without duplicates. An unknown frequency, or neither frequency nor pillars, is rejected.''',
     'all delivery dates, 6 frequencies and pillars, 8 option combinations', 'Quantifies over all delivery dates; the repository has no test of it.', [SCH],
     [('grid', SCH + ': create_date_grid_for_fx_exposures')],
     'abstract interpretation; index operations are interpreted as set operations with tracked order', 'Set equality for every option combination. ' + TRUST, EXPL + 'The generated schedule is a summary (P22); the members of the returned index are compared as a set.')
EN = ['frm/enums/utils.py', 'frm/enums/helper.py', 'frm/enums/term_structures.py']
prop('P26', 'Tenor text means one calendar offset, however it is spelled',
     '''For every whole number N, "N" followed by a day, week, month or year word (d/day/days, w/week/weeks, m/mon/month/months, y/yr/yrs/year/years), in any case and with any spaces or line ends, is cleaned to Nd, Nw, Nm or Ny and means N days, weeks, months or years; "N years M months" means 12N + M months.
     O/N, T/N, S/N, S/W and spot, written short, with slashes or as words, are cleaned to on, tn, sn, sw, sp and mean 1, 2, 1, 5 and 0 days. Any other text, partial or out of order, is rejected with ValueError, non-text with TypeError.''',
     'all tenor counts N and M, all listed unit words and spellings', 'A tenor misread is a wrong maturity everywhere; tests sample a few tenors, the statement is about every count and spelling.', ['frm/utils/tenor.py'],
     [('cleaning', 'frm/utils/tenor.py: clean_tenor'), ('offsets', 'frm/utils/tenor.py: tenor_to_date_offset')],
     'abstract interpretation of the string code with symbolic runs of digits', '''The number is a symbol standing for digits of any length; regular expressions are parsed and a run of digits matches only where the pattern accepts every run. '''  + TRUST,
     EXPL + 'Strings are concrete except for the digits, which are one symbol.', over=('inputs',))
prop('P27', 'Convention names are parsed to the member they name, or rejected',
     '''Every convention enumeration (interpolation and extrapolation methods, pay/receive, buy/sell, day count bases, compounding and period frequencies, day rolls, roll conventions, timing, stubs, notional exchanges) accepts each member's own value and listed aliases in any case and with surrounding or inner blanks, and gives that member;
     is_valid agrees on every member value. Other text is invalid and from_value raises ValueError; a missing value (None, nan) gives the documented default where there is one. Every member carries its own constants: pay and sell multiply by -1, receive and buy by 1, days per year of each basis, periods per year of each compounding, and j periods of a frequency are j times its days or months.''',
     'all members, listed aliases and spellings; unknown text', 'Every user input passes through these parsers; no test enumerates members, aliases and missing values.', EN,
     [('parsers', 'frm/enums/utils.py: from_value, is_valid of every class; frm/enums/helper.py'), ('constants', 'frm/enums/utils.py: multiplier, days_per_year, periods_per_year, date_offset, multiply_date_offset')],
     'abstract interpretation of the parsers for every member and alias', 'Exhaustive over members and listed aliases; unknown text is represented by words outside the alias lists. ' + TRUST, EXPL, over=('inputs', 'members'))
prop('P28', 'Business calendars join the holidays and weekends of every requested centre',
     '''The business-day calendar of one or several currencies or locales, given in any case, singly or as a list with repeats, treats as non-business days exactly the holidays of every one of them and the weekend days of every one of them, whatever their order. No key gives the Monday-to-Friday calendar without holidays.
     Currencies are looked up before locales, every stored key can be requested, and a key without holidays is rejected with ValueError, also within a list.''',
     'all combinations of requested centres, weekend sets and holiday sets', 'Settlement dates depend on the union; tests look at a few holidays of four currencies.', ['frm/utils/business_day_calendar.py'],
     [('calendar', 'frm/utils/business_day_calendar.py: get_busdaycal, convert_weekend_to_weekmask, get_holidays_object')],
     'abstract interpretation with symbolic holiday dates', 'Stored holiday sets are replaced by symbolic sets with overlapping dates and differing weekends; the stored data itself is not examined. ' + TRUST, EXPL, over=('inputs', 'calendars'))
FXH = 'frm/term_structures/fx_helpers.py'
prop('P29', 'Spot, fixing and delivery dates of FX quotes follow from what is given',
     '''A quote row with a delivery date keeps it; a missing fixing or expiry date is that delivery date rolled back to a business day and moved back by the spot offset. Without delivery date, the fixing or expiry date is kept and delivery is it rolled forward and moved on by the spot offset. With a tenor only, the fixing date is the curve date plus the tenor, rolled forward, and delivery is the spot offset after it. Each row uses its own data whatever other rows have, other columns stay with their row,
     rows come back sorted by delivery date, the frame passed in is left alone, and a row with nothing to date it is rejected. Of curve date, spot offset and spot date the missing ones follow from the others (forward: following; back: preceding; offset: the business days between; one date only: T+1 for USD against CAD, PHP, RUB and TRY, T+2 otherwise); contradicting ones are rejected. The first currency of a pair is the foreign one, the second the domestic one, in any spelling.''',
     'all dates, calendars and spot offsets; every combination of given and missing columns and cells', 'Quantifies over calendars and over every pattern of missing data; tests use complete frames.', [FXH, 'frm/utils/tenor.py'],
     [('row dates', FXH + ': fx_term_structure_helper, fx_forward_curve_helper, validate_ccy_pair'), ('spot', 'frm/utils/tenor.py: resolve_fx_curve_dates, calc_implied_business_day_offset, get_fx_spot_day_offset, workday')],
     'abstract interpretation with symbolic dates on frames of known missingness', 'Every missingness pattern of one row, and mixed frames of 3-4 rows in a given order of delivery dates. ' + TRUST, EXPL + 'Business-day offsets are uninterpreted apart from roll-then-step.', over=('inputs', 'calendars'))
prop('P30', 'FX volatility quotes are read as the vols and deltas they stand for',
     '''Every spelling of a quote column (N delta or Δ call/c/put/p, rr or risk reversal, bf or butterfly, at the money delta neutral or forward; blanks, underscores or nothing between the parts) becomes one canonical name and keeps its quotes; other columns keep theirs. Call and put vols missing for a delta are at the money plus butterfly plus or minus half the risk reversal, vols quoted directly are kept, and strategy quotes without counterpart or at the money vol are rejected.
     The smile lists put quotes from the furthest out of the money, then at the money, then calls up to the furthest, with negative deltas for puts, positive for calls, one half for at the money. Quotes whose delta convention is not the market convention of a USD pair are flagged, and only those.''',
     'all quotes; 12 delta levels with all listed spellings; several column orders', 'Holds for every column order and spelling, which tests sample.', [FXH],
     [('quotes', FXH + ': clean_vol_quotes_column_names, solve_call_put_quotes_from_strategy_quotes, get_delta_smile_quote_details, check_delta_convention')],
     'abstract interpretation with concrete column names and symbolic quotes', 'Column names are enumerated, quotes are symbols. ' + TRUST, EXPL, over=('inputs',))
prop('P31', 'FX forwards are interpolated linearly in calendar time, in the order asked',
     '''The forward for a date is linear in calendar time between the neighbouring quoted fixing dates (or delivery dates, as asked) and equals the quote on a quoted date; outside the quoted dates it is the first or last quote, or missing when extrapolation is switched off. Results are in the order of the requested dates, repeated dates included; the curve is left alone. Any other kind of date is rejected.''',
     'all curves and requested dates', 'Quantifies over all dates and curves.', [FXH], [('interpolation', FXH + ': interp_fx_forward_curve_df')],
     'abstract interpretation; aligned series operations are reduced to one interpolation function', 'The pandas chain of reindexing, time interpolation and filling is reduced to piecewise linear interpolation by its documented meaning. ' + TRUST, EXPL, over=('inputs',))
VSF = 'frm/term_structures/fx_volatility_surface.py'
prop('P32', 'The FX volatility surface puts every pillar and every day on its own market data',
     '''A volatility surface dates its forwards and its quotes from the same curve date, spot offset and calendar; its spot rate is the forward curve's rate of the spot tenor, and zero curves of another date are rejected. Each volatility pillar keeps its quotes and takes the year fraction, the forward (interpolated on fixing dates) and the continuously compounded domestic and foreign zero rates at its own expiry date.
     The daily smiles cover each calendar day from the first to the last expiry: each quote is interpolated flat-forward in variance between the pillars at or before and at or after the day, by their year fractions, with the day's own forward and zero rates and the delta convention of the pillar at or after; pillar strikes are solved from that pillar's own vols, deltas, delta convention, rates, forward and the spot.''',
     'all quotes, curves, dates and calendars; surfaces of three pillars and three quotes', 'Holds for every market data set and expiry day; the one test samples a single surface.', [VSF],
     [('surface', VSF + ': FXVolatilitySurface.__post_init__, _add_fx_ir_to_df, _setup_vol_smile_pillar_df, _setup_vol_smile_daily_df, _setup_strike_pillar')],
     'abstract interpretation of the constructor with curves, day counts, interpolators and strike solver as summaries (each decided by P03, P14, P16, P20, P31)', 'Three pillars with symbolic quotes and dates in increasing order; as-of joins by their documented meaning. ' + TRUST, EXPL, over=('inputs', 'calendars'))
prop('P33', 'FX options are valued on the smile of their own expiry, strike by strike',
     '''Volatilities and prices come back in the order of the requested expiries, strikes and option types (repeated and unsorted expiries included, after any earlier requests). Each option's volatility is read at its own strike from the smile of its own expiry, fitted to that day's quotes at the strikes solved from that day's rates, forward, deltas and delta convention: a spline of degree min(3, max(2, n-1)), a cubic spline, or the Heston fit with the domestic rate implied by the market forward, whose price at the strike is turned back into a volatility. The option is then valued with the spot, year fraction, rates, forward and volatility of its own expiry, the requested greeks only, and these market data are reported. Expiries, strikes and types of different lengths, too few quotes for the spline and a Heston fit with squared error of 0.001 or more are rejected.''',
     'all market data and requests; requests of two to three options on three expiries', 'Quantifies over request order, repetition, history of requests and smile method; the test prices a few options once.', [VSF],
     [('pricing', VSF + ': FXVolatilitySurface.interp_vol_surface, _solve_vol_daily_smile_func, price_vanilla_european')],
     'abstract interpretation with daily smiles of known rows; spline, calibration and pricing functions as summaries (decided by P01-P03, P08-P10)', 'Seven smile methods; requests with repeated and unsorted expiries. ' + TRUST, EXPL, over=('inputs', 'histories'))
prop('P34', 'Calls never change the arrays, frames, lists or objects passed in',
     '''Pricing, implied volatility, calibration, simulation, interpolation, day count, tenor, calendar and schedule functions, and the construction and use of curves, surfaces, fixings, models and schedules, leave every array, frame, list and object passed in by the caller unchanged, on every path, so the same market data can be passed to several calls.
     The helpers whose purpose is to clean or annotate the frame they are given, and the unfinished optionlet, bootstrap and instrument modules, are left out.''',
     'all inputs and paths of 105 entry points', 'Tests pass fresh data and look at results, not at what happened to the inputs; a change in place shows only when data is used again.', ['frm/pricing_engine/garman_kohlhagen.py', 'frm/term_structures/zero_curve.py', 'frm/term_structures/fx_volatility_surface.py', 'frm/utils/schedule.py'],
     [('alias analysis', 'frm.pricing_engine, frm.term_structures, frm.utils, frm.enums: the entry points listed in checks/effects.py')],
     'flow-sensitive alias and mutation analysis with per-function summaries to a fixpoint over the call graph', 'May-analysis: a view, slice or element keeps its origin; copies, arithmetic and mask selections are fresh. An in-place operator on a single array element is taken as arithmetic. ' + TRUST,
     'Evidence lists the functions whose summaries each entry point was computed from. ', over=('inputs', 'histories'))
prop('P35', 'Results depend only on the arguments and the object asked, not on earlier calls',
     '''Apart from requested random seeds (a seed of None asks for fresh random numbers), no result depends on the clock, the environment, files, unseeded random numbers, or on state that one call leaves behind for another outside the objects passed in (module or class level variables, mutable default arguments). Asking a curve, fixings, schedule or short rate model for a result does not change it; only its methods for fitting, setting up or adding columns do.''',
     'all call histories of 105 entry points', 'A test runs each call once or in one order; dependence on history needs particular sequences of calls.', ['frm/pricing_engine/garman_kohlhagen.py', 'frm/term_structures/zero_curve.py', 'frm/term_structures/fx_volatility_surface.py', 'frm/utils/schedule.py'],
     [('effect analysis', 'frm.pricing_engine, frm.term_structures, frm.utils, frm.enums: the entry points listed in checks/effects.py')],
     'interprocedural effect analysis over the call graph', 'Random draws must be preceded in their function by seeding. The smiles a volatility surface keeps on request are decided by P33. ' + TRUST, 'Evidence lists the functions analysed for each entry point. ', over=('histories', 'inputs'))
WHY2 = 'Holds for every request outside the documented ones and in every argument form; tests call functions with valid requests and rarely probe a refusal.'
prop('P36', 'Choices that do not exist are refused, never answered as another choice',
     '''A choice outside the documented ones raises an error and returns nothing: the Heston pricing method (for a price or a calibration), the option type of Carr-Madan pricing, the delta and the at-the-money convention of a strike,
     the type of a forward rate, the averaging method of a historical overnight coupon, the day-count basis, the direction of a schedule, the timing of its payments and the Hull-White and Heston simulation methods.
     So does what the library cannot do: day counts of what is not a date, forward FX rates for anything but a series or index of dates, instantaneous forward rates of a linearly interpolated curve, and Hull-White bond options valued at a future time.''',
     'all choices that are not documented, represented by ones of every kind (other texts, other spellings and parts of the documented ones, an empty text, nothing, numbers, members of other enumerations)', WHY2,
     [PE + 'heston.py', PE + 'garman_kohlhagen.py', PE + 'hw1f.py', 'frm/term_structures/zero_curve.py', 'frm/utils/daycount.py', 'frm/utils/schedule.py', 'frm/term_structures/fx_helpers.py'],
     [('choices', PE + 'heston.py: heston_price_vanilla_european; frm/term_structures/zero_curve.py: ZeroCurve.get_forward_rates; frm/utils/daycount.py: day_count, year_frac, to_datetimeindex')],
     'abstract interpretation: no path of the call returns', 'The market data of the request is symbolic, so a refusal holds for all of it. ' + TRUST,
     EXPL + 'A request is refused when the paths that raise cover every path condition of the call.')
prop('P37', 'Data outside the domain of a function is refused; the edge of it is served',
     '''An FX option price is refused for a spot or forward that is not positive, a negative time to expiry, an option type other than call (1) and put (-1), or strikes, volatilities and types of different lengths; a strike is refused for a spot, forward, volatility or time to expiry that is not positive,
     a delta beyond 50% either way, or deltas and volatilities of different lengths (a single bad element is enough), and a Heston calibration for a spot or time that is not positive or an unknown option type.
     Refused are zero curves quoted by none or several kinds of dates or of rates, by extra columns or by zero rates without compounding, forward rates of periods before the curve date, ending before they start or unequal in number, day counts from a later to an earlier date, fixings without exactly dates and rates or of another day count than the curve, Hull-White on a linear curve,
     swaptions whose coupons are out of order, lack one year fraction each or end after the notional (the last coupon excepted), and random numbers of fewer than one step, variable or simulation, of one antithetic simulation or above the size limit; what lies on the edge (an expiry of now, a 50% delta, a limit reached exactly) is served.''',
     'all data outside the domain: symbolic, in any element of an array', WHY2,
     [PE + 'garman_kohlhagen.py', PE + 'heston.py', PE + 'hw1f.py', PE + 'monte_carlo_generic.py', 'frm/term_structures/zero_curve.py', 'frm/utils/daycount.py', 'frm/term_structures/swap_curve.py', 'frm/term_structures/historical_swap_index_fixings.py'],
     [('pricing', PE + 'garman_kohlhagen.py: garman_kohlhagen_price, garman_kohlhagen_solve_strike_from_delta'), ('curves', 'frm/term_structures/zero_curve.py: _process_pillar_df, get_forward_rates'), ('swaptions', PE + 'hw1f.py: jamshidian_decomposition'), ('random numbers', PE + 'monte_carlo_generic.py: generate_rand_nbs')],
     'abstract interpretation: no path of the call returns under the condition that the data is bad', 'Arrays of two elements with one bad. ' + TRUST,
     EXPL + 'A request is refused when the paths that raise cover every path condition of the call; a condition on the signs of the inputs alone that leaves a path is a violation.')
prop('P38', 'The cosine series turns a characteristic function into density and distribution',
     '''For a characteristic function, bounds a < b, a step and N (160 unless asked otherwise), the density at x is 2/(b-a) times the sum over k = 0..N, its first term halved, of Re(cf(k pi/(b-a)) exp(-i k pi a/(b-a))) cos(k pi (x-a)/(b-a)).
     It is given at every step from a through b and at the point asked, in order and once each; the distribution is the running sum of density times distance to the next point (one step for the last), its value at the point asked and its total are reported too.
     A step that is not positive or longer than b - a, a point outside [a, b] and a density whose total is below the normal distribution function at 5 are refused; the truncation range of a Brownian motion is its mean and L standard deviations either way.''',
     'any characteristic function; bounds, steps and points on and between the steps, one to four terms', 'No test calls the function: the series is an identity in the characteristic function, which a test could only sample.',
     [PE + 'cosine_method_generic.py'],
     [('series', PE + 'cosine_method_generic.py: cos_method'), ('truncation', PE + 'cosine_method_generic.py: get_cos_truncation_range')],
     'abstract interpretation with an unknown characteristic function; normal forms compared with the series term by term', 'Bounds, steps and number of terms are six representative cases with exact rational numbers; the characteristic function is unknown. ' + TRUST,
     EXPL + 'Arrays have their exact lengths, so points, densities and running sums are compared one by one.')
