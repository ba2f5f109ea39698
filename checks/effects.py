"""P34, P35: what calls change and what their results depend on (alias and effect analysis over the call graph)"""
from fsa import effects
from fsa.chk import REPO, Mismatch, Undecided

# entry points: functions and methods a user calls, by module
ENTRY = {
    'frm.pricing_engine.black76_bachelier': ['bachelier_price', 'bachelier_solve_implied_vol', 'black76_price', 'black76_sln_to_normal_vol', 'black76_sln_to_normal_vol_analytical', 'black76_solve_implied_vol',
                                             'normal_vol_atm_to_black76_sln_atm', 'normal_vol_to_black76_sln', 'shift_black76_vol'],
    'frm.pricing_engine.clewlow_strickland_1_factor': ['clewlow_strickland_1_factor_simulate'],
    'frm.pricing_engine.cosine_method_generic': ['cos_method', 'get_cos_truncation_range'],
    'frm.pricing_engine.garman_kohlhagen': ['garman_kohlhagen_price', 'garman_kohlhagen_solve_implied_vol', 'garman_kohlhagen_solve_strike_from_delta'],
    'frm.pricing_engine.geometric_brownian_motion': ['simulate_gbm_path'],
    'frm.pricing_engine.heston': ['calculate_Uk_european_options', 'chf_heston_albrecher2007', 'chf_heston_fang2008', 'heston1993_price_vanilla_european', 'heston_calibrate_vanilla_smile', 'heston_carr_madan_price_vanilla_european',
                                  'heston_cosine_price_vanilla_european', 'heston_lipton_price_vanilla_european', 'heston_price_vanilla_european', 'heston_simulate', 'heston_simulate_scalar'],
    'frm.pricing_engine.hw1f': ['HullWhite1Factor.__post_init__', 'HullWhite1Factor.calc_b', 'HullWhite1Factor.calc_discount_factor_by_solving_ode_1', 'HullWhite1Factor.calc_discount_factor_by_solving_ode_2',
                                'HullWhite1Factor.calc_discount_factor_by_solving_ode_3', 'HullWhite1Factor.calc_error_for_theta_fit', 'HullWhite1Factor.fit_theta', 'HullWhite1Factor.get_forward_rate_by_integration',
                                'HullWhite1Factor.get_thetas', 'HullWhite1Factor.jamshidian_decomposition', 'HullWhite1Factor.price_optionlet', 'HullWhite1Factor.price_swaption',
                                'HullWhite1Factor.price_zero_coupon_bond_option', 'HullWhite1Factor.setup_theta', 'HullWhite1Factor.simulate'],
    'frm.pricing_engine.monte_carlo_generic': ['generate_rand_nbs', 'normal_corr'],
    'frm.pricing_engine.sabr': ['calc_sln_vol_for_strike_from_sabr_params', 'fit_sabr_params_to_sln_smile', 'solve_alpha_from_sln_vol'],
    'frm.pricing_engine.volatility_generic': ['flat_forward_interp', 'forward_volatility'],
    'frm.term_structures.fx_helpers': ['fx_forward_curve_helper', 'fx_term_structure_helper', 'get_delta_smile_quote_details', 'interp_fx_forward_curve_df', 'validate_ccy_pair'],
    'frm.term_structures.fx_volatility_surface': ['FXVolatilitySurface.__post_init__', 'FXVolatilitySurface.interp_vol_surface', 'FXVolatilitySurface.plot_smile', 'FXVolatilitySurface.price_vanilla_european',
                                                  'FXVolatilitySurface.simulate_gbm_fx_rate_path', 'FXVolatilitySurface.simulate_heston_fx_rate_path'],
    'frm.term_structures.historical_swap_index_fixings': ['HistoricalSwapIndexFixings.__post_init__', 'RFRFixings.get_coupon_rates', 'TermFixings.index_historical_fixings'],
    'frm.term_structures.swap_curve': ['RFRSwapCurve.__post_init__', 'RFRSwapCurve.get_discount_factors', 'RFRSwapCurve.get_fixings', 'TermSwapCurve.__post_init__', 'TermSwapCurve.get_fixings'],
    'frm.term_structures.zero_curve': ['ZeroCurve.__post_init__', 'ZeroCurve.flat_shift', 'ZeroCurve.get_discount_factors', 'ZeroCurve.get_forward_rates', 'ZeroCurve.get_instantaneous_forward_rate', 'ZeroCurve.get_zero_rates',
                                       'ZeroCurve.index_daily_data', 'ZeroCurve.plot'],
    'frm.utils.business_day_calendar': ['convert_weekend_to_weekmask', 'get_busdaycal', 'get_holidays_object'],
    'frm.utils.daycount': ['convert_to_same_shape_datetimeindex', 'day_count', 'to_datetimeindex', 'year_frac'],
    'frm.utils.schedule': ['BaseSchedule.__post_init__', 'BaseSchedule.add_payment_dates', 'BaseSchedule.add_period_daycount', 'BaseSchedule.add_period_yearfrac', 'BaseSchedule.make_schedule', 'CouponSchedule.__post_init__',
                           'NotionalSchedule.__post_init__', 'NotionalSchedule.add_notional_schedule', 'create_date_grid_for_fx_exposures', 'generate_date_schedule', 'make_schedule'],
    'frm.utils.tenor': ['calc_implied_business_day_offset', 'check_day_offset_consistency', 'clean_tenor', 'get_fx_spot_day_offset', 'get_ir_settlement_offset', 'resolve_fx_curve_dates', 'tenor_to_date_offset', 'workday'],
    'frm.enums.utils': ['CompoundingFreq.calc_discount_factor_from_zero_rate', 'CompoundingFreq.calc_zero_rate_from_discount_factor', 'CompoundingFreq.convert_rate_to'],
}
# methods whose purpose is to change their object
SETTERS = {'fit_theta', 'setup_theta', 'add_payment_dates', 'add_period_daycount', 'add_period_yearfrac', 'make_schedule', 'add_notional_schedule', '__post_init__'}
# smiles solved on request are kept on the surface; that earlier requests do not matter is decided by P33
LAZY = {'FXVolatilitySurface'}


def program(c):
    p = getattr(c.world, '_effects', None)
    if p is None:
        p = c.world._effects = effects.Program(REPO).analyse()
    return p


def reach(p, f):
    """for the evidence: what the summary of an entry point was computed from"""
    seen, todo = set(), [f]
    import ast
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                d = effects.dotted(n.func)
                if d is None:
                    continue
                q = p.resolve(g.mod, d)
                last = d.split('.')[-1]
                for h in ([p.fns[q]] if q in p.fns else p.by_method.get(last, []) if '.' in d else []):
                    todo.append(h)
                if q in p.classes:
                    todo += [m for m in (p.method(p.classes[q], '__post_init__'), p.method(p.classes[q], '__init__')) if m is not None]
    return seen


def entries(c):
    p = program(c)
    for m, names in ENTRY.items():
        for n in names:
            yield p, m + '.' + n, p.fns.get(m + '.' + n)


def where(sites):
    return '; '.join('line %d: %s' % s for s in sorted(sites)[:3])


def note(c, p, f):
    fs = reach(p, f)
    c.functions |= fs
    c.sites += f.calls
    return fs


def gone(name):
    def ob():
        raise Undecided('%s is not there any more' % name)
    return ob


def p34(c):
    def run(p, q, f):
        def ob():
            note(c, p, f)
            for r, sites in sorted(f.mut.items()):
                if r.startswith(('self', 'global:')):
                    continue
                what = r[5:] + ', given when the object was made,' if r.startswith('ctor:') else r
                raise Mismatch('%s: the caller\'s %s may be changed in place at %s' % (q, what, where(sites)))
        return ob
    for p, q, f in entries(c):
        c.obligation(q, 'no array, frame, list or object passed in is changed in place on any path', run(p, q, f) if f is not None else gone(q))
    return 60


def p35(c):
    def pure(p, q, f):
        def ob():
            note(c, p, f)
            for r, sites in sorted(f.eff.items()):
                raise Mismatch('%s: the result depends on %s at %s' % (q, r, where(sites)))
            for r, sites in sorted(f.mut.items()):
                if r.startswith('global:'):
                    raise Mismatch('%s: %s, which outlives the call, is changed at %s' % (q, r[7:], where(sites)))
                if r in f.kept:
                    raise Mismatch('%s: the default of %s, one object for all calls, is changed at %s' % (q, r, where(sites)))
        return ob

    def query(p, q, f):
        def ob():
            note(c, p, f)
            for r, sites in sorted(f.mut.items()):
                if r.startswith('self'):
                    raise Mismatch('%s: asking changes the object (%s) at %s' % (q, r, where(sites)))
        return ob
    for p, q, f in entries(c):
        c.obligation('pure/' + q, 'the result depends on the arguments and the object only: no clock, file, environment, unseeded random numbers or state kept between calls', pure(p, q, f) if f is not None else gone(q))
        last = q.split('.')
        if len(last) > 3 and last[-2][0].isupper() and last[-1] not in SETTERS and last[-2] not in LAZY:
            c.obligation('query/' + q, 'asking for a result leaves the object as it was', query(p, q, f) if f is not None else gone(q))
    return 100
