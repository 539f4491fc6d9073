from vx import unit
import c_hash_table as ht
PRE = ['prelude_core.rs', 'lemmas_perm.rs']
unit('hash_table', [ht.STRUCTS, ht.VERIFIED], PRE)
import c_hash_code as hc
unit('hash_code', [hc.STRUCTS, hc.VERIFIED], PRE)
import c_maps as mp, c_traits as tr
LT = tr.LEN_TRAIT
PREK = PRE + ['prelude_keys.rs']
for k in mp.KINDS.values():
    unit('lookup_' + k.name, [LT, ht.STRUCTS, ht.ASSUMED, mp.structs(k), mp.lookups(k)], PREK)
    unit('getmut_' + k.name, [LT, ht.STRUCTS, ht.ASSUMED, mp.structs(k), mp.lookups(k, 'assume'), ('fn', k.path, k.name + '::get_mut')], PREK)
    unit('new_' + k.name, [LT, ht.STRUCTS, ht.ASSUMED, hc.STRUCTS, hc.ASSUMED, mp.structs(k), ('fn', k.path, mp.new_fn(k))], PREK)
import c_small as sm
unit('scanning', [LT, sm.SC_STRUCTS, sm.sc()], PREK)
unit('range', [LT, sm.RG_STRUCTS, ('fn', sm.RG, 'offset_from'), sm.rg()], PREK)
import c_iters as ci
PREI = PREK + ['prelude_iter.rs']
unit('map_iters', [LT, ci.map_iters()], PREI)
import c_view as cv
for v in cv.VIEW.values(): unit('view_' + v.name, cv.unit_parts(v), PREI)
import c_sets as cs
PRES = PREI + ['prelude_sets.rs']
unit('set_iters', [LT, cs.set_iters(), cs.set_trait()], PRES)
for s in cs.SETS.values(): unit('set_' + s.name, cs.unit_parts(s), PRES)
for s in cs.SETS.values(): unit('newset_' + s.name, cs.ctor_parts(s), PRES)
import c_algebra as ca
PREA = PRES + ['prelude_algebra.rs']
for n in ca.REM: unit('alg_' + n, [LT, cs.set_trait(), ca.alg_iter(n)], PREA)
unit('relations', [LT, cs.set_trait()] + [('fn', ca.OPS, f) for f in ('is_disjoint', 'is_subset', 'is_superset')], PREA)
unit('set_defaults', [LT, cs.set_trait()] + [ca.alg_assumed(n) for n in ca.REM] + [('assume', ca.OPS, f) for f in ('is_disjoint', 'is_subset', 'is_superset')] + [('trait_defaults', cs.SETRS, 'Set', cs.DEFAULTS)], PREA)
for path, name in ca.OPSETS:
    unit('ops_' + name, [LT, cs.set_trait()] + [ca.alg_assumed(n) for n in ca.REM] + [('trait_defaults_assume', cs.SETRS, 'Set', ('union', 'symmetric_difference', 'difference', 'intersection')), ca.operators(path, name)], PREA)
unit('std_sets', [LT, cs.set_trait(), ca.STD, ca.STDFNS], PREA)
import c_analyzers as an
unit('int_keys', [LT] + an.IK_PARTS, PREI)
unit('slice_keys', [LT] + an.SK_PARTS, PREI)
unit('len_impls', [tr.STD, LT, tr.LEN_IMPLS], [])
unit('slice_hash', [tr.STD, tr.SH_PARTS], [])
import c_facade as fa
PREF = PREI + ['prelude_many.rs', 'prelude_facade.rs']
import c_many as mm

unit('frozen_map', [LT, fa.frozen_map()], PREF)
PREG = PRES + ['prelude_facade.rs']
unit('frozen_set', [LT, fa.frozen_set()], PREG)
unit('set_totals', [LT, fa.set_totals()], PREG)
PREM = PREK + ['prelude_many.rs']
for k in mp.KINDS.values():
    unit('many_' + k.name, [LT, ht.STRUCTS, ht.ASSUMED, mp.structs(k), mp.lookups(k, 'assume'), ('fn', k.path, k.name + '::get_many_mut')], PREM)
unit('many_ScanningMap', [LT, sm.SC_STRUCTS, sm.sc('assume', ('get',)), ('fn', sm.SC, 'ScanningMap::get_many_mut')], PREM)
unit('many_IntegerRangeMap', [LT, sm.RG_STRUCTS, sm.rg('assume', ('get',)), ('fn', sm.RG, 'IntegerRangeMap::get_many_mut')], PREM)
import c_show as sh
SHOW = 'prelude_show.rs'
unit('show_table', [LT] + sh.table(), PREI + [SHOW])
for n, v in cv.VIEW.items(): unit('show_' + n, [LT] + sh.a_map(v), PREI + [SHOW])
for n, s in cs.SETS.items(): unit('show_' + n, [LT] + sh.a_set(s), PRES + [SHOW])
unit('show_map_iters', [LT] + sh.iters(), PREI + [SHOW])
unit('show_set_iters', [LT, cs.set_trait()] + sh.siters(), PRES + [SHOW])
for n in ca.REM: unit('show_' + n, [LT] + sh.alg(n), PREA + [SHOW])
unit('show_FrozenMap', [LT] + sh.frozen_map(), PREF + [SHOW])
unit('show_FrozenSet', [LT] + sh.frozen_set(), PREG + [SHOW])
import c_macro as ma
unit('macro_text', [LT] + ma.front(), PREI + ['prelude_facade.rs', 'prelude_macro.rs'])
unit('macro_programs', [LT] + ma.programs(), PREI + ['prelude_facade.rs', 'prelude_macro.rs'])
