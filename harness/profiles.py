"""Profiles of the random histories, one list per property (see gen.BASE for the parameters)."""

ALL = ['model', 'num', 'flag', 'foo', 'lst', 'up', 'txt', 'Geo', 'name', 'val', 'sub', 'dct', 'st', 'tup', 'any', 'fps', 'obj',
       'ctype', 'term', 'plst', 'pdct', 'ptup']
STR = ['model', 'txt', 'Geo', 'name', 'num', 'foo', 'up', 'fps', 'nb', 'path']
LOOK = dict(find_all=2, find_any=1, find_best=2, load=2, pickup=1, default=1, new=1)


def ops(**kw):
    return dict(LOOK, **kw)


def only(**kw):
    return kw


PROFILES = {
    'base': [dict()],
    'C01': [
        dict(ops=ops(cls=1, setup_defaults=.5, default=.5), attrs=['lst', 'dct', 'tup', 'plst', 'pdct', 'ptup', 'fps', 'sub'], p_outcast=.3,
             p_values=.7, p_bad=.1, nattr=(1, 3), classes=(2, 4), p_only=0, p_miss=.03, p_given_opt=.8, p_share=.3, p_allopt=.15),
        dict(ops=ops(cls=1, setup_defaults=1, clone=.5), attrs=ALL, p_only=.3, p_outcast=.2, p_values=.4, p_none=.08, p_bad=.2),
        dict(ops=ops(cls=1, setup_defaults=2, fp=.5), attrs=ALL, p_remap=.35, p_outcast=.3, p_values=.5, p_ref=.2, p_fpfirst=.3, p_allopt=.25),
        dict(ops=only(cls=1, find_any=2, load=2, find_best=2, pickup=1, default=2, col_discard=.7, col_add=.7, drop=.5),
             classes=(3, 6), tags=['alpha', 'beta'], p_abstract=.3, p_multitag=.4, p_only=.4, nattr=(1, 3)),
    ],
    'C02': [
        dict(ops=only(cls=1.5, find_all=5, find_any=1, load=1, query=1), classes=(3, 7), nattr=(1, 3), p_kind=.7, p_inherit=.5, p_allopt=.15),
        dict(ops=only(cls=1, find_all=4, find_any=1, find_best=1, query=1, setup_defaults=1, col_discard=.5, col_add=.7, drop=.3,
                      col_clear=.15, col_pop=.2),
             classes=(3, 6), tags=['alpha', 'beta'], p_multitag=.3, p_abstract=.3, p_redefine=.2, p_only=.3),
        dict(ops=only(find_all=4, find_best=1, load=1, query=1, revalue=3, cls=.5), p_valuer=.8, p_default=.9, p_optional=.9,
             p_given_opt=.2, classes=(1, 3), p_kind=.8, nattr=(1, 3), p_inherit=.5, p_values=.2, p_allopt=.3),
        dict(ops=only(cls=1, find_all=4, find_any=1, query=2), attrs=ALL, classes=(2, 5), nattr=(1, 2), kinds=['x'], p_alias=.4,
             p_given_alias=.5),
    ],
    'C03': [
        dict(ops=only(find_best=4, load=2, prio_order=3, resetlevel=1, setup_defaults=.5, pickup=.5), classes=(3, 6), nattr=(0, 2),
             kinds=['x'], p_level=.85, p_optional=.8, p_given_opt=.6, p_abstract=.05, p_values=.1, p_inherit=.5, p_miss=.02,
             p_bad=.03, p_junk=.3, events=(12, 18)),
        dict(ops=only(cls=1, find_best=4, load=2, prio=2, resetlevel=1, setup_defaults=1), classes=(3, 7), nattr=(1, 3), kinds=['x'],
             p_level=.7, p_optional=.9, p_given_opt=.5, p_default=.7, p_abstract=.05, p_values=.1, p_alias=.4, p_miss=.02, p_bad=.03,
             p_two=.4, p_partfp=.3),
    ],
    'C04': [
        dict(ops=ops(setup_defaults=4, setup_extras=.5, query=1), attrs=['model', 'num', 'flag', 'Geo', 'up', 'name', 'foo'],
             p_alias=.5, p_given_alias=.5, p_none=.15, p_optional=.6, p_default=.6, p_miss=.3, p_junk=.3, p_both=.3, p_nonedef=.3),
        dict(ops=ops(setup_defaults=3, query=1, revalue=2), attrs=ALL, p_alias=.3, p_none=.2, p_odd=.15, p_nonetext=.06, p_valuer=.5, p_optional=.7,
             p_ref=.15, p_miss=.2, p_both=.15),
    ],
    'C05': [
        dict(ops=ops(query=1, set=1), attrs=ALL, p_values=.5, p_outcast=.25, p_remap=.4, p_auto=.25, p_bad=.15, p_wrongtype=.15,
             p_cyclremap=.2, nattr=(1, 3)),
        dict(ops=ops(cls=1, fp=.5, query=2), attrs=['num', 'up', 'foo', 'sub', 'ctype', 'val', 'flag', 'fps', 'term'], p_values=.6,
             p_outcast=.3, p_remap=.5, p_auto=.3, p_bad=.12, p_wrongtype=.2, p_fpfirst=.3, nattr=(2, 4), p_inherit=.5),
    ],
    'C06': [
        dict(ops=only(find_all=2, find_best=2, load=2, new=2, setup_defaults=1, setup_extras=1, setup_extended=.3), attrs=STR,
             p_ref=.75, p_default=.8, p_optional=.7, p_given_opt=.6, p_falsy=.25, p_feed=.9, p_near=.85, p_acyclic=.95, p_miss=.02, p_bad=.03, p_only=.05, p_none=.02, p_wrongtype=.02, p_odd=.12, p_extname=.25, classes=(1, 3), nattr=(2, 6),
             p_junk=.4, p_values=.08, p_remap=.1, p_badref=.03),
        dict(ops=only(find_all=2, load=2, new=3, setup_extras=1, setup_defaults=.5, drop=.15), attrs=STR + ['obj', 'any'], p_ref=.6,
             p_default=.8, p_optional=.7, p_given_opt=.6, p_falsy=.25, p_feed=.9, p_near=.5, p_acyclic=.95, p_miss=.02, p_bad=.03, p_only=.05, p_none=.02, p_wrongtype=.02, p_odd=.1, p_extname=.4, classes=(2, 4), nattr=(2, 4), p_junk=.6,
             p_values=.05),
        dict(ops=only(find_all=2, load=2, new=2, setup_extras=1), attrs=['model', 'txt', 'name', 'num', 'foo'], p_ref=.8,
             p_default=1, p_optional=.9, p_given_opt=.3, p_falsy=.25, p_feed=.9, p_near=.85, p_acyclic=.95, p_miss=.02, p_bad=.03, p_only=.05, p_none=.02, p_wrongtype=.02, p_odd=.3, classes=(1, 2), nattr=(3, 5), p_junk=.5, p_extname=.3,
             p_remap=.4, p_values=0, p_outcast=0),
    ],
    'C07': [
        dict(ops=only(find_all=2, load=2, new=2, setup_extras=1), p_chain=.9, classes=(1, 2), p_inherit=.1, events=(6, 9),
             p_ref=.2, p_abstract=.02),
        dict(ops=only(find_all=2, find_best=1, load=2, new=2, setup_extras=2, setup_defaults=1, setup_extended=.3),
             attrs=['model', 'txt', 'name', 'Geo', 'path'], p_ref=.9, p_cycle=.3, p_acyclic=.4, p_default=.9, p_optional=.8, classes=(1, 3),
             nattr=(2, 5), p_junk=.6, p_values=.05, p_extname=.4),
        dict(ops=ops(query=1), attrs=['num', 'up', 'foo', 'model', 'txt'], p_remap=.8, p_cyclremap=.7, p_values=.3, classes=(2, 3)),
    ],
    'C08': [
        dict(ops=ops(query=1, setup_defaults=1.5), attrs=['model', 'num', 'up', 'txt', 'val', 'Geo', 'term', 'flag'], p_only=.9,
             p_values=.15, nattr=(2, 4), p_alias=.2, p_optional=.6, p_default=.7),
        dict(ops=only(cls=1, find_all=3, load=2, query=2, setup_defaults=2, fp=.5), attrs=['model', 'num', 'txt', 'fps', 'foo'],
             p_only=.9, p_values=.1, nattr=(1, 3), p_two=.5, p_partfp=.4, p_inherit=.6, p_fpfirst=.3, p_level=.2),
    ],
    'C09': [
        dict(ops=only(cls=5, fp=3, query=1, find_all=.5, load=.5), classes=(2, 12), attrs=ALL, p_inherit=.7, p_multibase=.5,
             p_partfp=.6, p_two=.5, p_only=.4, p_level=.4, p_alias=.3, p_remap=.4, p_fpfirst=.5, p_info=.3, p_shape=.4, p_auto=.2,
             p_values=.4, p_outcast=.2, p_abstract=.2),
        dict(ops=only(cls=5, fp=4, query=1, load=.5, resetlevel=.5), classes=(2, 12), attrs=['up', 'num', 'dct', 'foo', 'model'],
             p_inherit=.8, p_multibase=.6, p_partfp=.8, p_two=.6, p_only=.5, p_remap=.5, p_fpfirst=.6, p_shape=.4, p_auto=.4,
             p_values=.5, nattr=(1, 2), p_default=.8, p_optional=.8),
    ],
    'C10': [
        dict(ops=only(cls=6, find_all=1, load=1, new=1, filter=.5, proxyhas=.5), classes=(2, 12), tags=['alpha', 'beta', 'gamma'],
             p_abstract=.35, p_multitag=.5, p_noexplicit=.25, p_clash=.2, p_inherit=.6, p_multibase=.4, p_alias=.3, nattr=(0, 3),
             p_kind=.6, p_optional=.7),
        dict(ops=only(cls=6, find_all=1, load=1, new=1, query=.5, fp=1), classes=(2, 12), tags=['alpha', 'beta'], p_abstract=.3,
             p_multitag=.4, p_noexplicit=.3, p_clash=.3, p_inherit=.6, p_redefine=.3, nattr=(0, 2), p_kind=.4, p_optional=.9),
    ],
    'C11': [
        dict(ops=only(new=2, load=2, set=5, **{'del': 2}, clone=.7, copy=.7, deepcopy=.5, pickle=.3, export=.3, drop=.3, raw=.7),
             attrs=ALL, access=['rxx', 'rwx', 'rwd', 'rwd'], p_bad=.25, p_values=.35, p_outcast=.2, events=(14, 20), nattr=(2, 5)),
        dict(ops=only(new=2, load=2, set=5, **{'del': 2}, mkfoo=1.5, dropfoo=1, drop=1, clone=.5, copy=.5),
             attrs=['weak', 'wobj', 'obj', 'num', 'up', 'foo', 'weak'], access=['rxx', 'rwx', 'rwd'], events=(16, 24), nattr=(2, 4),
             p_optional=.7, p_given_opt=.8, p_values=.35),
    ],
    'C12': [
        dict(ops=only(prio=10), classes=(0, 0), events=(25, 40)),
        dict(ops=only(prio=10, find_best=1, cls=.5, resetlevel=.5), classes=(1, 3), kinds=['x'], nattr=(0, 1), p_level=.8, events=(20, 30)),
    ],
    'C13': [
        dict(ops=only(cls=1, find_all=4, find_best=1, fasttrack=2, col_discard=1, col_add=.7, col_clear=.1, col_pop=.2),
             classes=(3, 6), attrs=['model', 'num', 'foo'], p_values=.55, p_remap=.08, p_alias=.15, p_ref=.03, p_abstract=.03,
             p_optional=.2, nattr=(1, 2), p_bad=.05, p_miss=.03, p_outcast=.05, p_gone=.3, p_only=.05, kinds=['x'], p_junk=.1,
             events=(12, 18), p_wrongtype=.02, p_inherit=.5),
        dict(ops=only(cls=2, find_all=4, find_best=1, fasttrack=3, col_discard=.7, col_add=.5), classes=(3, 7), attrs=['model', 'num', 'up'], p_upargs=.5,
             p_wrongtype=.3, p_values=.85, p_optional=.1, p_inherit=.2, p_only=.03, nattr=(2, 3), p_abstract=.02, p_ref=.03, p_bad=.1,
             p_outcast=.03, p_remap=.1, p_gone=.2, kinds=['x'], p_kind=.5, p_junk=.1),
        dict(ops=only(cls=.5, find_all=1, fasttrack=2, col_discard=2, col_add=2, discard=.5), p_after=.9, p_share=.7, classes=(3, 6),
             attrs=['model', 'num', 'foo'], p_values=.4, p_remap=.05, p_ref=0, p_abstract=.03, p_optional=.4, p_given_opt=.8,
             nattr=(1, 2), p_bad=.03, p_miss=.02, p_outcast=.02, p_only=0, p_kind=.2, p_junk=.1, p_wrongtype=.02, events=(12, 18),
             p_odd=0, p_alias=.05),
        dict(ops=only(cls=1, find_all=3, find_best=2, load=1, default=.5, fasttrack=2.5, col_discard=.7, col_add=.7, col_clear=.2, col_pop=.3,
                      discard=.3, setup_defaults=.5), classes=(3, 6), attrs=['model', 'num', 'up', 'flag', 'fps', 'foo', 'lst'],
             p_values=.6, p_remap=.25, p_alias=.25, p_ref=.1, p_abstract=.05, p_optional=.3, nattr=(1, 3)),
        dict(ops=only(cls=.7, find_all=3, find_best=2, load=1, pickup=.5, setup_fastmode=1.5, setup_fastkeys=1.5, setup_report=1,
                      col_report=1, setup_neutral=1, fasttrack=.7),
             classes=(2, 5), attrs=['model', 'num', 'up', 'flag', 'foo', 'txt'], p_values=.4, p_ref=.15, p_miss=.12, p_bad=.2,
             p_abstract=.05, p_only=.25),
        dict(ops=only(find_all=3, find_best=2, find_any=1, setup_fastmode=.5, setup_report=.5, col_report=.5, fasttrack=.7,
                      setup_defaults=.3), p_cache=.7, p_rerun=.7, classes=(2, 5), p_values=.4, p_ref=.15, p_bad=.2, p_abstract=.05,
             p_valuer=.2, p_junk=.4),
        dict(ops=only(find_all=3, find_best=3, find_any=1, setup_extras=.5, setup_defaults=.3, setup_extended=.2), p_cache=1, p_rerun=.9,
             classes=(1, 3), p_ref=.8, p_extname=.9, p_junk=.8, p_default=.9, p_optional=.8, p_given_opt=.3, nattr=(1, 3),
             attrs=['model', 'txt', 'name', 'path'], p_values=.05, p_bad=.03, p_miss=.03, p_badref=0),
        dict(ops=only(cls=1, find_all=5, find_best=1, fasttrack=1.5, col_discard=.5, col_add=.4), classes=(3, 5), attrs=['up', 'num'],
             p_upargs=.5, p_values=.9, p_optional=.03, p_inherit=.1, p_only=0, nattr=(1, 2), p_abstract=.02, p_ref=.02, p_bad=.04, p_outcast=0,
             p_remap=.03, p_gone=.1, kinds=['x'], p_kind=.3, p_junk=.05, p_wrongtype=.02, p_miss=.02, p_share=.5, p_alias=.05, p_none=.02, p_allopt=.02,
             p_level=.05),
    ],
    'C14': [
        dict(p_empty=.35, ops=only(new=2, load=2, default=3, drop=2, grep=2, clone=.7, copy=.7, deepcopy=.5, pickle=.5, find_best=.5, cls=.3,
                      aclone=.3, set=.7, export=.7, **{'del': .2}),
             tags=['alpha', 'beta'], p_multitag=.4, p_reusable=.4, p_inherit=.5, classes=(2, 4), nattr=(1, 3), p_optional=.6,
             events=(14, 22), access=['rxx', 'rwx', 'rwd']),
        dict(p_empty=.35, ops=only(new=2, load=2, default=3, drop=2, grep=2, col_discard=.7, col_add=.5, col_clear=.2, cls=.7, copy=.4, pickle=.3,
                      setup_defaults=.5),
             attrs=['obj', 'num', 'model', 'foo', 'any'], tags=['alpha', 'beta'], p_redefine=.3, p_multitag=.4, classes=(2, 5),
             nattr=(1, 2), events=(14, 22)),
    ],
    'C15': [
        dict(p_empty=.35, p_both=.2, ops=only(cls=.5, pickup=6, load=1, setup_defaults=.5, drop=.3), p_alias=.4, p_given_alias=.5, p_hidden=.4, p_junk=.5,
             p_miss=.1, tags=['alpha', 'beta'], p_multitag=.2, classes=(2, 4)),
        dict(p_empty=.35, p_both=.2, ops=only(pickup=6, load=1, setup_report=.5, col_report=.5, setup_neutral=.5, fasttrack=.3), p_alias=.4, p_hidden=.4,
             p_junk=.6, p_miss=.25, p_bad=.2, p_only=.2, classes=(1, 3), attrs=['model', 'num', 'up', 'foo', 'txt', 'Geo']),
    ],
    'C16': [
        dict(ops=only(cls=.5, find_all=3, find_best=1, find_any=1, load=2, pickup=1, setup_report=.3, col_report=.5, setup_defaults=.5,
                      report=.5, setup_fastmode=.15, setup_fastkeys=.5, fasttrack=.3),
             p_report=.8, attrs=ALL, p_only=.35, p_values=.45, p_outcast=.25, p_bad=.3, p_miss=.2, p_none=.08, classes=(2, 5),
             p_redefine=0, p_abstract=.05, p_odd=.08, p_nonetext=.06),
        dict(ops=only(find_all=3, find_best=1, find_any=1, load=2, pickup=1, col_report=.3, setup_report=.3, setup_extras=.3),
             p_report=.8, p_ref=.25, p_bad=.25, p_miss=.15, attrs=['num', 'up', 'foo', 'ctype', 'obj', 'txt', 'val', 'model'],
             p_values=.5, p_outcast=.4, p_remap=.3, classes=(1, 4), p_only=.3, p_odd=.1, p_nonetext=.08, kinds=['x'], p_optional=.6,
             p_default=.8, p_badref=.01, p_cycle=0),
    ],
    'C20': [
        dict(ops=only(cls=1, new=3, load=1, clone=1.5, export=4, set=1), attrs=['foo', 'sub', 'obj', 'num', 'dct', 'st', 'model', 'lst'],
             p_hooks=.6, p_inherit=.6, classes=(2, 5), nattr=(2, 4), access=['rwx', 'rxx'], p_values=.1, p_optional=.7, p_given_opt=.8),
        dict(ops=only(new=2, load=2, clone=2, copy=2, deepcopy=2, pickle=2, aclone=1, export=2, set=2, **{'del': .7}, drop=.5,
                      find_all=.3), attrs=ALL, access=['rxx', 'rwx', 'rwd', 'rwd'], events=(14, 20), nattr=(2, 5), classes=(1, 3),
             p_optional=.6),
        dict(ops=only(new=3, load=1, clone=2, copy=1, deepcopy=2, pickle=2, aclone=1, export=3, copymess=1.5, set=2, **{'del': .5}),
             p_nest=.5, attrs=['lst', 'dct', 'st', 'obj', 'any', 'foo', 'tup', 'num'], access=['rwx', 'rwd'], events=(14, 20), nattr=(2, 4),
             classes=(1, 3), p_values=.1, p_given_opt=.8),
    ],
    'C26': [
        dict(ops=only(cls=5, fp=5, query=1, load=.5, new=.5), classes=(2, 10), attrs=['model', 'num', 'up', 'foo'], nattr=(0, 2), p_deco=.6,
             p_partfp=.3, p_inherit=.6, p_multibase=.4, p_fpfirst=.7, p_only=.1, p_bare=.3, p_optional=.8, p_more=.3),
        dict(ops=only(cls=3, fp=6, doc=1), classes=(2, 8), attrs=['model', 'num'], nattr=(0, 1), p_deco=.9, p_partfp=.2, p_inherit=.5, p_bare=.3,
             p_fpfirst=.8, p_optional=.9, p_abstract=.3),
    ],
    'C27': [
        dict(ops=only(query=5, values=1, attrmap=1, show=2, doc=2, cls=1, fp=1, setup_defaults=.3, revalue=.3, load=.3, resetlevel=.3),
             attrs=ALL, p_deco=.25, p_more=.7, p_both=.3, p_vis=.6, p_info=.5, p_alias=.4, p_given_alias=.5, p_outcast=.3, p_values=.4, classes=(2, 6), p_inherit=.5,
             p_junk=.5, p_only=.4, nattr=(2, 5), p_remap=.2, p_fpfirst=.3, events=(14, 20)),
        dict(ops=only(show=3, values=1, attrmap=2, listing=3, levels=2, cls=1, col_discard=.5, col_add=.5, load=1, new=1, drop=.5,
                      prio_order=.5, resetlevel=.7, query=.5),
             classes=(3, 7), tags=['alpha', 'beta'], p_multitag=.4, p_optional=.5, p_more=.5, p_vis=.3, p_redefine=.2, p_level=.6,
             nattr=(1, 3), p_abstract=.2, events=(14, 20)),
    ],
    'C21': [
        dict(ops=only(cls=1.5, listing=5, tag=1, proxy=.5, load=1, new=1, default=.5, drop=.7, col_discard=.4, col_add=.4, col_pop=.3),
             tags=['alpha', 'beta', 'gamma'], p_via=.3, classes=(2, 6), p_multitag=.4, nattr=(1, 2), p_abstract=.2),
        dict(ops=only(cls=1.5, tag=2, proxy=2, proxyhas=2, addproxy=2, load=1, pickup=.7, default=.7, grep=.7, find_best=.5),
             tags=['alpha', 'beta', 'gamma'], p_via=.8, classes=(1, 6), p_multitag=.3, nattr=(1, 2)),
    ],
    'C22': [
        dict(ops=only(setup_defaults=2, setup_named=10, setup_lookup=1, setup_extended=1.2, setup_fastmode=.8, setup_report=.4, setup_neutral=.4, setup_fastkeys=.4, setup_extras=.3, load=.3), classes=(1, 2),
             p_derive=.35, attrs=['model', 'num', 'Geo', 'up'], p_given_opt=.2, p_miss=.3),
        dict(ops=only(setup_defaults=4, setup_named=6, setup_lookup=2, load=1, find_all=1, new=1, query=.5), classes=(1, 3),
             attrs=['model', 'num', 'Geo', 'up', 'name', 'flag'], p_miss=.4, p_only=.3, p_alias=.2, p_given_opt=.2, p_ref=.1),
    ],
    'C23': [
        dict(ops=ops(cls=.7, pickup=1, setup_defaults=.7, setup_extras=.3, set=.5, query=.7, aclone=.5, clone=.5), attrs=ALL,
             p_rerun=.5, p_junk=.4, p_bad=.25, p_miss=.15, p_ref=.2, p_default=.8, p_only=.2, p_remap=.2),
        dict(ops=ops(setup_defaults=.7, setup_extras=.7, setup_report=.5, fasttrack=.5, setup_fastmode=.2), p_rerun=.7, p_junk=.5,
             attrs=['lst', 'dct', 'st', 'obj', 'any', 'foo', 'txt', 'num'], p_ref=.3, p_valuer=.2, p_default=.9, p_optional=.7,
             p_given_opt=.5, p_badref=.1, p_values=.1),
    ],
    'C24': [
        dict(ops=only(cls=1, filter=3, discard=1.5, resetlevel=2, col_discard=1, col_add=2, col_clear=.3, col_pop=.5, values=1, attrmap=1,
                      prio_order=1.5, new=1, find_all=1, grep=.3, drop=.2, show=.7, classes=.7, levels=1),
             classes=(3, 7), tags=['alpha', 'beta'], p_multitag=.4, p_level=.6, p_reusable=.4, p_abstract=.2, p_values=.5,
             p_outcast=.3, nattr=(1, 3), events=(14, 20)),
    ],
}
