"""What decides each property: jobs, and the clauses of the specification which are relevant to it."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    'TLC evaluates the specification correctly',
    'the projection of the values and of the session state by harness/executor.py is faithful (values of other kinds than '
    'the ones of FPVal.tla never appear in the histories)',
    'histories are bounded (sizes in harness/profiles.py) and sampled with VERIF_SEED',
]


TECHNIQUE = 'explicit TLA+ specification checked with TLC: trace validation of histories run on the real library'
NOTE = ('Every recorded history of public calls (results and observed state after each call) is checked by TLC to be a behaviour of the '
        'TLA+ specification of the session. Bounded: sampled histories, with the value kinds and sizes of harness/gen.py; trusts the '
        'encoding of values and state by harness/executor.py, and TLC.')


def session(profile, n=720, **kw):
    return dict(script='runner.py', args=[profile], module='Trace', n=n, **kw)


LOOKUP = {'find-all', 'find-any', 'find-best', 'load', 'pickup', 'default', 'almost-clone', 'instantiation', 'clone', 'couldbe',
          'couldbe-error', 'couldbe-rejected', 'couldbe-result'}
STATE = {'state-footprint', 'state-collector', 'state-new-collector', 'state-instances', 'state-levels', 'state-defaults',
         'state-object', 'state-proxy'}
DEFS = {'class-definition', 'class-definition-error', 'footprint-definition', 'footprint-definition-error'}
QUERIES = {'mandatory', 'optional', 'allkeys', 'values', 'level'}
ATTR = {'assignment', 'assignment-refused', 'deletion', 'deletion-refused'}
COPIES = {'copy-failed', 'copy-objects', 'clone', 'clone-extra', 'almost-clone', 'export-failed', 'export-dict', 'export', 'undefs'}
PICKUP = {'pickup', 'load', 'pickup-given', 'load-given', 'pickup-description', 'pickup-given-description', 'description-changed'}
PRIO = {'priority-error', 'priority-failed', 'priority-result', 'state-levels'}
COLS = {'filter', 'filter-level', 'discard', 'discard-level', 'reset-level', 'reset-level-unknown', 'collector-discard', 'collector-add', 'collector-clear',
        'collector-pop', 'collector-pop-empty', 'fasttrack', 'report-level', 'get-values-failed', 'get-values-missing',
        'get-values-extra', 'get-values-order', 'attrmap', 'attrmap-failed'}
REPORTS = {'report-unexpected', 'report-absent', 'report-views', 'report-whynot', 'report-classes', 'report-missing-class',
           'report-printed', 'report-args', 'report-false-reason', 'report-no-reason', 'report-missing-value'}
NAMES = {'collector-tag', 'proxy-unknown', 'proxy-collector', 'proxy-load', 'proxy-contains', 'add-proxy', 'state-proxy',
         'state-new-collector'}
SETUP = {'setup-del-unknown', 'setup-defaults', 'setup-get', 'setup-extras', 'setup-extended', 'setup-fastmode', 'setup-fastkeys',
         'setup-report', 'setup-neutral', 'setup-derive', 'setup-lookup', 'setup-lookup-unknown', 'state-defaults'}

LISTS = {'listing', 'listing-failed', 'listing-objects', 'listing-classes'}
SHOWS = {'show-failed', 'show-keys', 'show-map', 'levels-table', 'levels-table-refused', 'get-values-failed', 'get-values-missing',
         'get-values-extra', 'get-values-order', 'attrmap', 'attrmap-failed'}
DOC = {'doc-failed', 'doc-attributes', 'doc-content', 'doc-order', 'doc-only', 'doc-alias', 'doc-header'}
CLSQ = {'outcast', 'access', 'info', 'class-kind', 'class-name', 'class-flags', 'footprint-copy', 'track'}
DECO = {'decorators', 'decorators-refused', 'class-decorators'}
RELEVANT = {
    'C26': DECO | DEFS | {'state-footprint'},
    'C27': CLSQ | QUERIES | SHOWS | DOC | LISTS | {'state-footprint'},
    'C01': LOOKUP | {'state-object'},
    'C02': LOOKUP | DEFS | {'state-collector'},
    'C03': LOOKUP | {'reset-level', 'reset-level-unknown', 'state-levels', 'state-footprint', 'level'} | PRIO,
    'C04': LOOKUP,
    'C05': LOOKUP | DEFS | ATTR | QUERIES | {'state-object', 'state-footprint'},
    'C06': LOOKUP,
    'C07': LOOKUP,
    'C08': LOOKUP | DEFS,
    'C09': DEFS | QUERIES | LOOKUP | {'state-footprint'},
    'C10': DEFS | LOOKUP | {'state-collector', 'state-new-collector', 'state-instances', 'filter', 'filter-level', 'proxy-contains'},
    'C11': ATTR | COPIES | {'unauthorised', 'state-object', 'instantiation', 'state-footprint', 'load', 'copy-failed', 'state-instances'},
    'C12': PRIO | LOOKUP | {'level'},
    'C13': LOOKUP | COLS | SETUP | {'state-collector'},
    'C14': {'state-instances', 'grep', 'grep-failed', 'default', 'default-instance', 'state-object', 'load', 'instantiation',
            'clone', 'almost-clone', 'copy-failed', 'copy-objects', 'find-best'},
    'C15': PICKUP | LOOKUP,
    'C16': REPORTS | LOOKUP,
    'C20': COPIES | ATTR | {'state-object', 'state-instances', 'instantiation'},
    'C21': NAMES | LISTS | {'load', 'pickup', 'default', 'grep', 'find-best', 'grep-failed', 'load-given', 'pickup-given', 'default-instance',
                    'state-collector'},
    'C22': SETUP | LOOKUP,
    'C23': LOOKUP | STATE | {'description-changed', 'pickup-description', 'default-instance'},
    'C24': COLS | SHOWS | LOOKUP | {'listing-classes', 'state-collector', 'state-instances', 'state-footprint', 'grep', 'level'},
}
ANYWAY = {'observation', 'not-evaluable'}     # the real library could not be observed, or gave an impossible state

LOG = {'log-creation', 'log-add', 'log-add-refused', 'log-current', 'log-clear', 'log-reduce', 'log-drop', 'log-dict', 'log-xml',
       'log-xml-last', 'log-whynot', 'log-last', 'log-items', 'log-names', 'log-weak', 'log-bound', 'log-content'}
EXP = {'expand-error', 'expand-failed', 'expand-results', 'expand-given', 'expand-shared'}
GLOB = {'glob-error', 'glob-failed', 'glob-results', 'glob-given', 'glob-shared'}
STD = {'std-' + x for x in ('creation', 'change', 'equality', 'hash', 'unhashable', 'key', 'items', 'in', 'copy', 'export', 'through', 'expand',
                            'regex', 'values')}
RELEVANT.update({'C17': LOG, 'C18': EXP, 'C19': GLOB, 'C25': STD})


def small(model, module, n=2400, **kw):
    return dict(script='small.py', args=[model], module=module, n=n, chunk=400, **kw)


READY = sorted(RELEVANT)
CHECKS = {p: dict(jobs=[session(p)]) for p in READY}
MORE = {
    'C01': [dict(mc='MC_Session')], 'C02': [dict(mc='MC_Session', cfg='MC_SessionDeep', quick=False, timeout=3000)],
    'C03': [dict(mc='MC_Session'), dict(mc='MC_Prio')], 'C05': [dict(mc='MC_Resolve', quick=False, timeout=1800)],
    'C06': [dict(mc='MC_Resolve', cfg='MC_ResolveThree'), dict(mc='MC_Resolve', quick=False, timeout=1800)],
    'C07': [dict(mc='MC_Resolve', cfg='MC_ResolveThree'), dict(mc='MC_Resolve', quick=False, timeout=1800)],
    'C09': [dict(mc='MC_Def'), dict(mc='MC_Def', cfg='MC_DefWide', quick=False, timeout=3000)],
    'C10': [dict(mc='MC_Session')], 'C11': [dict(mc='MC_Session')],
    'C12': [dict(mc='MC_Prio'), dict(mc='MC_Prio', cfg='MC_PrioWide', quick=False)],
    'C14': [dict(mc='MC_Session')], 'C15': [dict(mc='MC_Session')], 'C20': [dict(mc='MC_Session')],
    'C23': [dict(mc='MC_Session'), dict(mc='MC_Session', cfg='MC_SessionDeep', quick=False, timeout=3000)],
}
for _p in MORE:
    CHECKS[_p]['jobs'] += MORE[_p]
CHECKS['C17'] = dict(jobs=[small('log', 'TraceLog'),
                           dict(gen='GenLog', script='small.py', args=['log'], module='TraceLog', n=800, depth=24),
                           dict(mc='MC_Log')])
EXPANSIONS = [dict(gen='GenExpand', script='small.py', args=['expand'], module='TraceExpand', n=480, depth=300),
              dict(mc='MC_Expand'), dict(mc='MC_Expand', cfg='MC_ExpandAll', quick=False),
              dict(mc='MC_Expand', cfg='MC_ExpandWide', quick=False, timeout=1800)]
CHECKS['C18'] = dict(jobs=[small('lists', 'TraceExpand', n=1200)] + EXPANSIONS)
CHECKS['C25'] = dict(jobs=[small('std', 'TraceStd'), dict(mc='MC_Std')])
CHECKS['C19'] = dict(jobs=[small('globs', 'TraceExpand', n=800), EXPANSIONS[0]])


def relevant(prop, b):
    """Is a mismatch relevant to a property?"""
    if b['why'] in ANYWAY:
        return True
    ev = b['history']['ev']
    if b['ev'] <= len(ev) and ev[b['ev'] - 1].get('res', {}).get('k') == 'hang':
        return True
    return b['why'] in RELEVANT[prop]


def strip(ev):
    """The command of an event."""
    return {k: v for k, v in ev.items() if k not in ('res', 'obs', 'dpost', 'map')}


def known_findings(prop):
    """The recorded findings of a property: lines `known: property=C.. clause=... op=... key=... <what>`."""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if not line.startswith('known: property=%s ' % prop):
                continue
            words = line.split(None, 4)
            clause, key, what = words[2].split('=', 1)[1], words[3].split('=', 1)[1], words[4].strip()

            def match(b, clause=clause, key=key):
                ev = b['history']['ev']
                return b['why'] == clause and b['ev'] <= len(ev) and ev[b['ev'] - 1].get('finding') == key
            out.append(dict(match=match, what=what))
    return out
