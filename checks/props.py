"""registry: property -> check"""
from .common import *


def _c01(rep):
    from . import files
    files.check_write(rep)
    for absent in (('XC',), ('XG', 'RAC'), ('DXF', 'DYC', 'DYG')):
        files.check_write(rep, absent)


def _c02(rep):
    from . import files
    files.check_read(rep)
    files.check_read(rep, TRUE, 'strict ')


def _c03(rep):
    from . import cli
    cli.strict_forwarding(rep)


def _g(name, module='gridchecks'):
    def f(rep):
        import importlib
        getattr(importlib.import_module('checks.' + module), name)(rep)
    return f


CHECKS = {'C01': _c01, 'C02': _c02, 'C03': _c03}
for n in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15'):
    CHECKS[n] = _g(n)


VALUE = ('abstract interpretation with value numbering of symbolic arrays; obligations decided by term identity or random interpretation',
         'Holds for every size, subdivision level and input value, at the first, interior and last rows and columns of every field, assuming the abstract semantics of Python, numpy and pyproj '
         'in sgflow/lib.py and the specification terms in checks/. Real arithmetic: rounding is not modelled. Term pairs without the same value number are compared in random models of the '
         'terms, which can miss a difference with small probability. Obligations the analysis cannot resolve are reported UNDECIDED in the evidence, not as violations.')
TECH = {None: VALUE}


for n in ('C18', 'C19', 'C20', 'C21', 'C22'):
    CHECKS[n] = _g(n, 'tiles')
CHECKS['C23'] = _g('C23', 'cli')
CHECKS['C10'] = _g('C10', 'sources')
for n in ('C32', 'C33'):
    CHECKS[n] = _g(n, 'meta')
for n in ('C24', 'C25', 'C26'):
    CHECKS[n] = _g(n, 'effects')
CHECKS['C34'] = _g('C34', 'tiled')
CHECKS['C35'] = _g('C35', 'tiled')
CHECKS['C27'] = _g('C27', 'output')
for n in ('C28', 'C29', 'C30', 'C31'):
    CHECKS[n] = _g(n, 'obcs')
for n in ('C16', 'C17'):
    CHECKS[n] = _g(n, 'search')


def titles():
    return {p['id']: p for p in (json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')))}


EXPL = ('Abstract interpretation of the current source (sgflow): sizes, subdivision levels, coordinates and file contents are symbols; every array is a value-numbered '
        'term over index variables, loops are summarised once, both sides of every undecided branch are analysed and joined. Each obligation compares the derived term at a '
        'region representative with the term the property requires, first by value numbering, then by random interpretation of both terms (a randomised equality test on the '
        'terms; the program is not run).')


def run(pid):
    t = titles()[pid]
    rep = Report(pid, t['title'])
    try:
        CHECKS[pid](rep)
    except Unsupported as e:
        rep.und('analysis', 'unsupported: %s' % e.why)
    except Unresolvable as e:
        rep.und('analysis', 'unresolvable: %s' % e)
    except RecursionError:
        rep.und('analysis', 'recursion')
    except Exception as e:          # engine limitation, never a verdict
        if os.environ.get('SG_DEBUG'):
            traceback.print_exc()
        rep.und('analysis', 'engine: %s: %s' % (type(e).__name__, e))
    return finish(rep, 'other', EXPL)
