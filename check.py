#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] [-v] [--only SUBSTRING]"""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

from sx import runner     # noqa: E402

ASSUME = [
    'values (keys) are totally ordered, equality and order do not change '
    'while stored, equal values have equal keys and hashes (documented '
    'requirements)',
    'z3 is sound; CPython executes list/dict/set/bisect/sort correctly (they '
    'run for real, calling back into the symbolic comparisons)',
    'symbolic values share one constant hash, so every equality pattern is '
    'decided by the solver (in the big sets and dicts, where stored values '
    'hash by rank, the solver decides which of them an argument hashes '
    'like); other hash distributions only change the iteration order of sets',
]
# what tasks from the shared modules add to a property's own bounds
SHARED = {
    'anysize': 'any size (layer 2): one operation on a list with k sublists '
               '(quick: k = 1-3, some operations up to 17; thorough: 1-6, '
               'some up to 129) of any length, any load factor, any contents, '
               'at most 3 values sharing the searched key; instances marked '
               'declined met an expression without closed form and claim '
               'nothing',
    'wide': 'wide lists: 65 to 2049 (thorough 4097) sublists of known '
            'contents, one index or searched value symbolic in windows at '
            'the start, the middle, the last power of two and the end',
    'big': 'big sets and dicts: 420 to 5100 (thorough 12000) known values, '
           'load factor 1000 or small, symbolic arguments and positions in '
           'windows at the start, middle and end',
    'kinds': 'None, tuples and falsy values among the stored values',
    'h_variant': 'some instances repeated on plain subclasses and on '
                 'SortedKeyList with its default key function',
    'args': 'every kind of iterable or mapping argument (ranges, strings, '
            'buffers, views, iterators, other containers, duck-typed '
            'mappings) of up to 3 ordinary values whose keys are symbolic',
    'calls': 'documented parameters passed by name',
}


def beyond(tasks):
    mods = {t.mod.split('.')[-1] for t in tasks} | {
        t.fn for t in tasks}
    out = [SHARED[m] for m in SHARED if m in mods]
    pasts = {t.params['shape'][1] for t in tasks
             if t.params.get('shape', ' ')[0] == 'past'}
    if pasts:
        out.append('the same query after each of %d fixed histories of 2 to '
                   '45 operations (splits, merges, refills, bulk changes, '
                   'failures, copies) over 40 values' % len(pasts))
    return ''.join('; ' + x for x in out)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    verbose = '-v' in argv
    m = importlib.import_module('harness.' + prop.lower())
    tasks = m.tasks(tier)
    if '--only' in argv:
        sub = argv[argv.index('--only') + 1]
        tasks = [t for t in tasks if sub in t.ident()]
    return runner.run_property(
        prop, tasks, tier, assumptions=ASSUME + getattr(m, 'ASSUME', []),
        bounds=m.BOUNDS[tier] + beyond(tasks), extra=getattr(m, 'extra', None),
        verbose=verbose)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
