#!/usr/bin/env python3
"""Replay counterexamples (or sample assignments) on the unmodified package.

usage: replay.py FILE.json      one replay; exit 1 if the violation shows
       replay.py --batch IN OUT many assignments, results as JSON
"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sx import ctx as C            # noqa: E402
from sx import loader              # noqa: E402
from sx.task import Task           # noqa: E402


def detuple(v):
    if isinstance(v, list):
        return tuple(detuple(x) for x in v)
    return v


def run_one(spec, assignment, sc):
    t = Task(spec['mod'], spec['fn'],
             {k: detuple(v) for k, v in spec['params'].items()},
             spec['keyed'])
    ctx = C.ConCtx(sc, assignment, t.keyed)
    try:
        t.resolve()(ctx, **t.params)
    except C.Violated as e:
        return 'violated', e.label, str(e.detail)
    except C.Skip as e:
        return 'skip', str(e), ''
    except RecursionError as e:
        return 'violated', 'unexpected RecursionError', repr(e)[:200]
    except Exception as e:
        import traceback
        return ('violated', 'unexpected ' + type(e).__name__,
                traceback.format_exc())
    finally:
        ctx.disarm()
    return 'ok', '', ''


def main():
    if sys.argv[1] == '--batch':
        items = json.load(open(sys.argv[2]))
        out = []
        for it in items:
            sc = loader.load(rewrite=False)   # same code, compiled once
            out.append(run_one(it['task'], it['assignment'], sc))
        json.dump(out, open(sys.argv[3], 'w'))
        return 0
    it = json.load(open(sys.argv[1]))
    st, label, detail = run_one(it['task'], it['assignment'],
                                loader.load_plain())
    print('%s: %s\n%s' % (st.upper(), label, detail))
    return {'violated': 1, 'ok': 0, 'skip': 3}[st]


if __name__ == '__main__':
    sys.exit(main())
