#!/usr/bin/env python3-vt
"""Set-up: check the tools and that the harness shapes are really built."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)


def main():
    import z3
    from sx import loader
    from sx.ctx import ConCtx
    from harness import common as C
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    sc = loader.load_plain()
    bad = []
    for keyed in (False, True):
        for cls in ('list', 'set', 'dict'):
            for shape in C.SHAPES:
                env = {}
                for i in range(80):
                    env['a%d' % i] = env['k_a%d' % i] = i + 1
                s, A = C.build(ConCtx(sc, env, keyed), shape, True, cls=cls)
                if C.lens_of(s) != shape[1]:
                    bad.append((cls, keyed, shape, C.lens_of(s)))
    # informative only: a changed tree may arrange its sublists differently
    for b in bad:
        print('shape not reached exactly:', b)
    print('z3', z3.get_version_string(), 'package', sc.__version__,
          '%d shapes differ' % len(bad))


if __name__ == '__main__':
    main()
