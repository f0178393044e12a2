#!/usr/bin/env python3
"""Validates the laws of vlib/meta.py on answers of the reference model in
place of the library: tools/model_check.py [cases per property] [seed]."""
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']
import vlib.props as props  # noqa
from vlib import meta  # noqa


def ask(k1, g1, k2, g2, *_):
    return props.truth(k1, g1, k2, g2)


meta.ask = ask
count = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
seed = sys.argv[2] if len(sys.argv) > 2 else '1'
bad = 0
for id_ in ('P16', 'P17', 'P18', 'P19', 'P20', 'P22', 'P26', 'P27', 'P28', 'P29'):
    p = props.PROPS[id_]
    n = 0
    for i in range(count):
        case = p.gen(random.Random('%s:model:%s:%s' % (seed, id_, i)))
        if case is None:
            continue
        n += 1
        failure, label = p.check(case)
        if failure is not None:
            bad += 1
            print(id_, failure, case)
            break
    print(id_, n, flush=True)
sys.exit(bool(bad))
