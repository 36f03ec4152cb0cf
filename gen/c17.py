#!/usr/bin/env python3
"""C17: the same schemas with every supported link container and spelling. Output: ../zoo/src/c17/schemas.rs"""
import os
from gen import *
USES = ['use ::ordermap;', 'use ::indexmap;', 'use std::collections;', 'use std::vec;']
SETS = dict(hash='HashSet', std='std::collections::HashSet', btree='BTreeSet', order='OrderSet', index='IndexSet')
ty = lambda t, d='NodeIndex': f'{t}<{d}>'
def mk(name, vars, **k): return dict(name=name, vars=vars, uses=USES, **k)
specs = []
# every pair of set types, on the two sides of a declaration and side by side
for a in SETS:
    for b in SETS:
        specs.append(mk(f'pair_{a}_{b}', [Var('A', S('s', ty=ty(SETS[a])), S('f', ty=ty(SETS[b]))), Var('B', S('t', ty=ty(SETS[b])), P('q'))],
                        bidi=['A.s <-> B.t'], groups=[('g', ['A', 'B'])]))
for a in SETS:
    specs.append(mk(f'one_{a}', [Var('A', P('d'), S('me', ty=ty(SETS[a]))), Var('B', S('t', ty=ty(SETS[a])))],
                    bidi=['A.d <-> B.t', 'A.me <-> A.me'], groups=[('g', ['A', 'B'])], link_type=['B.t: A']))
    specs.append(mk(f'grp_{a}', [Var('A', S('s', 'g', ty=ty(SETS[a])), S('t', 'g', ty=ty(SETS[a]))), Var('B', P('p', 'h'), V('v'))],
                    bidi=['A.g <-> B.h']))
# every spelling
D = ['NodeIndex', 'ttgraph::NodeIndex']
PATHS = []
for c in ('HashSet', 'BTreeSet'):
    PATHS += [f'::std::collections::{c}', f'std::collections::{c}', f'collections::{c}', c]
PATHS += ['::ordermap::set::OrderSet', '::ordermap::OrderSet', 'ordermap::set::OrderSet', 'ordermap::OrderSet', 'OrderSet']
PATHS += ['::indexmap::set::IndexSet', '::indexmap::IndexSet', 'indexmap::set::IndexSet', 'indexmap::IndexSet', 'IndexSet']
VECS = ['std::vec::Vec', 'vec::Vec', 'Vec']
spell = [ty(p, d) for p in PATHS for d in D] + [f'{p}::<{d}>' for p in ('HashSet', 'BTreeSet', 'OrderSet', 'IndexSet') for d in D]
for i, t in enumerate(spell):
    p = D[i % 2]
    specs.append(mk(f'set_spelling_{i}', [Var('A', S('s', ty=t), P('d', ty=p)), Var('B', P('t', ty=p), S('f', ty=t))], bidi=['A.s <-> B.t'], groups=[('g', ['A', 'B'])]))
for i, t in enumerate([ty(p, d) for p in VECS for d in D] + [f'Vec::<{d}>' for d in D]):
    specs.append(mk(f'vec_spelling_{i}', [Var('A', V('v', ty=t)), Var('B', P('d', ty=D[i % 2]), V('w', ty=t))], groups=[('g', ['A', 'B'])], link_type=['B.w: A']))
if __name__ == '__main__':
    write('c17', specs, per=6)
