#!/usr/bin/env python3
"""C15: declarations through groups. Output: ../zoo/c15/parts

Three variants with links in overlapping groups, a phantom group, and variant groups of one, two and three variants.
Every schema holds the declarations as written; its descriptor holds them written out in full.
"""
import sys
from gen import *
GROUPS = [('ab', ['A', 'B']), ('bc', ['B', 'C']), ('abc', ['C', 'A', 'B']), ('c1', ['C'])]
def bvars():
    return [Var('A', P('x', 'g'), S('y', 'g', 'h')), Var('B', S('x', 'h'), P('z', 'g')), Var('C', S('w', 'h'), phantom=['g'])]
def tvars():
    return [Var('A', P('x', 'g'), S('y', 'g', 'h')), Var('B', V('x', 'h'), P('z', 'g')), Var('C', S('w', 'h'), phantom=['g'])]
HAS = {'A': ['x', 'y', 'g', 'h'], 'B': ['x', 'z', 'g', 'h'], 'C': ['w', 'g', 'h']}
def sides():
    r = [f'{v}.{l}' for v in 'ABC' for l in HAS[v]]
    for g, vs in GROUPS:
        r += [f'{g}.{l}' for l in HAS[vs[0]] if all(l in HAS[v] for v in vs)]
    return r
SIDES = sides()
TARGETS = ['A', 'C', '{B}', '{A, B}', 'ab', '{bc}', '{ab, C}', '{A, bc}', 'c1', '{c1, A}', 'abc', '{bc, A, bc}']
ident = lambda s: s.replace('.', '_')
tid = lambda s: s.replace('{', '').replace('}', '').replace(', ', '_')
def B(name, *decl): return dict(name=name, vars=bvars(), groups=GROUPS, bidi=list(decl))
def T(name, *decl): return dict(name=name, vars=tvars(), groups=GROUPS, link_type=list(decl))

def one_pair(sides):
    """every unordered pair of sides; which comes first alternates"""
    r = []
    for i, a in enumerate(sides):
        for j in range(i, len(sides)):
            x, y = (a, sides[j]) if (i + j) % 2 == 0 else (sides[j], a)
            r.append(B(f'p_{ident(x)}__{ident(y)}', f'{x} <-> {y}'))
    return r
def repeated(bases):
    """the same pair again: as written, reversed, through every group that covers it"""
    r = []
    for n, (a, b, wider) in enumerate(bases):
        r.append(B(f'd{n}_same', f'{a} <-> {b}', f'{a} <-> {b}'))
        r.append(B(f'd{n}_rev', f'{a} <-> {b}', f'{b} <-> {a}'))
        for k, (c, d) in enumerate(wider):
            r.append(B(f'd{n}_wide{k}', f'{a} <-> {b}', f'{c} <-> {d}'))
            r.append(B(f'd{n}_ediw{k}', f'{d} <-> {c}', f'{a} <-> {b}', f'{b} <-> {a}'))
    return r
REPEATED = [
    ('A.x', 'B.z', [('A.x', 'B.g'), ('ab.x', 'B.z'), ('A.g', 'B.g')]),
    ('A.y', 'C.w', [('A.h', 'C.h'), ('ab.h', 'c1.w'), ('abc.h', 'C.w')]),
    ('B.x', 'B.x', [('B.h', 'B.x'), ('ab.x', 'B.x'), ('bc.h', 'bc.h')]),
    ('A.y', 'B.x', [('ab.h', 'ab.x'), ('ab.h', 'ab.h'), ('abc.h', 'bc.h')]),
]
def several():
    return [
        B('s_parts', 'A.x <-> C.w', 'ab.h <-> C.w'),
        B('s_disjoint', 'ab.g <-> C.h', 'A.h <-> B.x'),
        B('s_phantom', 'abc.g <-> C.w', 'C.g <-> A.y', 'C.g <-> C.g'),
        B('s_cross', 'A.g <-> B.h', 'B.g <-> C.h'),
        B('s_three', 'A.x <-> B.z', 'A.y <-> B.x', 'C.w <-> c1.w'),
        B('s_all', 'abc.h <-> abc.h', 'ab.g <-> c1.h'),
    ]
def typed(sides, step, shift=0):
    return [T(f't_{ident(s)}__{tid(t)}', f'{s}: {t}') for i, s in enumerate(sides) for j, t in enumerate(TARGETS) if (i + j + shift) % step == 0]
def overlap(sides, pairs):
    """two declarations that both speak about A.y: both have to hold"""
    r = []
    for i, a in enumerate(sides):
        for b in sides[i:]:
            for k, (t, u) in enumerate(pairs):
                r.append(T(f'o_{ident(a)}__{ident(b)}_{k}', f'{a}: {t}', f'{b}: {u}'))
    return r
Y = ['A.y', 'A.g', 'A.h', 'ab.g', 'ab.h', 'abc.g', 'abc.h']
def both():
    r = []
    for n, (b, t) in enumerate([('ab.x <-> C.w', 'C.h: ab'), ('ab.g <-> bc.h', 'bc.h: {A, C}'), ('abc.h <-> abc.h', 'abc.h: {bc, A}'), ('abc.g <-> C.w', 'c1.w: B'), ('A.h <-> c1.h', 'abc.h: {c1, B}')]):
        r.append(dict(name=f'm{n}_both', vars=bvars(), groups=GROUPS, bidi=[b], link_type=[t]))
    return r

quick = one_pair(['A.x', 'A.g', 'B.h', 'C.w', 'C.g', 'ab.x', 'abc.g', 'bc.h']) + repeated(REPEATED) + several()
quick += typed(SIDES, 6) + overlap(Y, [('{A, B}', 'bc')]) + both()
full = one_pair(SIDES) + repeated(REPEATED) + several() + typed(SIDES, 1) + overlap(Y, [('{A, B}', 'bc'), ('{bc}', '{A, c1}'), ('A', '{B, c1}')]) + both()
if __name__ == '__main__':
    write('c15', full if sys.argv[1:] == ['thorough'] else quick)
