#!/usr/bin/env python3
"""Core schemas of /verif/mc. Output: ../mc/src/schemas.rs"""
import os
from gen import *
H = 'HashSet<NodeIndex>'; O = 'OrderSet<NodeIndex>'; I = 'IndexSet<NodeIndex>'
specs = [
  # every container kind, several variants, no declarations
  dict(name='plain', vars=[Var('A', P('d'), S('s')), Var('B', V('v')), Var('C')],
       groups=[('ab', ['A', 'B']), ('bc', ['B', 'C']), ('only', ['C']), ('all', ['A', 'B', 'C'])]),
  dict(name='kinds', vars=[Var('A', P('d'), P('e'), S('h', ty=H), V('v')), Var('B', S('o', ty=O), S('i', ty=I))]),
  # five variants, several of them link-free or alike
  dict(name='many', vars=[Var('A', P('x')), Var('B'), Var('C', S('x')), Var('D', V('x')), Var('E')],
       groups=[('first', ['A', 'B']), ('second', ['C', 'D']), ('third', ['A', 'D']), ('one', ['E'])]),
  # one-to-one bidirectional pairs: point-point, point-set, set-set, self pair, same-field pair
  dict(name='pp', vars=[Var('A', P('b')), Var('B', P('a'))], bidi=['A.b <-> B.a']),
  dict(name='ps', vars=[Var('F', S('ws')), Var('W', P('f'))], bidi=['F.ws <-> W.f']),
  dict(name='ss', vars=[Var('A', S('bs', ty=H)), Var('B', S('as_', ty=O))], bidi=['A.bs <-> B.as_']),
  dict(name='list', vars=[Var('A', P('next'), P('prev'))], bidi=['A.next <-> A.prev']),
  dict(name='tree', vars=[Var('A', P('up'), S('kids'))], bidi=['A.up <-> A.kids']),
  dict(name='friends', vars=[Var('A', S('fr')), Var('B', P('mate'), P('free'))], bidi=['A.fr <-> A.fr', 'B.mate <-> B.mate']),
  # one link opposite to links of several variants; several pairs at once
  dict(name='fan', vars=[Var('X', P('y'), S('t')), Var('Y', S('x')), Var('Z', P('x'), S('u'))],
       bidi=['X.y <-> Y.x', 'X.y <-> Z.x', 'X.t <-> Z.u']),
  # groups with several choices
  dict(name='multi', vars=[Var('X', P('y')), Var('Y', P('x1', 'x'), P('x2', 'x'))], bidi=['X.y <-> Y.x']),
  dict(name='multiset', vars=[Var('X', S('y')), Var('Y', S('x1', 'x'), P('x2', 'x'))], bidi=['X.y <-> Y.x']),
  # ... within one variant, so that a node may be its own opposite
  dict(name='selfmulti', vars=[Var('A', P('p'), P('q1', 'g'), S('q2', 'g'))], bidi=['A.p <-> A.g']),
  # link types
  dict(name='typed', vars=[Var('A', P('d'), S('s')), Var('B', V('v'), P('q')), Var('C', P('d'))],
       groups=[('bc', ['B', 'C'])], link_type=['A.d: B', 'A.s: bc', 'B.v: {A, B}', 'C.d: {C}']),
  dict(name='typedgrp', vars=[Var('A', P('x', 'g'), S('y', 'g', 'h')), Var('B', P('z', 'g'), V('w', 'h')), Var('C')],
       groups=[('ab', ['A', 'B'])], link_type=['ab.g: {A, C}', 'A.h: {A, B}', 'B.h: {B}']),
  dict(name='typedbidi', vars=[Var('A', P('b')), Var('B', P('a'), S('as_')), Var('C', P('b'))],
       bidi=['A.b <-> B.a', 'C.b <-> B.as_'], link_type=['B.a: A', 'B.as_: {C, A}', 'A.b: {B, C}']),
  # opposite link whose declared type forbids the variant that bidirectional maintenance puts there
  dict(name='typedclash', vars=[Var('A', S('b')), Var('B', S('a'))], groups=[('ab', ['A', 'B'])],
       bidi=['A.b <-> B.a', 'B.a <-> B.a'], link_type=['B.a: A']),
  # variants and variant groups mixed in one declaration, in every position
  dict(name='typedmix', vars=[Var('A', P('d'), P('e')), Var('B', S('s')), Var('C'), Var('D', P('d'))],
       groups=[('bc', ['B', 'C']), ('ad', ['A', 'D'])], link_type=['A.d: {A, bc}', 'A.e: {bc, A, bc}', 'B.s: {bc, ad, B}', 'D.d: ad']),
]
out = '// Generated by /verif/gen/core.py. Do not edit.\n' + '\n'.join(emit(s) for s in specs)
out += '\n#[macro_export]\nmacro_rules! with_core_schema {\n  ($name:expr, $f:ident $(, $a:expr)*) => {\n    match $name {\n'
for s in specs:
    out += f'      "{s["name"]}" => $f::<$crate::schemas::{s["name"]}::S>($($a),*),\n'
out += '      other => panic!("unknown schema {}", other),\n    }\n  };\n}\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../mc/src/schemas.rs'), 'w').write(out)
