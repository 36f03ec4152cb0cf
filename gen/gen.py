#!/usr/bin/env python3
"""Generates Rust schema modules (node_enum! declarations + adapters) from compact specs.

A spec:
  name, vars=[(Variant, [field...], opts)], groups=[(name,[variants])], bidi=['A.x <-> B.y'], link_type=['A.x: {B,C}']
  field = (name, type spelling, kind, [groups])   kind in P,S,V
  opts: phantom=[...], data=[(name, type, expr)]  (extra data fields, after `data: u32`)
Group names in bidi/link_type are expanded here for the descriptor; the declaration keeps them verbatim.
"""
import os, re

def parse_side(s):
    v, f = s.strip().split('.')
    return v.strip(), f.strip()

def expand(spec):
    """bidi and link types with all groups written out, as (variant number, field number)"""
    vars = spec['vars']
    vnames = [v[0] for v in vars]
    gmap = dict(spec.get('groups', []))
    def fields_of(var, link):
        """indices of fields of variant var that `link` (link or link group) names"""
        v = vars[vnames.index(var)]
        r = [i for i, f in enumerate(v[1]) if f[0] == link]
        r += [i for i, f in enumerate(v[1]) if link in f[3] and i not in r]
        return r
    def expand_var(v):
        return gmap.get(v, [v])
    bidi = []
    for b in spec.get('bidi', []):
        l, r = b.split('<->')
        (v1, f1), (v2, f2) = parse_side(l), parse_side(r)
        for a in expand_var(v1):
            for c in expand_var(v2):
                for i in fields_of(a, f1):
                    for j in fields_of(c, f2):
                        t = ((vnames.index(a), i), (vnames.index(c), j))
                        if t not in bidi: bidi.append(t)
    lt = []
    for b in spec.get('link_type', []):
        v1, f1, targets = parse_type(b)
        ts = []
        for t in targets:
            for x in expand_var(t):
                if vnames.index(x) not in ts: ts.append(vnames.index(x))
        for a in expand_var(v1):
            for i in fields_of(a, f1):
                lt.append((vnames.index(a), i, ts))
    return bidi, lt

def parse_type(b):
    l, r = b.split(':')
    v1, f1 = parse_side(l)
    r = r.strip()
    targets = [x.strip() for x in r[1:-1].split(',') if x.strip()] if r.startswith('{') else [r]
    return v1, f1, targets

def emit_desc(w, spec, ind):
    vars = spec['vars']
    vnames = [v[0] for v in vars]
    bidi, lt = expand(spec)
    K = {'P': 'Kind::Point', 'S': 'Kind::Set', 'V': 'Kind::Vec'}
    w(f'{ind}Desc {{')
    w(f'{ind}  name: "{spec["name"]}",')
    w(f'{ind}  vars: vec![')
    for (vn, fields, opts) in vars:
        fs = ', '.join(f'FieldDesc {{ name: "{fn}", kind: {K[k]} }}' for (fn, ty, k, gs) in fields)
        w(f'{ind}    VarDesc {{ name: "{vn}", fields: vec![{fs}] }},')
    w(f'{ind}  ],')
    w(f'{ind}  groups: vec![' + ', '.join(f'("{g}", vec![{", ".join(str(vnames.index(x)) for x in vs)}])' for g, vs in spec.get('groups', [])) + '],')
    w(f'{ind}  bidi: vec![' + ', '.join(f'(({a}, {b}), ({c}, {d}))' for ((a, b), (c, d)) in bidi) + '],')
    w(f'{ind}  link_type: vec![' + ', '.join(f'({a}, {b}, vec![{", ".join(map(str, ts))}])' for (a, b, ts) in lt) + '],')
    w(f'{ind}}}')

def suffix(spec, k):
    """a copy of the spec with all variants and variant groups renamed"""
    names = {v[0]: f'{v[0]}{k}' for v in spec['vars']}
    names.update({g[0]: f'{g[0]}_{k}' for g in spec.get('groups', [])})
    def side(x):
        v, f = parse_side(x)
        return f'{names[v]}.{f}'
    r = dict(spec)
    r['vars'] = [(names[v], f, o) for v, f, o in spec['vars']]
    r['groups'] = [(names[g], [names[x] for x in vs]) for g, vs in spec.get('groups', [])]
    r['bidi'] = [' <-> '.join(side(x) for x in b.split('<->')) for b in spec.get('bidi', [])]
    lt = []
    for b in spec.get('link_type', []):
        v, f, ts = parse_type(b)
        lt.append(f'{names[v]}.{f}: ' + (names[ts[0]] if '{' not in b else '{' + ', '.join(names[t] for t in ts) + '}'))
    r['link_type'] = lt
    return r

def join(name, specs):
    """One node_enum! that holds several schemas side by side (much cheaper to compile than as many enums)."""
    comps = [suffix(s, k) for k, s in enumerate(specs)]
    uses = []
    for s in specs:
        for u in s.get('uses', []):
            if u not in uses: uses.append(u)
    return dict(name=name, comps=comps, uses=uses, style=int(name[1:]) % 3, **{f: [x for c in comps for x in c[f]] for f in ('vars', 'groups', 'bidi', 'link_type')})

def emit(spec, prelude='crate::prelude'):
    name = spec['name']
    vars = spec['vars']
    vnames = [v[0] for v in vars]
    groups = spec.get('groups', [])
    o = []
    w = o.append
    w(f'pub mod {name} {{')
    w(f'  use {prelude}::*;')
    for extra in spec.get('uses', []):
        w(f'  {extra}')
    for (vn, fields, opts) in vars:
        for ph in opts.get('phantom', []):
            pass
        w('  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]')
        if opts.get('phantom'):
            w(f"  #[phantom_group({', '.join(opts['phantom'])})]")
        w(f'  pub struct N{vn} {{')
        lines = []
        for (fn, ty, kind, gs) in fields:
            attrs = ''
            if gs:
                if opts.get('split_groups'):
                    attrs = ''.join(f'#[group({g})] ' for g in gs)
                else:
                    attrs = f"#[group({', '.join(gs)})] "
            lines.append(f'    {attrs}pub {fn}: {ty},')
        dpos = opts.get('data_pos', len(lines))
        dl = ['    pub data: u32,'] + [f'    pub {n}: {t},' for (n, t, _) in opts.get('data', [])]
        lines[dpos:dpos] = dl
        o.extend(lines)
        w('  }')
    w('  node_enum! {')
    w('    #[derive(Debug, Clone, Serialize, Deserialize)]')
    w('    pub enum Node {')
    for vn in vnames:
        w(f'      {vn}(N{vn}),')
    w('    }')
    def block(name, lines):
        if lines:
            w(f'    {name}! {{')
            for l in lines: w(f'      {l},')
            w('    }')
    gl = [f"{g}{{{', '.join(vs)}}}" for g, vs in groups]
    bl, tl = list(spec.get('bidi', [])), list(spec.get('link_type', []))
    # the blocks may come in any order and more than once
    style = spec.get('style', 0)
    if style == 0:
        block('group', gl); block('bidirectional', bl); block('link_type', tl)
    elif style == 1:
        block('bidirectional', bl); block('link_type', tl); block('group', gl)
    else:
        h = len(gl) // 2
        block('group', gl[:h])
        for l in bl: block('bidirectional', [l])
        block('link_type', tl[:1]); block('group', gl[h:]); block('link_type', tl[1:])
    w('  }')
    w('  pub struct S;')
    w('  impl Schema for S {')
    w('    type N = Node;')
    comps = spec.get('comps')
    w('    fn desc() -> Desc {')
    emit_desc(w, comps[0] if comps else spec, '      ')
    w('    }')
    VAR = 'n.var' if not comps else 'n.var + base()'
    V = 'var' if not comps else 'var + base()'
    w('    fn build(n: &RNode) -> Node {')
    w(f'      match {VAR} {{')
    for vi, (vn, fields, opts) in enumerate(vars):
        pat = f'{vi}' if vi + 1 < len(vars) else '_'
        inits = [f'{fn}: LinkField::from_list(&n.links[{i}])' for i, (fn, *_r) in enumerate(fields)]
        inits.append('data: n.data')
        for (dn, dt, ex) in opts.get('data', []):
            inits.append(f'{dn}: {ex}')
        w(f"        {pat} => Node::{vn}(N{vn} {{ {', '.join(inits)} }}),")
    w('      }')
    w('    }')
    w('    fn read(n: &Node) -> RNode {')
    w('      match n {')
    for vi, (vn, fields, opts) in enumerate(vars):
        rd = ', '.join(f'x.{fn}.to_list()' for (fn, *_r) in fields)
        w(f'        Node::{vn}(x) => Nd {{ var: {vi if not comps else f'{vi}u8.wrapping_sub(base())'}, links: vec![{rd}], data: x.data }},')
    w('      }')
    w('    }')
    w('    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {')
    w(f'      match {V} {{')
    for vi, vn in enumerate(vnames):
        pat = f'{vi}' if vi + 1 < len(vars) else '_'
        w(f'        {pat} => discriminant!(Node::{vn}),')
    w('      }')
    w('    }')
    w('    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {')
    w(f'      match {V} {{')
    for vi, vn in enumerate(vnames):
        pat = f'{vi}' if vi + 1 < len(vars) else '_'
        w(f'        {pat} => iter_nodes!(g, Node::{vn}).map(|(i, n)| (i, n.data)).collect(),')
    w('      }')
    w('    }')
    w('    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {')
    w(f'      match {V} {{')
    for vi, vn in enumerate(vnames):
        pat = f'{vi}' if vi + 1 < len(vars) else '_'
        w(f'        {pat} => get_node!(g, Node::{vn}, idx).map(|n| n.data),')
    w('      }')
    w('    }')
    for fnname, mac in (('mut_node', 'mut_node'), ('update_node', 'update_node')):
        w(f"    fn {fnname}(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {{")
        w(f'      match ({V}, form) {{')
        for vi, vn in enumerate(vnames):
            vp = f'{vi}' if vi + 1 < len(vars) else '_'
            body = '{ x.data = x.data.wrapping_mul(2).wrapping_add(D); }' if mac == 'mut_node' else '{ let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }'
            # the non-move forms cannot capture locals by reference beyond the transaction: use a constant per delta parity
            if comps:
                body2 = body.replace('D', 'delta')
                w(f'        ({vp}, f) => {{ let delta = if_var_data(f).1; {mac}!(t, Node::{vn}, idx, move |x| {body2}) }},')
                continue
            w(f'        ({vp}, 0) => {{ const D: u32 = 5; {mac}!(t, Node::{vn}, idx, x, {body}) }},')
            w(f'        ({vp}, 1) => {{ const D: u32 = 7; {mac}!(t, Node::{vn}, idx, |x| {body}) }},')
            body2 = body.replace('D', 'delta')
            w(f'        ({vp}, _) => {mac}!(t, Node::{vn}, idx, move |x| {body2}),')
        w('      }')
        w('    }')
    w("    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {")
    w(f'      match {V} {{')
    for vi, vn in enumerate(vnames):
        pat = f'{vi}' if vi + 1 < len(vars) else '_'
        w(f'        {pat} => alloc_node!(t, Node::{vn}),')
    w('      }')
    w('    }')
    w('  }')
    if comps:
        w('  pub fn comp(name: &str) -> Option<mc::engine::Sc> {')
        w('    Some(match name {')
        at = 0
        for c in comps:
            w(f'      "{c["name"]}" => mc::engine::Sc::at::<S>({at},')
            emit_desc(w, c, '        ')
            w('      ),')
            at += len(c['vars'])
        w('      _ => return None,')
        w('    })')
        w('  }')
    w('}')
    return '\n'.join(o) + '\n'

NI = 'NodeIndex'
def P(n, *g, ty=NI): return (n, ty, 'P', list(g))
def S(n, *g, ty='BTreeSet<NodeIndex>'): return (n, ty, 'S', list(g))
def V(n, *g, ty='Vec<NodeIndex>'): return (n, ty, 'V', list(g))
def Var(name, *fields, **opts): return (name, list(fields), opts)

def put(path, text):
    """write a file unless it is there already (cargo goes by the time of change)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)

PARTS = 7
def crates(checker, sources, kit=''):
    """The parts of a checker as crates of their own, so that they are compiled side by side."""
    assert len(sources) == PARTS
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../zoo', checker, 'parts')
    for i, src in enumerate(sources):
        put(f'{root}/p{i}/Cargo.toml', f'''# Generated. Do not edit.
[package]
name = "{checker}-p{i}"
version = "0.1.0"
edition = "2021"

[dependencies]
mc = {{ path = "../../../../mc", default-features = false, features = ["debug"] }}
ttgraph = {{ path = "/repo", default-features = false }}
serde = {{ version = "1", features = ["derive"] }}
ordermap = {{ version = "0.5.3", features = ["serde"] }}
indexmap = {{ version = "2.6.0", features = ["serde"] }}
{kit}''')
        put(f'{root}/p{i}/src/lib.rs', src)

def deal(l):
    """PARTS slices of about the same length"""
    return [l[len(l) * i // PARTS:len(l) * (i + 1) // PARTS] for i in range(PARTS)]

def write(checker, specs, per=12, prelude='mc::prelude'):
    """The schemas of one checker, several to an enum, and a lookup by name."""
    encl = [join(f'm{i // per}', specs[i:i + per]) for i in range(0, len(specs), per)]
    assert len({s['name'] for s in specs}) == len(specs)
    sources = []
    for part in deal(encl):
        out = '// Generated. Do not edit.\n#![allow(unused_variables, dead_code, unused_imports)]\n' + '\n'.join(emit(s, prelude) for s in part)
        out += '\npub const ALL: &[&str] = &[' + ', '.join(f'"{c["name"]}"' for s in part for c in s['comps']) + '];\n'
        out += 'pub fn lookup(name: &str) -> Option<mc::engine::Sc> {\n  None\n'
        for s in part: out += f'    .or_else(|| {s["name"]}::comp(name))\n'
        out += '}\n'
        sources.append(out)
    crates(checker, sources)
    print(checker, len(specs), 'schemas')
