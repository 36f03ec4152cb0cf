#!/usr/bin/env python3
"""C14: a bounded family of node declarations. Output: ../zoo/c14/parts

A struct: fields in order. A field: dict(name, ty, kind P/S/V/D, groups, attrs (lines), vis, val (data only)).
"""
import itertools, sys
from gen import crates, deal
NI = 'NodeIndex'
LTY = dict(P=NI, S='BTreeSet<NodeIndex>', V='Vec<NodeIndex>')
# data types and a value of each; none of them is a link
DATA = [
  ('u32', '7'), ('String', '"s".to_string()'), ('Vec<u32>', 'vec![1, 2]'), ('HashSet<usize>', 'HashSet::from([3])'), ('BTreeSet<u8>', 'BTreeSet::from([4])'),
  ('Option<NodeIndex>', 'Some(NodeIndex(1))'), ('(NodeIndex, u8)', '(NodeIndex(1), 2)'), ('[NodeIndex; 2]', '[NodeIndex(1), NodeIndex(2)]'),
  ('HashMap<NodeIndex, u32>', 'HashMap::from([(NodeIndex(1), 2)])'), ('BTreeMap<String, NodeIndex>', 'BTreeMap::from([("k".to_string(), NodeIndex(1))])'),
  ('Box<NodeIndex>', 'Box::new(NodeIndex(1))'), ('Vec<Vec<NodeIndex>>', 'vec![vec![NodeIndex(1)]]'), ("&'static str", '"t"'), ('Vec<Option<NodeIndex>>', 'vec![None, Some(NodeIndex(2))]'),
  ('bool', 'true'), ('f64', '1.5'), ('Option<Vec<NodeIndex>>', 'Some(vec![NodeIndex(1)])'), ('std::rc::Rc<NodeIndex>', 'std::rc::Rc::new(NodeIndex(1))'),
  ('()', '()'), ('fn(u32) -> u32', '|x| x'), ('Vec<(NodeIndex, NodeIndex)>', 'vec![(NodeIndex(1), NodeIndex(2))]'), ('Wrapped', 'Wrapped(NodeIndex(1))'), ('VecDeque<NodeIndex>', 'VecDeque::from([NodeIndex(1)])'),
]
PATHS = []
for c in ('HashSet', 'BTreeSet'):
    PATHS += [f'::std::collections::{c}', f'std::collections::{c}', f'collections::{c}', c]
PATHS += ['::ordermap::set::OrderSet', '::ordermap::OrderSet', 'ordermap::set::OrderSet', 'ordermap::OrderSet', 'OrderSet']
PATHS += ['::indexmap::set::IndexSet', '::indexmap::IndexSet', 'indexmap::set::IndexSet', 'indexmap::IndexSet', 'IndexSet']
DP = ['NodeIndex', 'ttgraph::NodeIndex']
SPELL = [('P', d) for d in DP]
SPELL += [('S', f'{p}<{d}>') for p in PATHS for d in DP]
SPELL += [('S', f'{p}::<{d}>') for p in PATHS for d in DP[:1]]
SPELL += [('V', f'{p}<{d}>') for p in ('std::vec::Vec', 'vec::Vec', 'Vec') for d in DP] + [('V', f'Vec::<{d}>') for d in DP]

def fld(name, kind, groups=(), ty=None, attrs=None, vis='pub ', val=None, data=0):
    if kind == 'D':
        t, v = DATA[data % len(DATA)] if ty is None else (ty, val)
        return dict(name=name, kind='D', ty=t, val=v, groups=[], attrs=attrs or [], vis=vis)
    return dict(name=name, kind=kind, ty=ty or LTY[kind], groups=list(groups), attrs=attrs, vis=vis)

structs = []
def add(fields, phantom=(), head=(), vis='pub ', derive='TypedNode'):
    structs.append(dict(fields=fields, phantom=list(phantom), head=list(head), vis=vis, derive=derive))
    return structs[-1]

G4 = [(), ('g',), ('h',), ('g', 'h')]
def shapes(n, opts):
    for combo in itertools.product(opts, repeat=n):
        yield combo
NAMES = ['first', 'b', 'third_one', 'd4']
def family_shapes(full):
    add([])
    opts = [(k, g) for k in 'PSV' for g in G4] + [('D', ())]
    for n in (1, 2):
        for i, combo in enumerate(shapes(n, opts)):
            add([fld(NAMES[j], k, g, data=i) for j, (k, g) in enumerate(combo)])
    if full:
        for i, combo in enumerate(shapes(3, [(k, g) for k in 'PSV' for g in G4[1:]] + [('P', ()), ('V', ()), ('D', ())])):
            add([fld(NAMES[j], k, g, data=i) for j, (k, g) in enumerate(combo)])
    else:
        # all kinds of three fields; groups rotate so that each field has each of them
        for i, kinds in enumerate(itertools.product('PSVD', repeat=3)):
            add([fld(NAMES[j], k, G4[(i // 3 + j * (1 + i % 3)) % 4], data=i) for j, k in enumerate(kinds)])
    # four fields, links and data interleaved, a group on one of them only
    for i, kinds in enumerate(itertools.product('PSVD', repeat=4)):
        if full or i % 5 == 0:
            add([fld(NAMES[j], k, ('g',) if j == i % 4 else (), data=i) for j, k in enumerate(kinds)])
def family_spelling():
    for i, (k, t) in enumerate(SPELL):
        add([fld('a', k, ('g',), ty=t), fld('z', 'D', data=i)])
        add([fld('n', 'D', data=i), fld('o', 'P'), fld('a', k, ty=t, groups=('h', 'g'))])
def family_data():
    for i in range(len(DATA)):
        add([fld('only', 'D', data=i)])
        add([fld('x', 'V'), fld('mid', 'D', data=i), fld('y', 'S', ('g',))])
def family_attrs():
    spl = lambda *g: [f'#[group({x})]' for x in g]
    one = lambda *g: [f"#[group({', '.join(g)})]"]
    doc, alw, srd = '/// a comment', '#[allow(dead_code)]', '#[serde(default)]'
    variants = [
        lambda g: one(*g), lambda g: spl(*g), lambda g: [doc] + one(*g), lambda g: one(*g) + [alw], lambda g: [alw, doc] + spl(*g),
        lambda g: [spl(*g)[0], doc] + spl(*g)[1:], lambda g: [srd] + one(*g), lambda g: spl(*g)[:1] + [srd, alw] + spl(*g)[1:], lambda g: [f"#[group({', '.join(g)},)]"],
    ]
    for a in variants:
        for gs in (('g',), ('g', 'h'), ('h', 'g', 'k')):
            for kind in 'PSV':
                ser = any('serde' in x for x in a(gs))
                add([fld('x', kind, gs, attrs=a(gs)), fld('m', 'D'), fld('y', 'S', ('k',)), fld('z', 'P')], derive='TypedNode, Serialize, Deserialize' if ser else 'TypedNode')
                add([fld('w', 'V', ('h',)), fld('x', kind, gs, attrs=a(gs)), fld('y', 'S', ('k',)), fld('z', 'P')], derive='TypedNode, Serialize, Deserialize' if ser else 'TypedNode')
    for vis in ('', 'pub ', 'pub(crate) ', 'pub(super) '):
        for svis in ('pub ', 'pub(crate) ', 'pub(super) '):
            add([fld('x', 'P', ('g',), vis=vis), fld('s', 'S', vis=vis), fld('d', 'D', vis=vis)], vis=svis)
    for ph in ([['p']], [['p', 'q']], [['p'], ['q']], [['g']], [['g', 'p'], ['h']]):
        head = [f"#[phantom_group({', '.join(x)})]" for x in ph]
        flat = [y for x in ph for y in x]
        add([], phantom=flat, head=head)
        add([fld('d', 'D')], phantom=flat, head=['/// doc'] + head)
        add([fld('x', 'P', ('g',)), fld('y', 'V', ('h', 'g'))], phantom=flat, head=head + ['#[allow(dead_code)]'])
        add([fld('x', 'P'), fld('y', 'V', ('g',))], phantom=flat, head=head)
    # names that the generated code might trip over
    for names in (['link', 'source', 'target'], ['name', 'sources', 'result'], ['old_idx', 'new_idx', 'idx'], ['input', 'i', 'x'], ['a1', 'a_1_b', 'long_name_2'], ['empty', 'none', 'some'], ['removed', 'added', 'old']):
        for kinds in ('PSV', 'VDP', 'SSD', 'DPV'):
            add([fld(n, k, ('g',) if j == 1 else (), data=j) for j, (n, k) in enumerate(zip(names, kinds))])
    for g in ('link', 'source', 'empty', 'name', 'group', 'long_group_1'):
        add([fld('x', 'P', (g,)), fld('y', 'S', (g, 'h')), fld('z', 'V')])
    # many fields
    add([fld(f'f{i}', 'PSVD'[i % 4], G4[(i // 4) % 4], data=i) for i in range(24)])
    add([fld(f'f{i}', 'VVSP'[i % 4], [f'g{j}' for j in range(i % 5)]) for i in range(16)])

def emit(mods):
    o = ['// Generated. Do not edit.', '#![allow(dead_code, unused_variables, unused_imports, non_camel_case_types)]']
    w = o.append
    KIND = dict(P='Kind::Point', S='Kind::Set', V='Kind::Vec')
    q = lambda l: ', '.join(f'"{x}"' for x in l)
    for mi, ss in mods:
        w(f'mod m{mi} {{')
        w('  use c14_kit::*;')
        w('  #[derive(Clone, Debug, PartialEq)]\n  pub struct Wrapped(pub NodeIndex);')
        for si, s in enumerate(ss):
            n = f'N{si}'
            decl = []
            for h in s['head']: decl.append(f'  {h}')
            decl.append(f'  {s["vis"]}struct {n} {{')
            for f in s['fields']:
                at = f['attrs']
                if at is None:
                    at = [f"#[group({', '.join(f['groups'])})]"] if f['groups'] else []
                for a in at: decl.append(f'    {a}')
                decl.append(f'    {f["vis"]}{f["name"]}: {f["ty"]},')
            decl.append('  }')
            w(f'  #[derive({s["derive"]})]')
            o.extend(decl)
            links = [f for f in s['fields'] if f['kind'] != 'D']
            datas = [f for f in s['fields'] if f['kind'] == 'D']
            w(f'  fn mk{si}(l: &[Vec<NodeIndex>]) -> {n} {{')
            li = 0
            init = []
            for f in s['fields']:
                if f['kind'] == 'D': init.append(f'{f["name"]}: {f["val"]}')
                else:
                    init.append(f'{f["name"]}: LinkField::from_list(&l[{li}])'); li += 1
            w(f'    {n} {{ {", ".join(init)} }}')
            w('  }')
            w(f'  fn rd{si}(x: &{n}) -> Vec<Vec<NodeIndex>> {{ vec![' + ', '.join(f'LinkField::to_list(&x.{f["name"]})' for f in links) + '] }')
            for who, ty in (('d', n), ('e', 'Node')):
                w(f'  fn {who}{si}(x: &{ty}) -> Vec<bool> {{')
                if who == 'e' and datas: w(f'    let Node::V{si}(y) = x else {{ return vec![false] }};')
                me = 'x' if who == 'd' else 'y'
                tr = 'TypedNode' if who == 'd' else 'NodeEnum'
                w('    vec![')
                for f in datas:
                    t = f['ty']
                    wrong = 'u32' if t != 'u32' else 'i32'
                    w(f'      same({tr}::data_ref_by_name::<{t}>(x, "{f["name"]}"), &{me}.{f["name"]}), {tr}::data_ref_by_name::<{wrong}>(x, "{f["name"]}").is_none(),')
                for f in links:
                    w(f'      {tr}::data_ref_by_name::<NodeIndex>(x, "{f["name"]}").is_none(), {tr}::data_ref_by_name::<{f["ty"]}>(x, "{f["name"]}").is_none(),')
                w(f'      {tr}::data_ref_by_name::<u32>(x, "nosuch").is_none(),')
                w('    ]\n  }')
        # the enum: groups by the bits of the variant number, in all orders of declaration
        w('  node_enum! {')
        w(f'    {["pub ", "pub(crate) ", ""][mi % 3]}enum Node {{')
        for si in range(len(ss)): w(f'      V{si}(N{si}),')
        w('    }')
        gs = []
        for b in range(5):
            m = [si for si in range(len(ss)) if si >> b & 1]
            if m: gs.append((f'bit{b}', m[::-1] if b % 2 else m))
        gs.append(('last', [len(ss) - 1]))
        gs.append(('all', list(range(len(ss)))))
        w('    group! {')
        for g, m in gs: w(f"      {g}{{{', '.join(f'V{x}' for x in m)}}},")
        w('    }')
        w('  }')
        w('  pub fn cases() -> Vec<Case> {')
        w('    vec![')
        for si, s in enumerate(ss):
            links = [f for f in s['fields'] if f['kind'] != 'D']
            datas = [f for f in s['fields'] if f['kind'] == 'D']
            text = '; '.join([*s['head']] + [' '.join((f['attrs'] if f['attrs'] is not None else ([f"#[group({', '.join(f['groups'])})]"] if f['groups'] else [])) + [f"{f['vis']}{f['name']}: {f['ty']}"]) for f in s['fields']])
            text = text.replace('\\', '').replace('"', "'")
            w(f'      Case {{ text: "struct {{ {text} }}".replace("{{ ", "{{ "), at: ({mi}, {si}), nvars: {len(ss)},')
            w(f'        links: vec![' + ', '.join(f'Link {{ name: "{f["name"]}", kind: {KIND[f["kind"]]}, groups: vec![{q(f["groups"])}] }}' for f in links) + '],')
            w(f'        data: vec![{q(f["name"] for f in datas)}], phantom: vec![{q(s["phantom"])}],')
            w('        in_groups: vec![' + ', '.join(f'("{g}", {str(si in m).lower()})' for g, m in gs) + '],')
            w(f'        stat: |p| statics::<N{si}>(p), dynr: |l, p| {{ let x = mk{si}(l); let mut r = dynamics(&x, p); r.data = d{si}(&x); r }},')
            w(f'        enr: |l, p| {{ let x = Node::V{si}(mk{si}(l)); let mut r = enum_dynamics(&x, p); r.data = e{si}(&x); r.disc = Discriminated::discriminant(&x) == discriminant!(Node::V{si}); r.walk = walk(discriminant!(Node::V{si})); r }},')
            others = [(j, sum(f['kind'] != 'D' for f in ss[j]['fields'])) for j in [*range(si + 1, len(ss)), *range(si)]]
            others = [o for o in others if o[1]]
            oth = f'Some(Node::V{others[0][0]}(mk{others[0][0]}(&single({others[0][1]}, {si % others[0][1]}))))' if others else 'None'
            w(f'        ed: |l, c| {{ let mut x = mk{si}(l); let r = edit(&mut x, c); (r, rd{si}(&x)) }}, other: {str(bool(others)).lower()},')
            w(f'        ened: |l, c| {{ let mut x = Node::V{si}(mk{si}(l)); let r = enum_edit(&mut x, c, |i| Node::V{si}(mk{si}(&single({len(links)}, i))), {oth}); match &x {{ Node::V{si}(y) => (r, rd{si}(y)), #[allow(unreachable_patterns)] _ => (None, vec![]) }} }},')
            w('      },')
        w('    ]\n  }')
        w('}')
    w('pub fn cases() -> Vec<c14_kit::Case> {\n  let mut r = Vec::new();')
    for mi, _ in mods: w(f'  r.extend(m{mi}::cases());')
    w('  r\n}')
    return '\n'.join(o) + '\n'

def family(full):
    structs.clear()
    family_shapes(full)
    family_spelling()
    family_data()
    family_attrs()
    return list(structs)
if __name__ == '__main__':
    specs = family(sys.argv[1:] == ['thorough'])
    mods = list(enumerate(specs[i:i + 24] for i in range(0, len(specs), 24)))
    crates('c14', [emit(m) for m in deal(mods)], 'c14-kit = { path = "../../kit" }\n')
    print('c14', len(specs), 'declarations')
