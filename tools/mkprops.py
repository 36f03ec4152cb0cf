#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TG, TX, CA, ID = 'src/typed_graph.rs', 'src/typed_graph/transaction.rs', 'src/cate_arena.rs', 'src/id_distributer.rs'
SER, CHK, MAC, MT = 'src/typed_graph/serialize.rs', 'src/typed_graph/check.rs', 'src/typed_graph/macros.rs', 'src/typed_graph/macro_traits.rs'
M = 'ttgraph_macros/src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, cmd='./check.sh'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, cmd=cmd))

prop('C01', 'A commit does exactly what the transaction recorded, in the documented order',
 'Committing a transaction changes the graph exactly as if the recorded operations were applied in the documented order (redirect links, insert, mutate, update, redirect all links, remove, bidirectional maintenance), and leaves every other node, link and datum as it was. A transaction that is given up or dropped has no effect. Mutating, updating or removing something that is not a node when its turn comes, or editing a node as a variant it is not, is refused with a panic rather than ignored.',
 ['histories', 'inputs'], 'every graph, every transaction (any mix, order and number of operations, including operations on nodes created in the same transaction, links to indexes that are not nodes, and every kind of link field)',
 'The tests run a handful of fixed transactions, nearly all with one or two kinds of operation; they never compare the whole graph with the documented result, nor mix operations that compete for the same node.',
 [TG, TX, CA, MAC], [('phases of a commit', TG + ': do_commit, merge_nodes, modify_node, update_node, redirect_links_vec, remove_node'), ('recording', TX + ': insert, mutate, update, remove, redirect_links, redirect_all_links, extend, give_up')],
 'bounded exhaustive exploration of real commits against an executable reference model',
 'All graphs up to 2-3 nodes x all transactions up to 2-3 operations over 16 schemas, plus sized families up to 65 nodes; every one executed on the real crate and compared in full with the reference model.')
prop('C02', 'Removing a node leaves nothing behind',
 'Once a commit that removes nodes returns, none of them can be found, no link of any surviving node refers to them (a single link becomes empty, a set loses the element, a list keeps its length with an empty entry in that place), and every other node and link is still there. This also holds for nodes created and removed again in the same transaction.',
 ['histories', 'inputs'], 'every graph, every way in which the removed nodes are linked (including self links, several links from one node, links made in the same transaction, chains of removed nodes), every history before',
 'Tests remove a node in a few fixed graphs; dangling links only show for particular combinations of link kinds and operations in one transaction.',
 [TG, TX], [('removal', TG + ': remove_node, remove_links_to'), ('removal inside a transaction', TX + ': remove')],
 'bounded exhaustive exploration of real commits against an executable reference model',
 'All removals in all graphs up to 3 nodes (3 links), combined with up to two other operations, after histories of commits, context switches and serialization, and in sized families.')
prop('C03', 'The graph always knows all links that lead to a node',
 'After any history of commits, merges, context switches and save/load round trips, redirecting or removing a node affects exactly the links that currently lead to it: none is missed, none that no longer leads there is touched, and the operation does not fail because of a link that used to exist. The graph\'s own consistency self-check (check_backlinks) succeeds on every reachable graph, and check_integrity complains exactly when some link leads to an index that is not a node.',
 ['histories'], 'every history of operations that create, move, duplicate, drop or automatically maintain links, followed by a redirection or removal of any node',
 'Stale or missing reverse links are invisible until a later operation uses them; tests use short histories and rarely follow one kind of link change by another.',
 [TG, CA], [('reverse links', TG + ': back_links, add_back_links, remove_back_links, redirect_links, apply_bidirectional_links'), ('self check', TG + ': check_backlinks')],
 'bounded exhaustive exploration of operation histories on the real crate, with a probing last step',
 'All histories of up to 3 steps from all small graphs, with every redirection and removal as last step, and the self-check after every step.')
prop('C04', 'Bidirectional links are kept in step on both sides',
 'After every successful commit, a link that was added in a declared bidirectional pair has its opposite link, and the opposite of a link that was removed is gone too; a link that was already there on the opposite side stays as it is, and nothing else changes. What counts is the net change of the whole transaction, whichever operation made it (insert, fill, mutate, update, redirect, remove, merge).',
 ['histories', 'inputs'], 'every schema shape (single-single, single-set, set-set, within one variant, a link paired with itself, one link paired with several variants, choice groups), every graph, every transaction',
 'Tests cover a few pairs with one change each; the rules interact when several links of one pair move in one transaction.',
 [TG, M + 'bidirectional.rs', M + 'node_enum.rs', M + 'typed_node.rs'], [('maintenance', TG + ': apply_bidirectional_links'), ('generated link access', M + 'typed_node.rs: add_link, remove_link, contains_link, modify_link')],
 'bounded exhaustive exploration of real commits against the README\'s rules as an executable model',
 'All graphs up to 3 nodes x all transactions up to 2-3 operations over 11 bidirectional schemas, plus histories and sized families.')
prop('C05', 'Bidirectional conflicts are refused, and only conflicts are',
 'A commit panics when the opposite side of an added bidirectional link is a single link that, after all other operations of the transaction, still leads elsewhere, or when it cannot be told which of several opposite links should be made. A commit without such a conflict does not panic, however many paired links it moves at once and whichever order they are recorded in.',
 ['histories', 'inputs'], 'every schema shape, graph and transaction, in particular swaps, exchanges and hand-overs of paired links inside one transaction',
 'Tests show one or two conflicting and non-conflicting commits; whether a commit conflicts depends on the net effect of all its operations.',
 [TG, M + 'typed_node.rs', MT], [('conflict detection', TG + ': apply_bidirectional_links; ' + M + 'typed_node.rs: add_link')],
 'bounded exhaustive exploration of real commits; refusal compared with the model on every one',
 'Same exploration as C04, judged on refusal: about half a million conflicting commits must be refused and all others accepted.')
prop('C06', 'Redirections follow chains to their end and refuse loops',
 'When several redirections are recorded in one transaction, every link ends up at the final target of its chain whatever the order in which they were recorded, and every kind of link field is affected (sets merge, lists keep their places, redirecting to the empty index clears). A cycle of redirections, including a node to itself, is refused; any acyclic set of redirections is accepted, also when nothing links to the redirected index. Links made in the same transaction are affected by the final redirection but not by the initial one.',
 ['inputs', 'histories'], 'every list of redirection pairs in every order, every graph, both kinds of redirection, combined with other operations',
 'Tests use chains of two or three pairs in one order.',
 [TG, TX], [('chain resolution', TG + ': redirect_links_vec'), ('moving links', TG + ': redirect_links; ' + M + 'typed_node.rs: modify_link')],
 'exhaustive enumeration of redirection lists on the real crate against a reference resolution',
 'All lists of up to 4 (thorough 5) redirections over 5 sources and 6 targets, both kinds and mixed, chains and loops up to 33 long in many orders.')
prop('C07', 'Node indexes are unique, never empty and never reused',
 'Every index handed out by a context, through any of its transactions and graphs and on any thread, is different from every other index that context has handed out and from the empty index. Removing nodes, giving up transactions or committing in any order never makes an index available again; an index keeps meaning its node until that node is removed.',
 ['schedules', 'histories'], 'all interleavings of transactions on several threads sharing one context, and all sequential histories of allocating, inserting, removing and giving up',
 'Tests are single threaded and allocate a few indexes.',
 [ID, CA, TX, M + 'cate_arena.rs'], [('distribution', ID + ': alloc'), ('allocation', M + 'cate_arena.rs: alloc, alloc_untyped')],
 'systematic exploration of all thread interleavings of the real code under a controlled scheduler, plus exhaustive sequential histories',
 'The index distribution and the transaction code are compiled from the working tree with the synchronisation primitives replaced by scheduler-controlled ones; all interleavings up to the stated bound are run.', './c07.sh')
prop('C08', 'Allocated nodes are filled once with the right type; contexts cannot be mixed',
 'An allocated index must be filled exactly once, with a node of the promised type, by the transaction that allocated it, before that transaction is committed; a commit with an unfilled index, a fill of an index that is not waiting to be filled, or of the wrong type is refused. (The untyped fill of a typed allocation, and the reverse, may be refused or carried out, but not half.) A transaction or graph of another context is refused by commit and merge. A transaction reports itself empty exactly when committing it would do nothing because nothing was recorded.',
 ['histories', 'inputs'], 'every sequence of calls on one or two open transactions of a context, interleaved in any way, and on transactions of other contexts',
 'Tests check a single misuse each and only straight-line sequences.',
 [TX, CA, TG, M + 'cate_arena.rs'], [('fill discipline', TX + ': fill_back, fill_back_untyped; ' + CA + ': fill_back'), ('context check', TG + ': do_commit; ' + TX + ': merge')],
 'exhaustive enumeration of call sequences on real transactions against a reference model',
 'All call sequences up to length 6 on one and 5 on two open transactions, with is_empty compared after every call and the commits compared at the end; all small transactions of a foreign context.')
prop('C09', 'All ways to look at the graph agree',
 'At any time lookup by index, iteration over everything, over one variant and over a named group, consuming iteration, the number of nodes and the iterators\' own size reports describe the same set of nodes, each node exactly once and under the variant it currently has. This remains true when mutate or update turns a node into another variant.',
 ['histories'], 'every history of commits (including variant changes, removals and re-insertions), merges, context switches and save/load round trips',
 'Tests iterate over freshly built graphs.',
 [CA, M + 'cate_arena.rs', TG, M + 'group.rs', MAC], [('storage by variant', M + 'cate_arena.rs: containers, dispatch, iterators'), ('variant changes', CA + ': update_with, mutate_with')],
 'bounded exhaustive exploration of operation histories on the real crate; all views compared after every step',
 'All histories up to 3 steps from all small graphs over 16 schemas; after each step all views are compared with lookup.')
prop('C10', 'Context switches and merges keep the graph, up to renaming',
 'Switching a graph to another context yields the same nodes with the same data and the same links up to a consistent renaming of indexes, whatever indexes the two contexts use and however they overlap; the renamed graph behaves as before in later transactions. Merging a graph through a transaction adds exactly its nodes, unchanged, to the target; merging a graph of another context is refused.',
 ['histories', 'inputs'], 'every graph, every relation between old and new indexes, every history before and after',
 'Tests switch one graph with disjoint indexes.',
 [TG, TX], [('renaming', TG + ': switch_context'), ('merging', TX + ': merge; ' + TG + ': merge_nodes')],
 'bounded exhaustive exploration of real context switches and merges, compared up to isomorphism',
 'All graphs up to 3 nodes, all shifts between index ranges tried, before/after histories, all pairs of small graphs merged in both ways.')
prop('C11', 'A saved and reloaded graph is the same graph and stays usable',
 'Serializing a graph and loading it again yields the same indexes, nodes, data and links, and the context that comes with it never hands out an index that the loaded graph uses. The loaded graph behaves in later transactions exactly like the original.',
 ['histories', 'inputs'], 'every graph (including graphs with gaps after removals, or empty) and every history before and after the round trip',
 'Tests round-trip one or two graphs and do not use them afterwards.',
 [SER, TG], [('loading', SER + ': deserialize_graph; ' + TG + ': do_deserialize'), ('saving', SER + ': Serialize for Graph, GraphSerializer::from')],
 'bounded exhaustive exploration of histories with real save/load steps',
 'All graphs up to 3 nodes, round trip, then all single operations; histories mixing commits, context switches and round trips.')
prop('C12', 'Links of the wrong type are refused exactly when a commit adds them',
 'With checks enabled, a commit panics if any link it adds, by whatever operation and including links added by bidirectional maintenance or merging, leads to a node of a variant its declaration does not allow. A commit whose added links all satisfy the declarations never fails this check, and links to nothing or to indexes that are not nodes are not judged.',
 ['inputs', 'histories'], 'every link type declaration (single variant, set of variants, groups on either side), every graph and every transaction',
 'Tests check a few insertions; additions by redirect, mutate, update and bidirectional maintenance take other paths.',
 [TG, MT, M + 'link_check.rs'], [('check', TG + ': check_link_type; ' + MT + ': check_link_type'), ('recording of added links', TG + ': LinkChangeRecorder')],
 'bounded exhaustive exploration of real commits; refusal compared with the model on every one',
 'All graphs up to 2-3 nodes x all transactions up to 2-3 operations over four typed and two untyped schemas.')
prop('C13', 'A checked commit shows the checks exactly what changed',
 'A checked commit has the same effect as a plain one and runs every node check on every node that was inserted or changed (however the change came about) and that still exists, every link-added check on every link that exists now and did not before, and every link-removed check on every link that is gone from a surviving node; the checks see the committed state. If a check fails the commit panics, otherwise it does not.',
 ['inputs', 'histories'], 'every graph, every transaction, every choice of failing check',
 'Tests register one check and commit one kind of change.',
 [TG, CHK], [('change recording', TG + ': LinkChangeRecorder'), ('calling the checks', TG + ': commit_checked, check_change')],
 'bounded exhaustive exploration of real checked commits; the calls received are compared with the model\'s difference',
 'All graphs up to 2-3 nodes x all transactions up to 2 operations over 16 schemas, with recording checks, and with each call failing in turn.')
prop('C14', 'Derived declarations reflect the structs as written',
 'For every accepted node declaration, the derived information (link names and kinds, links by name and by group, data by name and type, variant and group membership, conversions between link descriptors) lists exactly the fields as declared, in order, with exactly their declared groups and current contents, for every documented spelling of a link type and any mix of fields, attributes and visibility. A field of any other type is data and is never treated as a link.',
 ['programs', 'inputs'], 'all node declarations over the documented link type spellings, field orders, group attributes and variants, and all contents of their fields',
 'The derive macros are only exercised on the handful of structs in the tests.',
 [M + 'typed_node.rs', M + 'node_enum.rs', M + 'group.rs', M + 'cate_arena.rs', MT], [('derive', M + 'typed_node.rs'), ('enum', M + 'node_enum.rs')],
 'exhaustive enumeration of declarations within a bound, compiled against the real macros and executed on all small contents',
 '703 (thorough 2571) generated declarations compiled with the real macros; everything they report is compared with the declaration for every content of a bounded family.', './zoo.sh')
prop('C15', 'Declarations through groups mean the same as written out in full',
 'A bidirectional or link type declaration that names a variant group or a link group (including a phantom group that some variants lack) behaves, on every graph and transaction, exactly like the list of declarations obtained by expanding the groups by hand; declaring the same pair more than once, or in the other direction, changes nothing; a link with several type declarations has to satisfy all of them. The order of the declarations, and how they are split into blocks, does not matter.',
 ['programs', 'histories'], 'all declarations of a bounded family of group shapes, and all small graphs and transactions for each',
 'Tests use one grouped declaration each and never compare it with its expansion.',
 [M + 'bidirectional.rs', M + 'link_check.rs', M + 'group.rs', M + 'typed_node.rs', MT], [('expansion', M + 'bidirectional.rs, ' + M + 'link_check.rs')],
 'exhaustive enumeration of grouped declarations within a bound, each compiled against the real macros and run on all small graphs and transactions against the reference model of its expansion',
 '149 (thorough 610) generated schemas; the reference model of each is given the declarations written out in full by an independent expansion.', './zoo.sh')
prop('C16', 'Turning the checks off changes nothing but the checks',
 'The crate builds and behaves the same with and without its debugging feature, and with and without debug assertions: every transaction that succeeds with checks enabled has the same result without them, and bidirectional maintenance, redirection and removal are unaffected. Without the feature link type declarations are simply not enforced; without debug assertions the misuses they guard against are not promised to be refused.',
 ['configurations', 'histories'], 'both configurations of the crate, every schema, graph and transaction',
 'The test suite runs in one configuration only.',
 ['Cargo.toml', TG, M + 'link_check.rs', M + 'bidirectional.rs', M + 'node_enum.rs'], [('conditional code', TG + ': cfg(feature)')],
 'bounded exhaustive exploration of real commits in the other build configuration against the reference model',
 'The same explorations as C01, C03, C04, C09-C11 on the crate built without the feature.', './nodebug.sh')
prop('C17', 'All set types are interchangeable as link containers',
 'For every history, a schema whose set links use one supported set type gives the same nodes, links and refusals as the same schema with any other supported set type, and every link type behaves the same whichever documented way it is spelled. Lists differ from sets only in keeping order, repetitions and places.',
 ['programs', 'histories'], 'all assignments of supported set types and spellings to the link fields of a schema, all small histories',
 'Tests use one container per scenario.',
 [M + 'typed_node.rs', TG], [('per container code', M + 'typed_node.rs: modify_link, add_link, remove_link, iter_links')],
 'exhaustive enumeration of container types and spellings, each schema run on all small histories against one reference model that does not know the container type',
 'All pairs of the five set types, every type alone and in groups, every documented spelling: 87 schemas, the same histories on each, all compared with the same model.', './zoo.sh')

prop('C18', 'Open transactions and graphs of one context do not disturb each other',
 'Any number of transactions of one context may be open at once. A graph changes only when a transaction is committed to it (or when it is merged away), and then exactly as if that transaction had been recorded right before its commit: recording, giving up, dropping or committing other transactions, to the same graph or to another graph of the context, changes nothing else, also when a commit to another graph is refused. An index handed out by one transaction can be used by the others, as the target of links and as the object of operations, and means its node as soon as that node is in the graph.',
 ['histories', 'schedules'], 'all interleavings of recording, committing and giving up of several open transactions on several graphs of one context, with links and operations that reach across them',
 'The tests finish one transaction before they begin the next and use one graph per context.',
 [TG, TX, CA, ID], [('pending operations', TX + ': Transaction'), ('commit', TG + ': do_commit, merge_nodes, redirect_links')],
 'exhaustive enumeration of interleavings of real transactions on two real graphs against the reference model',
 'Two graphs linked across, two (thorough three) open transactions, all items of one to two calls each, all orders of recording and closing, all assignments of transactions to graphs; both graphs compared in full after every commit, and every link looked up by its target at the end.')
prop('C19', 'Derived link editors change exactly the named link and report it truthfully',
 'For every declaration and every content, adding, removing or replacing a link through the derived code of a node or of the node enum (add_link, remove_link, modify_link) changes that entry of that link and nothing else, and the result says whether a link was really added or removed: adding what is already there and removing what is not there change nothing and say so, a single link that leads elsewhere is not overwritten by adding, an entry of a list keeps its place, and replacing by the empty index clears. A link of another variant is left alone.',
 ['programs', 'inputs'], 'all node declarations of a bounded family, all small contents of their fields, all editor calls',
 'The editors are only reached through a few commits in the tests, on a handful of structs.',
 [M + 'typed_node.rs', M + 'node_enum.rs', MT], [('editors', M + 'typed_node.rs: add_link, remove_link, modify_link'), ('dispatch', M + 'node_enum.rs: add_link, remove_link, modify_link')],
 'exhaustive enumeration of declarations, contents and calls within a bound, on the code generated by the real macros',
 'The declarations of C14, every call of an editor on every content; report and resulting fields (read directly) compared with what the declaration says.', './zoo.sh')

CLAIMED = os.environ.get('CLAIMED')
claimed = CLAIMED.split(',') if CLAIMED else [p['id'] for p in P]
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
  hooks=dict(guard='cfg ttgraph_mc', enable="RUSTFLAGS='--cfg ttgraph_mc --extern ttstd=c07/target/libttstd.rlib', set by c07.sh", source_commits=['74e434d']),
  checks=[dict(property=p['id'], quick_cmd=f"{p['cmd']} {p['id']} quick", thorough_cmd=f"{p['cmd']} {p['id']} thorough", technique=p['technique'], level='model_checking', level_note=p['note']) for p in P if p['id'] in claimed],
  not_applicable=[dict(property=p['id'], reason='machinery for this property is still being built') for p in P if p['id'] not in claimed])
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
