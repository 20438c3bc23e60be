"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ncdiff/'
P = []


def prop(id, title, statement, qtext, why, files, mech, over=('inputs',),
         note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over),
                  qtext=qtext, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech],
                  note=note, na=na))


prop('C01', 'Applying a delta turns the first config into the second',
     'For any two configs A and B of a device, and for every documented choice of preferred_create, preferred_replace, preferred_delete, diff_type (minimum or replace) and replace_depth, the edit-config that B - A renders transforms A into B, both when the library applies it (A + (B - A) == B) and when a NETCONF server applies it by RFC 6241 and RFC 7950. '
     'The edit-config is accepted by such a server: no create of data that exists, no delete of data that does not, no replace on the <config> root, no insert relative to an entry that is not there at that point of the edit. '
     'This includes ordered-by user lists and leaf-lists at any depth, presence containers, choices, defaults, empty leaves, identityrefs, several keys and several modules.',
     'every pair of configs of the schema, every combination of rendering options',
     'The tests compare a few dozen hand-written pairs with expected XML; the pair of configs and the options are an unbounded input space, and most interactions (ordering x deletion x defaults x choices) are in no test.',
     ['netconf.py', 'calculator.py', 'config.py'],
     [('NetconfCalculator.sub/add', 'netconf.py'), ('ConfigDelta.nc', 'config.py'), ('Config.__add__, __sub__', 'config.py')])
prop('C02', 'A delta is empty exactly when nothing differs, and it is minimal',
     'For any two configs A and B, B - A is falsy, and its edit-config has nothing in it, exactly when A and B are the same config: same data, same order of the entries of ordered-by user lists, with values equal by type (identityref prefixes do not matter) and default values equal to absent ones. '
     'With diff_type "minimum" and preferred_replace "merge" the edit-config of B - A mentions only nodes that differ, plus list keys and the ancestors that lead to them.',
     'every pair of configs of the schema',
     'Equality must hold for all pairs: the tests contain a handful of equal pairs and no statement about what an edit-config must not mention.',
     ['netconf.py', 'calculator.py', 'config.py'],
     [('NetconfCalculator.node_sub', 'netconf.py'), ('ConfigDelta.__bool__', 'config.py'), ('BaseCalculator._same_leaf, _pair_children', 'calculator.py')])
prop('C03', 'A delta can be undone, and all ways to apply one agree',
     'For any two configs A and B and any rendering options, the delta d = B - A satisfies d + A == B, B + (-d) == A and B - d == A. '
     'A delta rebuilt from A and from the edit-config content of d, as an element or as text, has B as its destination and can be undone likewise.',
     'every pair of configs of the schema, every combination of rendering options',
     'No test covers the algebra of deltas for more than a few pairs; the law quantifies over all pairs.',
     ['config.py', 'netconf.py'],
     [('ConfigDelta.__neg__, __add__, __radd__, __sub__', 'config.py'), ('Config.__add__, __sub__', 'config.py')])
prop('C04', 'Comparison operators order configs by what they contain',
     'For any two configs A and B, A == B, A != B, A <= B, A >= B, A < B and A > B agree with semantic containment: A <= B exactly when every node of A is in B with the same value (entries of ordered-by user lists in the same relative order), A == B exactly when both contain each other, A < B exactly when A <= B and not A == B. '
     'Neither the order of nodes that YANG does not order, nor prefixes, nor values that equal the default make a difference.',
     'every pair of configs of the schema, every permutation of unordered nodes',
     'The tests compare a few literal configs; symmetry, antisymmetry and order independence are statements about all pairs.',
     ['calculator.py', 'config.py'],
     [('Config.__eq__, __lt__, __le__, __gt__, __ge__', 'config.py'), ('BaseCalculator.le, lt, _node_le', 'calculator.py')])
prop('C05', 'Operations leave their operands alone',
     'No operation on configs and deltas (+, -, comparison, negation, filter, reading attributes, rendering a delta, building a config or a delta from an element) changes any of its operands or the elements they were made from, and repeating it gives the same result. '
     'No result shares nodes with an operand: changing the result in place never changes an operand.',
     'every pair of configs of the schema, every operation',
     'Mutation of an operand shows only in particular code paths (moves, deletions, defaults) and only if someone looks at the operand afterwards; the tests do not.',
     ['config.py', 'netconf.py', 'calculator.py'],
     [('deepcopy before every edit', 'netconf.py'), ('Config.__init__, __deepcopy__, __add__', 'config.py'), ('ConfigDelta.nc', 'config.py')])
prop('C06', 'Adding an edit-config does what a NETCONF server does',
     'For any config A and any edit-config E with operations merge, replace, create, delete and remove on any of its nodes and with yang:insert attributes (first, last, before, after), A + E is the datastore content RFC 6241 section 7.2 and RFC 7950 sections 7.5.8 to 7.9 require. '
     'When the RFCs require an error (create of existing data, delete of missing data, insert relative to a missing entry), adding E raises ConfigError. '
     'Adding a config without operations merges it.',
     'every config of the schema, every placement of operations and insert attributes in every edit-config',
     'The tests apply a few edits; which operation meets which state of the datastore is a product space.',
     ['netconf.py', 'config.py'],
     [('NetconfCalculator.node_add and _node_add_*', 'netconf.py'), ('Config.__add__', 'config.py')])
prop('C07', 'A config is the canonical form of its input; bad input is rejected',
     'Whatever form the input of a config has (rpc-reply, edit-config, data or config element, text with any layout, with comments), the config holds the same data in canonical form: no values that equal their defaults, no empty non-presence containers, no obsolete nodes (and no deprecated ones if asked), everything else unchanged and in its order; normalising again changes nothing, and the results of additions are canonical too. '
     'Input that is not a config (a list entry without one of its keys, an edit attribute on any node, a node the schema does not have) raises ConfigError.',
     'every data tree of the schema, every input form, every place of a defect',
     'The tests build configs from literal replies; that every form and layout of all inputs gives the same config is universally quantified.',
     ['config.py'],
     [('Config.__init__, _validate_config, _validate_node, trim_defaults', 'config.py')])
prop('C08', 'filter() keeps exactly what the expression selects',
     'For any config and XPath expression, filter() returns a config with the selected nodes, everything inside them, their ancestors, and the keys of every list entry on the way, and nothing else. '
     'It does not change the config it is called on.',
     'every config of the schema, the listed kinds of XPath expressions with arbitrary literals',
     'The tests filter one or two literal configs; keeping too much or too little depends on siblings, keys and nesting.',
     ['config.py'],
     [('Config.filter, xpath', 'config.py')])
prop('C09', 'extract_config returns the config part of a reply, no more, no less',
     'For any reply of <get> or <get-config>, extract_config returns a config with every config true node of the reply that is not obsolete (nor deprecated, if asked), in canonical form, without any state data. '
     'The config extracted from <get> equals the one extracted from <get-config> of the same device, and the reply is not changed.',
     'every data tree of the schema with state data anywhere in it',
     'The tests extract one or two replies; where state data sits (in lists, next to keys, alone in a container) is unbounded.',
     ['manager.py', 'config.py'],
     [('ModelDevice.extract_config, get_schema_node', 'manager.py'), ('Config.__init__', 'config.py')])


NOTE = ('Decides the stated assertions for every value of the symbolic inputs '
        'within the bounds listed per scenario in the evidence file, by '
        'exhausting all feasible paths of the real code (re-read from /repo '
        'on every run) with Z3. Trusts CPython, Z3, lxml/libxml2 (executed '
        'natively) and the oracle in /verif/props. ')

# more properties are added by tools/props2.py
exec(open(os.path.join(HERE, 'tools', 'props2.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
m = dict(version=1,
         setup_cmd='python3 tools/selfcheck.py',
         checks=[], not_applicable=[])
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    m['checks'].append(dict(
        property=p['id'],
        quick_cmd='python3 check.py %s --tier quick' % p['id'],
        thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
        technique='symbolic execution of the real Python code, all paths '
                  'within bounds decided by Z3, counterexamples replayed',
        level='model_checking', level_note=NOTE + p['note']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
