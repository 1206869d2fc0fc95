"""writes /verif/MANIFEST.json from the rule modules present"""
import json
import os
NA = {
 'C27': 'Statistical accuracy and coverage depend on the distribution of the data and of the random draws; no static argument over the source bounds estimation error. The formulas themselves are covered by C04, C16, C17, C20, C21, C25.',
 'C28': 'Needs field ground truth: whether a row was clipped is not a function of the source. The rule the code applies is covered by C26.',
 'C29': 'Termination and the one-event-per-island result depend on positions found at run time in a data-dependent while loop over a mutated array; the abstract domain here cannot bound them.',
}
TECH = {
 'C01': 'alias and effect analysis over the value-flow graph: no write may reach an object rooted in a caller argument',
 'C02': 'field read/write (typestate) analysis over call histories plus module/default-argument effect analysis',
 'C03': 'effect analysis of entropy sources and unordered iteration, seed-forwarding by value flow',
 'C05': 'option-constant propagation: with an unrecognised constant no normal return may be reachable',
 'C06': 'path-sensitive guard analysis: under the violated precondition no normal return may be reachable',
 'C10': 'homogeneity-degree (units) type inference over the value-flow graph',
 'C11': 'index-provenance dataflow analysis',
 'C12': 'dependency (taint) analysis of every parameter and value-flow equality at forwarding sites',
 'C18': 'producer/consumer schema analysis of result dictionaries over all return paths',
}
DEF = 'value-flow (gated SSA) extraction by abstract interpretation and global value numbering of the extracted formulas against reference definitions'
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)['id'] for x in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(root, 'rdcheck', 'rules', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 -m rdcheck %s --tier quick' % p, 'thorough_cmd': 'python3 -m rdcheck %s --tier thorough' % p,
                       'technique': 'static analysis: ' + TECH.get(p, DEF), 'level': 'other',
                       'level_note': 'static analysis of the source on every run; never executes the package'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no rule built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m rdcheck --selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
