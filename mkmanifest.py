"""Writes MANIFEST.json (claimed properties below)."""
import json
CLAIMED = ['C01', 'C02', 'C03','C04','C05','C08','C09','C10','C11','C12','C13','C14','C15','C16','C06', 'C07', 'C17', 'C18','C19','C20','C21']
NA = {'C22': 'the program is one main() of file input and text output over an external JSON library; no deductive model of that library and of iostream exists here, so no contract can decide it'}
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
NOTE = ('Contracts on the functions of /repo, checked on the LLVM IR compiled from the current working tree: symbolic execution of each body for all inputs, '
        'callers against callee contracts, obligations discharged by a normaliser and z3. Reals for doubles; see DESIGN.md for assumptions.')
m = dict(version=1, setup_cmd='python3-vt -m verifier.setup', checks=[
    dict(property=p, quick_cmd='python3-vt -m verifier.check %s' % p, thorough_cmd='python3-vt -m verifier.check %s --tier thorough' % p,
         evidence_file='evidence/%s.json' % p, technique='contract-based deductive verification (function contracts, loop summaries by induction, SMT and algebraic normalisation)',
         level='proof', level_note=NOTE) for p in props if p in CLAIMED],
    not_applicable=[dict(property=p, reason=NA.get(p, 'contracts under construction')) for p in props if p not in CLAIMED],
    notes='Replay a reported violation with: python3-vt -m verifier.replay <file>')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
