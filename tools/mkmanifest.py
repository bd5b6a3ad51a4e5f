"""writes MANIFEST.json and levels.json"""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = 'machine floating point is treated as real arithmetic with +-inf and null tracked separately (rounding is not modelled; the bounded runs use real floats)'
LIB = 'contracts of numpy and pandas operations in dv/lib_np.py and dv/lib_pd.py are trusted (cross-checked only by the bounded runs on the real libraries)'
ENG = 'the symbolic interpreter dv/ (Python semantics of the subset used) is trusted; anything outside its subset makes a unit undecided, never proved'
BND = 'the bounded stand-in explores only the seeded cases it counts'
P = {}


def p(id, level, note, explanation, scale=3.0, assumptions=()):
    P[id] = dict(level=level, note=note, explanation=explanation, scale=scale, assumptions=list(assumptions))


exec(open(os.path.join(H, 'tools', 'props_levels.py')).read())
T = {'proof': 'contract-based deductive verification: own VC generator over /repo\'s text, obligations discharged by z3 and cvc5; bounded run on the real code as cross-check',
     'other': 'contract-based deductive verification (z3, cvc5) of the core functions; bounded stand-in on the real code, labelled bounded, for the rest',
     'exploration': 'bounded stand-in for contracts: executable pre/postconditions checked on seeded inputs of the real code (bounded, not proved)'}
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
man = dict(version=1, setup_cmd='bash bin/setup.sh', hooks=dict(guard='ANTICIPY_VERIF (unused: the machinery needs no hooks in the package)', enable='nothing to enable; checks read /repo as it is', source_commits=[]),
           checks=[], not_applicable=[])
lev = {}
for i in ids:
    d = P[i]
    man['checks'].append(dict(property=i, quick_cmd='python3-vt bin/check.py %s quick' % i, thorough_cmd='python3-vt bin/check.py %s thorough' % i,
                              evidence_file='evidence/%s.json' % i, technique=T[d['level']], level=d['level'], level_note=d['note']))
    lev[i] = dict(level=d['level'], scale=d['scale'], explanation=d['explanation'], assumptions=[ENG, LIB, REAL] * (d['level'] != 'exploration') + [BND] + d['assumptions'])
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
json.dump(lev, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
