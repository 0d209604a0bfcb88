"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json,sys
sys.path.insert(0,'/verif/tools')
from config import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
 'rust':'Rust library driven through its public API',
 'rustt':'Rust library used by several threads','ct':'C library used by several threads','pyt':'Python package used by several threads','c':'C library driven through gphrx.h','py':'Python package driven through its classes'}
checks=[]
for p in props:
    i=p['id']; c=CHECKS[i]
    apis=sorted({x[0] for x in c['quick']})
    models=c['models']
    tours=[t[1] for t in c['tours']['quick']]
    note=('The TLA+ specification is model checked exhaustively by TLC within small constants ('+', '.join('MC:'+m for m in models)+'); '
      +('every transition or case of '+', '.join(sorted(set(tours)))+' is (in quick: a seeded part of them) replayed into the implementation; ' if tours else '')
      +'every recorded call of generated histories ('+'; '.join(NOTE[a] for a in apis)+') is checked by TLC to be a step of the specification with W=8-byte words and 8x8 blocks. '
      'Exhaustive within the models\' constants, sampled beyond them. Trusts TLC, the driver that records calls and results, and that the specification says what the property says.')
    checks.append({'property':i,'quick_cmd':f'python3 tools/check.py {i}','thorough_cmd':f'VERIF_TIER=thorough python3 tools/check.py {i}',
      'evidence_file':f'evidence/{i}.json','technique':'TLA+ specification: TLC model checking, replay of model tours, and TLC trace validation of recorded calls',
      'level':'model_checking','level_note':note})
json.dump({'version':1,'setup_cmd':'bash tools/setup.sh','checks':checks,'not_applicable':[],
 'notes':'No hooks in /repo are needed: everything is observed through the public Rust, C and Python interfaces.'},open('/verif/MANIFEST.json','w'),indent=1)
