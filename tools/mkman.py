import json,sys
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from checks.props import PROPS
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
man={'version':1,'setup_cmd':'bash tools/setup.sh',
 'hooks':{'guard':'CATIMA_VERIFICATION','enable':'the checks compile /repo/src with -DCATIMA_VERIFICATION -DCATIMA_MAX_DATAPOINTS=n -DCATIMA_MAX_STORAGE_DATA=m where a small table or cache is needed; all other checks compile it without the define','source_commits':['ecaf983']},
 'checks':[],'not_applicable':[],'notes':'One symbolic executor (symex/) for LLVM IR of the real sources, Z3/cvc5 as solvers, every counterexample replayed against a native sanitizer build of the same sources before it is reported. See DESIGN.md.'}
for i in ids:
    if i in PROPS and not PROPS[i].get('off'):
        p=PROPS[i]
        man['checks'].append({'property':i,'quick_cmd':'python3-vt checks/run.py '+i,'thorough_cmd':'python3-vt checks/run.py '+i,'evidence_file':'evidence/%s.json'%i,
          'technique':'symbolic execution of the compiled source (LLVM IR) with SMT verdicts, native replay','level':p.get('level','model_checking'),
          'level_note':p.get('note') or ('All values within the bounds: '+p['bounds'] if p.get('bounds') else 'All values within the bounds stated in DESIGN.md.')+' Assumes real arithmetic for doubles unless stated; solver, executor and LLVM front end are trusted, counterexamples are not (they are replayed).'})
    else:
        man['not_applicable'].append({'property':i,'reason':(PROPS.get(i,{}).get('off') or 'No check built yet.')})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
print(len(man['checks']),len(man['not_applicable']))
