ROOT=__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
import json,subprocess
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
checks=json.load(open(ROOT+'/checks.json'))
NA=json.load(open(ROOT+'/tools/na.json'))
notes=json.load(open(ROOT+'/tools/notes.json'))
m=dict(version=1,setup_cmd="./run.sh build",checks=[],not_applicable=[],notes="All checks are one engine (engine/, gosym): symbolic execution of the SSA of /repo's current tree, z3/cvc5 deciding every branch and assertion; harnesses in harness/, bounds in checks.json.")
for p in props:
    i=p['id']
    if i in checks:
        m['checks'].append(dict(property=i,quick_cmd="./run.sh %s quick"%i,thorough_cmd="./run.sh %s thorough"%i,technique="symbolic execution of the real code's SSA with SMT (z3/cvc5) deciding every path and assertion within bounds",level="model_checking",
          level_note=notes.get(i,"Holds for every value within the stated bounds (checks.json, evidence 'bounds'); trusts the gosym SSA semantics (validated per run by replaying path models natively), the solvers and the Go front end.")))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'claimed',len(m['not_applicable']),'n/a')
