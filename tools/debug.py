import logging,sys,json,importlib
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
f=sys.argv[1]; lvl=sys.argv[2] if len(sys.argv)>2 else 'DEBUG'
logging.basicConfig(level=getattr(logging,lvl),stream=sys.stdout)
from harness import engine
r=json.load(open(f))
m=importlib.import_module('checks.'+r['property'].lower())
part=[p for p in m.PARTS if p.name==r['part']][0]
print(r.get('story'))
print(engine._execute(part, engine.Data(replay=r['choices']), None))
