#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/table.py."""
import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
from table import PROPS, NOT_APPLICABLE
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps({'id':p['id'],'title':p['title'],'statement':p['statement'],
            'quantifier':{'over':p.get('over',['inputs']),'text':p['forall']},'why_tests_cant':p['why'],
            'anchors':{'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']]}})+'\n')
m={'version':1,'setup_cmd':'./check.sh build','checks':[],'not_applicable':[]}
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        m['not_applicable'].append({'property':p['id'],'reason':NOT_APPLICABLE[p['id']]}); continue
    m['checks'].append({'property':p['id'],'quick_cmd':'./check.sh %s quick'%p['id'],'thorough_cmd':'./check.sh %s thorough'%p['id'],
        'technique':p.get('technique','deductive verification: contracts on the Go functions, verification conditions from go/ssa discharged by z3/cvc5'),
        'level':p.get('level','proof'),'level_note':p['note']})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
