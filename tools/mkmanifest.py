#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
 'lex':("bounded exhaustive model checking of the implementation (every literal of the bounded grammar and alphabet) against an executable reference model",
   "Every string/value inside the stated bounds is executed on the real type and compared with an independent reference model of the XSD lexical and value space. Nothing outside the bounds and alphabets is covered; the reference model is trusted."),
 'xml':("bounded exhaustive model checking of the implementation (every document/position/history in bounds) against an executable reference model",
   "Every combination of value type, XML position and surrounding content inside the bounds is serialized/deserialized by the real code and compared with a reference model. yaserde and xml-rs are trusted only as far as the comparison sees them."),
 'gen':("explicit-state bounded exhaustive exploration of schema space on the real generator, compared with an executable reference model via the generated code's syntax tree",
   "Every schema of the bounded, deviation-limited grammar is run through the real parser and generator; the output is parsed with syn, reduced to items/fields/attributes and compared with the reference model's prediction. Judges what the output means, not its formatting."),
 'cli':("bounded exhaustive exploration of file-system histories of the real command-line tool against a reference model of the resulting tree",
   "Every history of tool runs within the bounds is executed with the real binary in scratch directories and the whole resulting tree is compared with the model."),
 'e2e':("bounded exhaustive exploration: every schema and instance/value of the bounded space is generated, compiled with rustc, executed and compared with an executable reference model",
   "Generated modules are compiled against the real support crates and every value/instance in bounds is executed."),
}
CLAIMED={**{f'C{i}':'lex' for i in range(20,29)}}
exec(open(os.path.join(V,'tools/claimed.py')).read()) if os.path.exists(os.path.join(V,'tools/claimed.py')) else None
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in CLAIMED:
        t,n=T[CLAIMED[p]]
        checks.append(dict(property=p,quick_cmd=f"bash check.sh {p}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p}",technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=p,reason="check under construction"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
