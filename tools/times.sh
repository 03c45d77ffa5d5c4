#!/bin/bash
# per-harness seconds of the last run of property $1
python3 -c "
import json,sys
e=json.load(open('/verif/evidence/$1.json'))
for i in sorted(e['coverage']['functions_under_contract'],key=lambda i:-i['seconds']): print(i['seconds'],i['harness'],i['checks'],i['status'])
print('wall',e['wall_s'])"
