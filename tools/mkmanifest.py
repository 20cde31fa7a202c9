import json,sys
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CL=json.load(open('/verif/tools/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CL['claims']:
        c=CL['claims'][i]
        checks.append({"property":i,"quick_cmd":"python3-vt check.py %s --tier quick"%i,"thorough_cmd":"python3-vt check.py %s --tier thorough"%i,"technique":c['technique'],"level":c['level'],"level_note":c['note']})
    else:
        na.append({"property":i,"reason":CL['na'][i]})
m={"version":1,"setup_cmd":"python3-vt check.py --setup","checks":checks,"not_applicable":na,"hooks":{"guard":"VERIF_HOOKS","enable":"no hooks: /repo carries no instrumentation"},"notes":CL['notes']}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
