import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p,e['tier'],'wall',e['wall_s'],'eval',c['evaluations'],'distinct',c['distinct_nontrivial'], 'viol',len(e['violations']))
    for s in c.get('stages',[]): print('   %-22s %-8s %s cases %d nt %d distinct %d discards %d wall %.1f%s'%(s['test'],s['variant'],'G' if s.get('guided') else ' ',s['cases'],s['nontrivial'],s['distinct'],s['discards'],s['wall'],' DEADLINE' if s.get('deadline') else ''))
