import json,sys
f=lambda p:''.join(k for k,n in zip('RWO',('read','write','drop')) if p[n])
def vs(d):
    t=d['type']; v=d.get('value')
    return ('+' if t=='High' else '-' if t=='Low' else '=')+('' if v is None else str(v))
for l in sys.stdin:
    o=json.loads(l); print(o['name'])
    r=o['r'].get('Ok')
    if not r: print(o['r']); continue
    for b in r['boundaries']:
        e,a=f(b['expected']),f(b['actual'])
        print('  B %d:%d'%(b['location']['line']+1,b['location']['column']+1),'exp',e,'act',a,'VIOL' if set(e)-set(a) else '',{k:v for k,v in b['data'].items() if k.startswith(('loan','path')) and v is not False}, b.get('expecting_flow') or '')
    if '-s' in sys.argv:
      for s in sorted(r['steps'],key=lambda s:(s['location']['start']['line'])):
        p=lambda q:'%d:%d'%(q['line']+1,q['column']+1)
        print('  S',p(s['location']['start']),p(s['location']['end']))
        for t in s['state']:
            print('    T',*(p(t[x][y]) for x in('from','to') for y in('start','end')))
            for pl,d in t['state']:
                pm=d.pop('permissions')
                print('      %-10s'%pl,' '.join(k+vs(pm[n]) for k,n in zip('RWO',('read','write','drop'))),{k:vs(v) for k,v in d.items() if v['type']!='None'})
    if '-r' in sys.argv:
      for k in('loan_points','loan_regions','move_points','move_regions'): print('  ',k, json.dumps(r[k]).replace('"filename": {"private_use_as_methods_instead": 0}, ',''))
