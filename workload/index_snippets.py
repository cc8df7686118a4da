import json,subprocess,os,re
base='/verif/workload/snippets'
checks=','.join(c['name'] for c in json.load(open('/repo/checks.json'))['checks'])
idx={}
for d in sorted(os.listdir(base)):
    if not os.path.isdir(base+'/'+d): continue
    p='%s/%s/main.cpp'%(base,d)
    r=subprocess.run(['/repo/_build/bin/clazy-standalone','--checks='+checks,p,'--','-nostdinc','-isystem','/verif/workload/qt','-isystem','/verif/workload/qtmod','-std=c++17'],capture_output=True,text=True)
    ok=' error: ' not in r.stderr
    cs=sorted(set(re.findall(r'-Wclazy-([\w-]+)',r.stderr)))
    print(d,ok,len(re.findall(r'\[-Wclazy',r.stderr)),cs)
    if not ok: print('\n'.join(l for l in r.stderr.split('\n') if 'error:' in l))
    idx[d+'/main.cpp']={'checks':cs,'flags':['-std=c++17'],'ok':ok}
json.dump(idx,open(base+'/index.json','w'),indent=1,sort_keys=True)
