import json,subprocess,os,shutil,sys
from multiprocessing import Pool,current_process
M=json.load(open('/tmp/mut/muts.json'))
M=[m for m in M if not (m['kind']=='str' and m['file']=='library.py')]
ENV=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',TZ='UTC',PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',LANG='C.UTF-8')
def work(m):
    w=f"/tmp/mut/w{current_process()._identity[0]}"
    if not os.path.exists(w):
        shutil.copytree('/repo',w,ignore=shutil.ignore_patterns('.git','build'))
    p=f"{w}/src/bare_script/{m['file']}"
    orig=open('/repo/src/bare_script/'+m['file'],'rb').read()
    open(p,'wb').write(orig[:m['s']]+m['new'].encode()+orig[m['e']:])
    try:
        r=subprocess.run(['nice','timeout','-k','2','60','/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','-p','pytest_timeout','--timeout=5','src/tests'],cwd=w,env=dict(ENV,PYTHONPATH=w+'/src'),capture_output=True)
        ok=r.returncode==0
    finally:
        open(p,'wb').write(orig)
    return m['id'],ok
if __name__=='__main__':
    with Pool(8) as p, open('/tmp/mut/surv.txt','w') as f:
        for i,(id_,ok) in enumerate(p.imap_unordered(work,M)):
            if ok: f.write(f'{id_}\n'); f.flush()
            if i%500==0: print(i,flush=True)
