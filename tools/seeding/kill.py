import sys,os,subprocess,json,shutil
from concurrent.futures import ThreadPoolExecutor
args=[a for a in sys.argv[1:] if not a.startswith('-')]
SEEDS=os.environ.get('SEEDS','/verif/seeded')
ALL='--all' in sys.argv; TH='--thorough' in sys.argv
ids=args or sorted(os.listdir(SEEDS))
def run(id,prop,W):
    env=dict(os.environ,VERIF_REPO=W,VERIF_SEED='1',VERIF_TIER='quick')
    try: r=subprocess.run(['/verif/check.sh',prop]+(['--tier','thorough'] if TH else []),capture_output=True,text=True,env=env,timeout=900)
    except subprocess.TimeoutExpired: return prop,'T',''
    return prop,r.returncode,r.stdout
def one(id):
    W=f'/tmp/kill/{id}'; shutil.rmtree(W,ignore_errors=True); os.makedirs('/tmp/kill',exist_ok=True)
    subprocess.run(f'cp -a /repo {W} && git -C {W} apply {SEEDS}/{id}/patch.diff',shell=True,check=True)
    prop=json.load(open(f'{SEEDS}/{id}/meta.json'))['property']
    props=[f'C{i:02d}' for i in range(1,33)] if ALL else [prop]
    res=[run(id,p,W) for p in props]
    shutil.rmtree(W)
    own=[r for r in res if r[0]==prop][0]
    msg=f"{id} ({prop}): "+('CAUGHT' if own[1]==1 and 'VIOLATION property='+prop in own[2] else f'MISSED rc={own[1]}')
    if ALL: msg+=' | '+' '.join(p for p,rc,o in res if rc)
    return msg
with ThreadPoolExecutor(int(os.environ.get("KILLERS") or (4 if ALL else 6))) as ex:
    for m in ex.map(one,ids): print(m,flush=True)
