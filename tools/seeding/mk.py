import sys, os, subprocess, json, shutil, textwrap
BUGS={}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id]=(prop,edits,textwrap.dedent(demo).lstrip("\n"),needs,breaks)
PRE='''import os, sys, tempfile
os.chdir(tempfile.mkdtemp())
from mau import Mau, BaseVisitor, YamlVisitor, JinjaVisitor, Environment
from mau.message import BaseMessageHandler, MauException


class Handler(BaseMessageHandler):
    type = "demo"

    def __init__(self):
        self.messages = []

    def process_lexer_error(self, message):
        self.messages.append(message)

    process_parser_error = process_visitor_error = process_visitor_debug = process_lexer_error


def process(text, env=None, visitor=BaseVisitor, source="main.mau", handler=None):
    mau = Mau(handler or Handler(), Environment.from_dict(env or {}))
    return mau.process(visitor, text, source)


def rejected(text, env=None):
    try:
        process(text, env)
    except MauException:
        return True
    return False


'''
SH='#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
W='/tmp/seedrepo'
# Bugs in lines that are not original do not count: -u keeps them elsewhere, to try the checks on them.
OUT='/tmp/unofficial' if '-u' in sys.argv else '/verif/seeded'
exec(open('/verif/tools/seeding/bugs.py').read()); exec(open('/verif/tools/seeding/bugs3.py').read()); exec(open('/verif/tools/seeding/bugs4.py').read()); exec(open('/verif/tools/seeding/bugs5.py').read()); exec(open('/verif/tools/seeding/bugs6.py').read()); exec(open('/verif/tools/seeding/bugs7.py').read()); exec(open('/verif/tools/seeding/bugs8.py').read()); exec(open('/verif/tools/seeding/bugs9.py').read()); exec(open('/verif/tools/seeding/bugs10.py').read()); exec(open('/verif/tools/seeding/bugs11.py').read()); exec(open('/verif/tools/seeding/bugs12.py').read()); exec(open('/verif/tools/seeding/bugs13.py').read()); exec(open('/verif/tools/seeding/bugs14.py').read()); exec(open('/verif/tools/seeding/bugs15.py').read()); exec(open("/verif/tools/seeding/bugs16.py").read()); exec(open("/verif/tools/seeding/bugs17.py").read()); exec(open("/verif/tools/seeding/bugs18.py").read()); exec(open("/verif/tools/seeding/bugs19.py").read())
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(id):
    prop,edits,demo,needs,breaks=BUGS[id]
    out=f'{OUT}/{id}'
    if os.path.exists(out+'/meta.json') and '-f' not in sys.argv: return
    shutil.rmtree(W,ignore_errors=True); sh(f'cp -a /repo {W}')
    for f,a,b in edits:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(a)!=1: print(id,'EDIT',f,s.count(a),repr(a[:60])); return
        open(p,'w').write(s.replace(a,b))
    d=sh(f'git -C {W} diff').stdout
    # changed lines of the original
    ok=0
    for f in {e[0] for e in edits}:
        orig=sh(f'git -C {W} show f981b39:{f}').stdout.split('\n')
        minus=[l[1:] for l in sh(f'git -C {W} diff -- {f}').stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
        ok+=sum(1 for l in minus if l.strip() and l in orig)
    if not ok and OUT=='/verif/seeded': print(id,'NOT ORIGINAL LINES'); return
    t=sh(f'cd {W} && PYTHONPATH={W} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov -x tests 2>&1 | tail -15')
    if 'passed' not in t.stdout or 'failed' in t.stdout: print(id,'TESTS',t.stdout[-1200:]); return
    os.makedirs(out,exist_ok=True)
    open(out+'/demo.py','w').write(PRE+demo); open(out+'/demo.sh','w').write(SH); os.chmod(out+'/demo.sh',0o755)
    open(out+'/patch.diff','w').write(d)
    g=sh(f'cd /repo && bash {out}/demo.sh'); b=sh(f'cd {W} && PYTHONPATH={W} bash {out}/demo.sh')
    chk=sh(f'git -C /repo apply --check {out}/patch.diff')
    if g.returncode or not b.returncode or chk.returncode:
        print(id,'DEMO good',g.returncode,g.stderr[-400:],'bad',b.returncode,b.stderr[-300:],chk.stderr); shutil.rmtree(out); return
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(out+'/meta.json','w'),indent=1)
    print(id,'ok |',b.stderr.strip().split('\n')[-1][:150])
for id in ([a for a in sys.argv[1:] if a not in ('-f','-u')] or BUGS): make(id)
shutil.rmtree(W,ignore_errors=True)
