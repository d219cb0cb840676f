#!/usr/bin/env python3
# plant.py ID PROP NEEDS BREAKS CMD [inputs...]: saves the dirty diff of /repo as a planted bug.
# CMD: shell text, run with $D (dump_syms), $H (demo dir), $T (scratch); its stdout is compared with that of the clean tree.
import sys,os,subprocess,json,shutil
id,prop,needs,breaks,cmd,*inp=sys.argv[1:]
d=f'/verif/seeded/{id}';os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(['git','-C','/repo','diff'],text=True);assert diff.strip()
open(d+'/patch.diff','w').write(diff)
for i in inp: shutil.copy(i,d)
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# {breaks}
H=$(cd "$(dirname "$0")" && pwd); D=$PWD/target/debug/dump_syms; export H D
T=$(mktemp -d); export T; trap 'rm -rf "$T"' EXIT
run() {{
{cmd}
}}
run >"$T/.out" 2>"$T/.err"
diff "$H/expected" "$T/.out"
''')
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
def demo(write=False):
    if write:
        open(d+'/expected','w').close()
        o=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',stdout=subprocess.PIPE,text=True).stdout
        out=''.join(l[2:]+'\n' for l in o.splitlines() if l.startswith('> '))
        open(d+'/expected','w').write(out)
    return subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',stdout=subprocess.PIPE,text=True)
b=lambda: subprocess.check_call(['bash','/opt/vp/build.sh'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
b()
r=demo(True);print('clean',r.returncode)
print(open(d+'/expected').read()[:1500])
subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
b()
r=demo();print('bug',r.returncode);print(r.stdout[:1500])
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
b()
