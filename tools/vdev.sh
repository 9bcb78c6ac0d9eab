#!/bin/bash
# development helper: [STUB="fn paths"] [EXTRA=file] vdev.sh "<modules>" [verus args]
cd /verif && python3 - "$1" <<'P'
import sys, os; sys.path.insert(0,'/verif/tools'); import vx, glob
mods=sys.argv[1].split()
if mods==['all']: mods=sorted(f[:-3] for f in os.listdir(vx.CONTRACTS) if f.endswith('.rs'))
specs=['/verif/contracts/spec/vx.rs']+[f for f in sorted(glob.glob('/verif/contracts/spec/*.rs')) if not f.endswith('vx.rs')]
if os.environ.get('EXTRA'): specs.append(os.environ['EXTRA'])
t,r,m=vx.extract(mods,'/tmp/vw/out.rs',specs,os.environ.get('STUB','').split())
print('changed',r.changed,'lost',r.lost,'new',r.new,'gone',r.gone,'subst_lost',r.subst_lost) if not r.clean() or r.changed else None
P
shift
cd /tmp/vw && time timeout 900 verus out.rs --crate-type=lib --multiple-errors 3 --num-threads 8 --triggers-mode silent "$@" 2>&1 | grep -v "^note: \|^$" | head -${N:-90}
