#!/bin/bash
# dev.sh HARNESS CASE [defs...]: run one case with progress on stderr. SET=libc|mes; RB=1 rebuilds /tmp/w/$SET; env OPTS,T,L,O; CASE=all
H=$1; C=$2; shift 2
cd /verif
SET=${SET:-libc}
case $H in mes_*|scm_*) SET=mes;; esac
E=$(python3 -c "import sys;sys.path.insert(0,'lib');import vf;print(vf.engine())")
mkdir -p /tmp/w
B=/tmp/w/$(basename $H .c)-$$.bc
clang -g1 -O0 -Xclang -disable-O0-optnone -emit-llvm -c -Iharness -DHAVE_CONFIG_H=1 -I/repo/include -I/repo/include/linux/x86_64 -I/repo/lib -I/repo -nostdinc -fno-builtin -ffreestanding -w -Werror=implicit-function-declaration "$@" harness/$H -o $B || exit 1
[ -n "$RB" -o ! -d /tmp/w/$SET ] && SET=$SET python3 - <<'P'
import sys,shutil,os; sys.path.insert(0,'/verif/lib')
import vf
s=os.environ['SET']
w=vf.Work(); L=w.compile_bc((vf.mes_sources() if s=='mes' else [])+vf.lib_sources())
for e in w.errors: print(e)
shutil.rmtree('/tmp/w/'+s,ignore_errors=True); shutil.copytree(w.dir+'/bc','/tmp/w/'+s); w.close()
open('/tmp/w/%s/order'%s,'w').write('\n'.join('/tmp/w/%s/%s'%(s,os.path.basename(x)) for x in L))
P
[ $C = all ] && CC="--jobs 8" || CC="--case $C"
SX_VERBOSE=1 timeout ${T:-30} $E --entry sx_main $CC --out /tmp/w/o-$$.json $OPTS $B $(cat /tmp/w/$SET/order) 2>&1 | tail -${L:-5}
python3 - /tmp/w/o-$$.json <<'P'
import json,sys
for l in open(sys.argv[1]):
    c=json.loads(l)
    print('case',c['case'],'paths',c['paths'],'q',c['queries'],'solver %.1f'%c['solver_s'],'covers',c['covers'],'INCOMPLETE %s'%c['incomplete'] if c['incomplete'] else '')
    for v in c['violations'][:4]: print('   VIOL',v['id'],v['msg'],v['where'],v['inputs'][:60])
P
rm -f $B /tmp/w/o-$$.json
