"""Compares the small shell (sim/shell.py) with the real bash on scripts that only start a stand-in called python."""
import sys,subprocess,os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.makedirs('/tmp/shell_vs_bash/bin', exist_ok=True)
open('/tmp/shell_vs_bash/bin/python','w').write('#!/bin/bash\nprintf "L"; for a in "$@"; do printf "|%s" "$a"; done; echo " N=$OMP_NUM_THREADS"\n'); os.chmod('/tmp/shell_vs_bash/bin/python', 0o755)
from sim import shell
scripts=[]
for f in ('deploy_experiments.sh','deploy_experiments_kuka.sh','deploy_experiments_kuka_adaptive.sh'):
    for tid in ('1','7','50','200','201','',):
        for args in (['99','5000','0'],['0','0','1'],['0.02','0.03','0.17'],['1','2','3']):
            scripts.append((open('/repo/exps/tamp_environment/'+f).read().replace('$(date +"%Y%m%d-%H%M%S")','XX'),args,{'SLURM_ARRAY_TASK_ID':tid}))
extra=['''
run() { local k=$1; shift; python "$k" "$@" --n=$#; }
for i in $(seq 3); do run $i "a b" c; done
''','''
set -e
x=3
while [ $x -gt 0 ]; do x=$((x-1)); if [[ $x == 1 && "$1" != "z" ]]; then continue; fi; python loop $x; done
false || python after
false
python never
''','''
arr=(one two "three four")
for a in "${arr[@]}"; do python "$a" ${#arr[@]}; done
python ${arr[1]} "${arr[2]}"
case "$3" in 0) python zero;; 1|2) python onetwo ;; *) python other;; esac
''','''
n=${1:-5}; m=${zz:-7}
((n+=2)); for ((i=0;i<3;i++)); do python $i $n $m; done
p="/a/b/c.txt"; python ${p##*/} ${p%.txt} ${p%/*} $(basename $p) $(dirname "$p")
if (( n == 101 )); then python yes; else python no; fi
[ "$1" -eq 99 ] && python eq || python ne
''','''
x="a  b"; python $x "$x" '$x' \\$x "q\\"q"
OMP_NUM_THREADS=9 python pre
export OMP_NUM_THREADS=3
( cd /tmp; python sub )
python $(echo hi there) `echo bt` $((3*4+2)) $(( $1 % 10 ))
for w in {1..3}; do python $w; done
until [ "${q:=1}" -ge 3 ]; do q=$((q+1)); python u $q; done
[ a -eq 1 ]; python $?
[ -z "$un" ] && python empty
! false && python neg
printf "%s-%03d\\n" a 7 
exit 4
python x
''']
os.makedirs('/tmp/shell_vs_bash/g/sub', exist_ok=True)
for n in ('a1', 'ab', 'a[1]', 'what?', 'whatx', 'sub/x.csv', 'sub/y.csv', 'sub/.h', 'my file', 'e*'):
    open('/tmp/shell_vs_bash/g/' + n, 'w').close()
extra.append(r'''
cd g
python *; python a[1b]; python ./what?; python sub/*.csv "sub/*"; python no*such; python 'a*'b; python */*; python a\[1\] "what?" my\ file 'e*' e\*
x='sub/*.csv'; python $x "$x"; python [!a]*; python $PWD/a?; y='my file'; python $y; python ./a[1]; python ./e* ; python -x=[abc] [ ]
''')
extra += ['for i in 1 2; do python a $((08)); python b; done; python c $?', 'python a\npython $((09))\npython c', 'for i in 1 2; do\n if [ 1 -eq 1 ]; then python x $((09)); fi\ndone\npython c',
          'for i in $(seq -w 8 11); do python $i; done\nfor i in $(seq -f "%03g" 1 3); do python $i $((i)); done; python $(seq -s , 3) $((010)) $((0x10))',
          'f() { python $((09)); python in; }; f; python out\npython x; x=$(echo $((09)); echo y); python "a$x" $?', 'python $((1/0))\npython z', 'seq 0; python e; for i in $(seq 3 -1 1); do python $i; done']
for e in extra:
    scripts.append((e,['99','5','1'],{'SLURM_ARRAY_TASK_ID':'3'}))
bad=0
for s,a,env in scripts:
    e=dict(PATH='/tmp/shell_vs_bash/bin:/usr/bin:/bin',HOME='/root',**env)
    r=subprocess.run(['bash','-c',s,'job.sh']+a,env=e,cwd='/tmp/shell_vs_bash',capture_output=True,text=True)
    want=[l for l in r.stdout.splitlines() if l.startswith('L|')]
    got=[]
    def launch(argv,en,cwd):
        if argv[0]!='python': return 127
        got.append('L'+''.join('|'+x for x in argv[1:])+' N='+en.get('OMP_NUM_THREADS',''))
        return 0
    rc=shell.run_script(s,e,'/tmp/shell_vs_bash',launch,a,'job.sh',lambda:1e9,
                        ls=lambda d: sorted(os.listdir(d)) if os.path.isdir(d) else [])
    if got!=want or rc!=r.returncode:
        bad+=1; print('DIFF',s[:300],a,env,'\nwant',want,r.returncode,r.stderr[:300],'\ngot',got,rc)
print(len(scripts),bad)
