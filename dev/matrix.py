#!/usr/bin/env python3
"""matrix.py <workers> <scale> [plant...]: whether (or with ALL=1: which) checks catch each planted bug, at a fraction of the quick tier's
case counts. Appends to /tmp/matrix.tsv; plants already there are skipped."""
import subprocess,sys,os,json,threading,queue,re,tempfile,shutil
W=int(sys.argv[1]); SC=sys.argv[2]; only=sys.argv[3:]
OUT='/tmp/matrix.tsv'
done={l.split('\t')[0] for l in open(OUT)} if os.path.exists(OUT) else set()
props=['C%02d'%i for i in range(1,26)]
q=queue.Queue()
for d in sorted(os.listdir('/verif/seeded')):
    if (not only and d not in done) or d in only: q.put(d)
lock=threading.Lock()
def worker():
    while True:
        try: d=q.get_nowait()
        except queue.Empty: return
        own=json.load(open(f'/verif/seeded/{d}/meta.json'))['property']
        t=tempfile.mkdtemp(prefix='mx')
        subprocess.run(['cp','-a','/repo',t+'/repo'])
        subprocess.run(['git','apply',f'/verif/seeded/{d}/patch.diff'],cwd=t+'/repo',check=True)
        r=subprocess.run(['bash','/verif/dev/try.sh',t+'/repo','quick',f'-scale {SC} -shards 2']+(props if os.environ.get('ALL') else [own]),capture_output=True,text=True,env=dict(os.environ,QUIET='1',VERIF_SEED='1'))
        rc=dict(re.findall(r'== (C\d\d) rc=(\d+)',r.stdout))
        caught=[p for p in props if rc.get(p)=='1']; odd=[p for p in rc if rc[p] not in('0','1')]
        shutil.rmtree(t,ignore_errors=True)
        with lock:
            open(OUT,'a').write(f"{d}\t{own}\t{'own' if own in caught else 'MISSED'}\t{' '.join(caught)}\t{' '.join(odd)}\n")
ts=[threading.Thread(target=worker) for _ in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
