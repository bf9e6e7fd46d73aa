import sys,json,subprocess,os,collections,time
# drv.py driver seed runs steps optjson
d,seed,runs,steps,opt=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]),json.loads(sys.argv[5])
out=sys.argv[6] if len(sys.argv)>6 else '/tmp/w/t.ndjson'
json.dump(dict(driver=d,seed=seed,runs=runs,steps=steps,out=out,ops_out='/tmp/w/ops.json',opt=opt),open('/tmp/w/job.json','w'))
e=dict(os.environ,VERIF_JOB='/tmp/w/job.json')
t=time.time()
p=subprocess.run(['/tmp/v.test','-test.run','^TestVerif$','-test.timeout','0'],env=e,cwd='/tmp/w',stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
o=p.stdout.decode(errors='replace')
if p.returncode: print(o[:6000])
print('rc',p.returncode,'%.1fs'%(time.time()-t),os.path.getsize(out))
