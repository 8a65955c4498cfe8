# compile + tests; writes survivors to surv.jsonl
import json,os,subprocess,sys,random,hashlib,shutil,concurrent.futures,threading
B='/tmp/mut/base'
F=['-O2','-fPIC','-std=c++11','-I/repo/src','-DBOOST_NO_CXX11_SCOPED_ENUMS','-D_FILE_OFFSET_BITS=64','-D__STDC_FORMAT_MACROS','-DLIBSUB_POSIX','-DLIBSUB_VERSION="devel"','-w']
objs=sorted(os.listdir(B+'/obj'))
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
lock=threading.Lock()
def h(p): 
    # code only
    subprocess.run(['objcopy','-O','binary',p,p+'.bin'],stderr=subprocess.DEVNULL)
    r=subprocess.run(['objdump','-drs','--no-show-raw-insn',p],stdout=subprocess.PIPE).stdout
    if os.path.exists(p+'.bin'): os.unlink(p+'.bin')
    return hashlib.sha256(r.split(b'\n',3)[3]).hexdigest()
orig={o:h(B+'/obj/'+o) for o in objs}
def one(m,w):
    d='/tmp/mut/w%d'%w
    f=m['file']; t=open('/repo/src/'+f).read()
    assert t[m['start']:m['end']]==m['old']
    os.makedirs(d+'/s',exist_ok=True)
    p=d+'/s/'+f
    open(p,'w').write(t[:m['start']]+m['new']+t[m['end']:])
    o=d+'/'+f+'.o'
    try:
        r=subprocess.run(['g++']+F+['-c',p,'-o',o],stderr=subprocess.DEVNULL,timeout=200)
    except subprocess.TimeoutExpired: return 'nocompile'
    if r.returncode: return 'nocompile'
    if h(o)==orig[f+'.o']: os.unlink(o); return 'equivalent'
    lib=d+'/lib/libsub-1.0.so'; os.makedirs(d+'/lib',exist_ok=True)
    r=subprocess.run(['g++','-shared','-o',lib,o]+[B+'/obj/'+x for x in objs if x!=f+'.o']+['-lboost_filesystem','-lboost_locale','-lboost_regex','-lpthread'],stderr=subprocess.PIPE)
    os.unlink(o)
    if r.returncode: return 'nolink'
    cwd=d+'/repo'
    if not os.path.exists(cwd):
        os.makedirs(cwd+'/build/test'); shutil.copytree('/repo/test',cwd+'/test')
    env=dict(os.environ,LD_LIBRARY_PATH=d+'/lib',LC_ALL='C')
    for g in os.listdir(cwd+'/build/test'): os.unlink(cwd+'/build/test/'+g)
    for tname in stable:
        try: r=subprocess.run(['/repo/build/test/tests','--run_test='+tname,'--','/nonexistent'],cwd=cwd,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=10)
        except subprocess.TimeoutExpired: return 'killed:'+tname
        if r.returncode: return 'killed:'+tname
    return 'survived'
ms=json.load(open(sys.argv[1])); random.Random(1).shuffle(ms)
done=set()
out=sys.argv[2]
if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
import queue
q=queue.Queue()
for m in ms:
    if m['id'] not in done: q.put(m)
fo=open(out,'a')
def work(w):
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        r=one(m,w)
        with lock:
            m['result']=r; fo.write(json.dumps(m)+'\n'); fo.flush()
ths=[threading.Thread(target=work,args=(w,)) for w in range(int(sys.argv[3]))]
[t.start() for t in ths]; [t.join() for t in ths]
