import json,os,subprocess,sys,time,shutil
MAP={
'colour.cc':'C21 C01 C22','effect.cc':'C22 C21','exceptions.cc':'C20','font_size.cc':'C21 C03','horizontal_position.cc':'C21',
'iso6937.cc':'C09 C06 C13 C17','locale_convert.cc':'C14 C13','rational.cc':'C10 C21','raw_convert.cc':'C03 C14 C22','raw_subtitle.cc':'C21 C11','reader.cc':'C22',
'reader_factory.cc':'C18 C23','ssa_reader.cc':'C04 C03 C12 C13 C23 C17 C14','stl_binary_reader.cc':'C06 C08 C23 C13 C18 C12','stl_binary_writer.cc':'C07 C08 C16 C17',
'stl_text_reader.cc':'C05 C12 C13 C23','stl_util.cc':'C07 C06 C08 C13','sub_time.cc':'C10 C11 C06 C07','subrip_reader.cc':'C01 C20 C12 C13 C23 C17','subtitle.cc':'C11 C22 C21',
'util.cc':'C12 C01 C23 C13 C18 C16','vertical_position.cc':'C21 C07','vertical_reference.cc':'C21 C22','web_vtt_reader.cc':'C02 C20 C12 C13'}
W=int(sys.argv[3]); K=int(sys.argv[4]); V='/tmp/mut/verif%d'%W; R='/tmp/mut/repo2_%d'%W
out=sys.argv[2]; src=sys.argv[1]
if not os.path.exists(V):
    shutil.copytree('/verif',V,ignore=shutil.ignore_patterns('.git','seeded'))
if not os.path.exists(R): shutil.copytree('/repo',R,ignore=shutil.ignore_patterns('.git','build'))
done=set()
if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
idle=0
while True:
    todo=[json.loads(l) for l in open(src)]
    todo=[m for m in todo if m['result']=='survived' and m['id'] not in done and m['id']%K==W]
    if not todo:
        idle+=1
        if idle>20: break
        time.sleep(15); continue
    idle=0
    m=todo[0]; f=m['file']
    t=open('/repo/src/'+f).read()
    open(R+'/src/'+f,'w').write(t[:m['start']]+m['new']+t[m['end']:])
    res=[]; t0=time.time(); caught=None
    for c in MAP[f].split():
        p=subprocess.Popen(['timeout','-s','KILL','400','python3','run.py',c],cwd=V,env=dict(os.environ,VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
        o=p.communicate()[0].decode(errors='replace')
        if p.returncode==1 and 'VIOLATION property='+c in o: caught=c; break
        if p.returncode: res.append((c,p.returncode,o[-300:]))
    shutil.copy('/repo/src/'+f,R+'/src/'+f)
    m['caught']=caught; m['other']=res; m['t']=round(time.time()-t0)
    done.add(m['id'])
    open(out,'a').write(json.dumps(m)+'\n')
