import re,sys,os,json,glob
SRC='/repo/src'
SKIP={'iso6937_tables.cc','stl_binary_tables.cc','version.cc'}
def mask(text):
    # blank out comments and strings for position purposes
    out=list(text); i=0; n=len(text)
    while i<n:
        c=text[i]
        if text.startswith('//',i):
            while i<n and text[i]!='\n': out[i]=' '; i+=1
        elif text.startswith('/*',i):
            j=text.find('*/',i)+2
            for k in range(i,j):
                if text[k]!='\n': out[k]=' '
            i=j
        elif c=='"':
            j=i+1
            while text[j]!='"':
                j+=2 if text[j]=='\\' else 1
            for k in range(i+1,j): out[k]='\x01'
            i=j+1
        elif c=="'" and not (i and text[i-1].isalnum()):
            j=i+1
            while text[j]!="'":
                j+=2 if text[j]=='\\' else 1
            for k in range(i+1,j): out[k]='\x02'
            i=j+1
        else: i+=1
    return ''.join(out)
REP=[(r'==',['!=']),(r'!=',['==']),(r'(?<![<\-])<=',['<']),(r'(?<![>])>=',['>']),
 (r'(?<=\s)<(?=\s)',['<=','>']),(r'(?<=\s)>(?=\s)',['>=','<']),(r'&&',['||']),(r'\|\|',['&&']),
 (r'(?<=\s)\+(?=\s)',['-']),(r'(?<=\s)-(?=\s)',['+']),(r'(?<=\s)\*(?=\s)',['/']),(r'(?<=\s)/(?=\s)',['*']),(r'(?<=\s)%(?=\s)',['/']),
 (r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'!(?=[a-zA-Z_(])',['']),
 (r'\+\+',['--']),(r'\+=',['=','-=']),(r'(?<=\s)\|=',['=']),
 (r'\bcontinue\b',['break']),(r'\bbreak\b',['continue']),
 (r'\bmin\b',['max']),(r'\bmax\b',['min']),
 (r'\bfront\b',['back']),(r'\bback\b(?=\s*\(\s*\))',['front']),
 (r'\blround\b|\bround\b',['floor']),(r'\bceil\b',['floor']),(r'\bfloor\b',['ceil']),
 (r'\bint64_t\b',['int']),(r'(?<!u)\bint32_t\b',['int16_t']),
 (r'\bunsigned char\b',['char']),(r'\blower_bound\b',['upper_bound']),(r'\bstable_sort\b',['sort']),
]
def mutants(f):
    path=os.path.join(SRC,f) if not f.startswith('/') else f
    t=open(path).read(); m=mask(t); res=[]
    lines=t.split('\n'); offs=[0]
    for l in lines: offs.append(offs[-1]+len(l)+1)
    mlines=m.split('\n')
    for ln,ml in enumerate(mlines):
        if ml.lstrip().startswith('#') or not ml.strip(): continue
        o=offs[ln]
        if re.match(r'\s*(using|template|namespace|class|struct)\b',ml): continue
        for rx,reps in REP:
            for k in re.finditer(rx,ml):
                for r in reps: res.append((ln+1,o+k.start(),o+k.end(),r,'op'))
        for k in re.finditer(r'(?<![\w.\\])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])',ml):
            s=k.group(1); v=int(s,0) if not (len(s)>1 and s[0]=='0' and s[1].isdigit()) else None
            if v is None: continue
            for d in (1,-1):
                if v+d<0: continue
                res.append((ln+1,o+k.start(),o+k.end(),str(v+d),'const'))
        # character constants
        for k in re.finditer(r"'\x02+'",ml):
            pass
        # statement deletion
        if re.match(r"\s*([A-Za-z_][\w:.\[\]>\-\(\)]*)\s*(\(|=|\+=|\+\+|->|\.|<<|\|=|-=)",ml) and ml.rstrip().endswith(';') and ml.count('(')==ml.count(')') and not re.match(r'\s*(return|throw|if|for|while|else|case|delete)\b',ml):
            b=o+len(ml)-len(ml.lstrip()); res.append((ln+1,b,o+len(ml.rstrip()),';','del'))
        if re.match(r'\s*(\+\+|--)\w+;',ml): 
            b=o+len(ml)-len(ml.lstrip()); res.append((ln+1,b,o+len(ml.rstrip()),';','del'))
        k=re.match(r'\s*(\}\s*else\s+)?(if|while)\s*\(',ml)
        if k:
            # whole condition
            s=o+k.end(); d=1; p=s
            while d and p<len(m):
                if m[p]=='(': d+=1
                if m[p]==')': d-=1
                p+=1
            cond=t[s:p-1]
            if k.group(2)=='if':
                res.append((ln+1,s,p-1,'true','cond')); res.append((ln+1,s,p-1,'false','cond'))
            # drop conjuncts
            parts=[];d=0;last=s
            q=s
            while q<p-1:
                if m[q]in'([{':d+=1
                if m[q]in')]}':d-=1
                if d==0 and m[q:q+2] in('&&','||'):
                    parts.append((last,q,m[q:q+2])); last=q+2
                q+=1
            parts.append((last,p-1,''))
            if len(parts)>1 and len(set(x[2] for x in parts[:-1]))==1:
                neutral='true' if parts[0][2]=='&&' else 'false'
                for a,b,_ in parts: res.append((ln+1,a,b,' '+neutral+' ','conj'))
        k=re.match(r'\s*return\s+(.+);\s*$',ml)
        if k and k.group(1).strip() not in('true','false') :
            pass
    seen=set(); out=[]
    for r in res:
        new=t[:r[1]]+r[3]+t[r[2]:]
        if new==t or new in seen: continue
        seen.add(new); out.append(dict(file=f,line=r[0],start=r[1],end=r[2],new=r[3],kind=r[4],old=t[r[1]:r[2]]))
    return out
if __name__=='__main__':
    allm=[]
    fs=sys.argv[2:] or [os.path.basename(p) for p in sorted(glob.glob(SRC+'/*.cc')) if os.path.basename(p) not in SKIP]
    for f in fs:
        x=mutants(f); allm+=x; print(f,len(x))
    for n,x in enumerate(allm): x['id']=n
    json.dump(allm,open(sys.argv[1],'w'))
    print(len(allm))
