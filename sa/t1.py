import sys
sys.path.insert(0,'/verif/sa')
from facts import *; from interp import *; import interp
F=Facts('/tmp/facts')
def run(path, ov=None, show=True):
    ip=Interp(F, ov or {})
    b=F.fn(path)
    names=b.j.get('names') or {}
    args=[]
    inv={}
    for i in range(1,b.argc+1):
        nm=None
        if isinstance(names,dict): nm=names.get(str(i))
        elif isinstance(names,list):
            for x in names:
                if x and x[1]==i: nm=x[0]
        nm=nm or 'a%d'%i
        ty=b.locals[i]
        a=T('arg',nm)
        t=ty.get('t') if ty.get('k')=='ref' else ty
        TY[a]=t
        if ty.get('k')=='ref' and ty.get('m'): a=ip.newroot(a,nm)
        args.append(a)
    v=ip.run_body(b,args)
    if show:
        print('==',path); print('RET',pp(ip.deep(v))); 
        for r,n in ip.rootnames.items(): print('OUT',n,pp(ip.deep(ip.st.s[r])))
        for e in ip.events: print('  ',repr(e)[:1500])
        if ip.unknown: print('UNK',ip.unknown)
    return ip,v
if __name__=='__main__':
    for p in sys.argv[1:]: run(p)
