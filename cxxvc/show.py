import pickle,sys
sys.path.insert(0,'/verif/cxxvc')
P=pickle.load(open('/tmp/P.pkl','rb'))
def pr(n,d=0):
    if n is None: print(' '*d+'-'); return
    print(' '*d+' '.join(str(x) for x in (n.k,n.name,n.ty,n.val,n.op,n.ck,n.ref and n.ref[1:],n.x,'L%s'%n.line) if x))
    for c in n.inner: pr(c,d+1)
if __name__=='__main__':
    for k,f in P.funcs.items():
        if sys.argv[1] in k:
            print('##',k,f.kind,f.ret,[p[1:3] for p in f.params],f.inits and [(i[0],i[1]) for i in f.inits])
            pr(f.body)
