import sys, time, traceback
import dump, absint, terms as T
from absint import *

def show_val(v, d=0):
    k=v[0]
    if d>6: return '…'
    if k=='n': return T.show(v[1])
    if k=='s': return '('+', '.join(show_val(x,d+1) for x in v[1])+')'
    if k=='e': return '|'.join('%d%s'%(a,'('+', '.join(show_val(x,d+1) for x in fs)+')' if fs else '') for a,fs in v[1])+(('@'+T.show(v[2])) if v[2] is not None else '')
    if k=='q':
        o=[]
        for s in v[1]:
            if s[0]=='v': o.append(show_val(s[1],d+1))
            elif s[0]=='s': o.append(repr(s[1]))
            elif s[0] in('n','g'): o.append('%s x %s'%(T.show(s[1]),show_val(s[2],d+1)))
            else: o.append('<%r>'%(s[1],))
        return '['+', '.join(o)+']'
    if k=='r': return '&%r%r%s'%(v[1],v[2],'' if v[3] is None else v[3][0])
    return repr(v)[:150]
class Hooks:
    def call(self,*a): return None
    def drop(self,*a): return None
_P=None
def prog():
    global _P
    if _P is None: _P=Prog(dump.dump())
    return _P
def root(P,n):
    c=[i for i,f in enumerate(P.fns) if f['path']=='cniic::__vp::roots::'+n or f['path']=='__vp::roots::'+n]
    assert len(c)==1,(n,c)
    return c[0]
if __name__=='__main__':
    if '-d' in sys.argv: sys.argv.remove('-d'); absint.DEBUG=True
    P=prog()
    for n in sys.argv[1:]:
        T.reset()
        ip=Interp(P,Hooks(),steps=200000)
        fid=root(P,n)
        st=State()
        t0=time.time()
        f=P.fns[fid]
        args=[]
        for i in range(f['body']['nargs']):
            args.append(('t',f['body']['locals'][i+1],'arg%d'%i))
        try:
            outs=ip.exec_fn(fid,args,st)
            print('==',n,len(outs),'outs %.2fs'%(time.time()-t0))
            for v,s in outs[:6]: print('   ',show_val(v)[:300]); 
        except Stuck as e:
            print('== %s STUCK %s'%(n,e)); print('    '+'\n    '.join((getattr(e,'trace',None) or ['?'])[-4:]))
        except Budget: print('== %s BUDGET'%n)
        except Exception: print('==',n); traceback.print_exc(limit=-6)
        ps={}
        for e in ip.collector:
            if e[0]=='panic': ps[(e[1],)+e[2][:1]+(e[2][2],)]=(T.show_cond(e[3]) if e[3] else None,e[4])
        for k,v in ps.items(): print('    panic',k,v)
        print('    imprecise',{k:v for k,v in ip.imprecise.items()})
