import sys,time,traceback
import ana, absint, terms as T
from absint import *
from run import show_val, Hooks
import argparse
ap=argparse.ArgumentParser(); ap.add_argument('root'); ap.add_argument('filt',nargs='?',default=''); ap.add_argument('-d',action='store_true'); ap.add_argument('-s',type=int,default=300000); ap.add_argument('-v',action='store_true')
a=ap.parse_args()
absint.DEBUG=a.d
P=ana.prog()
ip0=Interp(P,Hooks())
labs=[l for l,_ in ana.configs(ip0,ana.codec_ty(P))]
if a.v: print(labs)
for i,l in enumerate(labs):
    if a.filt and a.filt!=l: continue
    T.reset()
    ip=Interp(P,Hooks(),steps=a.s)
    l2,b=ana.configs(ip,ana.codec_ty(P))[i]
    st=State(); fid=ana.root(P,a.root)
    f=P.fns[fid]
    oid=ip.new_obj(st,b(st),'codec')
    args=[('r',oid,(),None)]
    for j in range(1,f['body']['nargs']): args.append(('t',f['body']['locals'][j+1],'arg%d'%j))
    t0=time.time()
    try:
        outs=ip.exec_fn(fid,args,st); print('==',l,len(outs),'outs %.2fs steps %d'%(time.time()-t0,a.s-ip.steps))
        for v,s in outs[:4]: print('   ',show_val(v)[:200])
    except Stuck as e:
        print('== %s STUCK %s %.1f'%(l,e,time.time()-t0)); print('    '+'\n    '.join((getattr(e,'trace',None) or ['?'])[-5:]))
    except Budget: print('== %s BUDGET %.1f'%(l,time.time()-t0))
    except Exception: print('==',l); traceback.print_exc(limit=-6)
    ps={}
    for e in ip.collector:
        if e[0]=='panic': ps[(e[1],)+e[2][:1]+(e[2][2],)]=(T.show_cond(e[3])[:150] if e[3] else None,e[4])
    for k,v in ps.items(): print('    panic',k,v)
    print('    imprecise',{k[:150]:v for k,v in ip.imprecise.items()})
