"""dbg.py ID [DIR] [construct filter]: one satisfying assignment per failing obligation"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')
from rules import all_rules
from rules.base import *
d=sys.argv[2] if len(sys.argv)>2 else '/repo'
m=Model(d); C=Check(m,sys.argv[1],'quick')
orig=C.implies
def imp(I,g,phi,rule,con,msg,where,terms=()):
    r=orig(I,g,phi,rule,con,msg,where,terms)
    if r is False and (len(sys.argv)<4 or sys.argv[3] in con):
        print(rule,con,where)
        x=I.b.and_(g,I.b.not_(phi))
        for v in sorted(I.b.support(x)):
            hi=I.b.restrict(x,v,1); lo=I.b.restrict(x,v,0)
            s=I.L.showg(I.b.atom(I.b.atoms[v]))[:220]
            if lo==FALSE: print('   +',s); x=hi
            elif hi==FALSE: print('   -',s); x=lo
            else: print('   ?',s); x=lo
    return r
C.implies=imp
all_rules()[sys.argv[1]](C)
