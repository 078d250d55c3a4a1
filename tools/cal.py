"""calibration of the native comparison: KIND SEED N LMAX -> number of deviating random samples (must be 0)"""
import sys; sys.path.insert(0,'/verif/lib')
from verify import *
import random
tasks=[]; r=random.Random(int(sys.argv[2])); kind=sys.argv[1]
K=kinds.KINDS[kind]
for k in range(int(sys.argv[3])):
    c=dict(LA=r.randint(0,int(sys.argv[4])),LB=r.randint(0,int(sys.argv[4])),geom=r.choice(['gen','gen','AB']))
    if 'gradient' in kind: c['geom']=r.choice([g for g in cases.GEOMS if '/' in g])
    if K.lift is kinds.lift_ABCU or (len(sys.argv)>5): c.update(geom=r.choice([g for g in cases.GEOMS if ('/' in g)==('gradient' in kind)]))
    if len(sys.argv)>5: c.update(eval(sys.argv[5]))
    tasks.append(dict(kind=kind,cfg=c,q=rand_q(kind,c,k*31+7,r.choice(['mid','wide']),r.randint(1,3)),tag=str(k)))
res,errs,tot=parallel(dispatch,tasks)
print(errs[:2],tot)
b=[o for x in res if x for o in x['obs'] if o[1]=='violation']
print(len(b),'of',len(tasks))
for o in b[:12]: print(o[0],o[2], str(o[3]['input'])[:400])
