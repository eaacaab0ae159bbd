import sys; sys.path.insert(0,'/verif/tools/demo')
from refsim import *
for m in ("Explicit","Implicit"):
    for dist_ in (False, True):
        for st in (1,3):
            b=compare({"pressureCalculationMethod":m,"surfaceDetection-particleDistribution":dist_}, block(5,6,0.1,2,0.08,3,(0.2,-0.3,0)), st)
            print(m,dist_,st,len(b),b[:4])
