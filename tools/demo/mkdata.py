#!/usr/bin/env python3
"""mkdata.py OUTDIR: fisx data directory with a synthetic EPDL97 cross-section file (the real one is not in the repository)."""
import sys, os, shutil
src=os.environ.get('FISX_SRC_DATA') or '/repo/fisx_data'; out=sys.argv[1]
os.makedirs(out, exist_ok=True)
for f in os.listdir(src):
    shutil.copy(os.path.join(src,f), out)
shells=["K","L1","L2","L3","M1","M2","M3","M4","M5"]
be={}
for L in open(os.path.join(src,'EADL97_BindingEnergies.dat')):
    if L[0]=='#' or not L.strip(): continue
    v=[float(x) for x in L.split()]
    be[int(v[0])]=dict(zip(shells,v[1:10]))
with open(os.path.join(out,'EPDL97_CrossSections.dat'),'w') as o:
    o.write("#F EPDL97_CrossSections.dat\n\n")
    for z in range(1,101):
        b=be[z]
        grid=[0.1*1.25**k for k in range(41)]
        edges=[b[s] for s in shells if b[s]>0.1]
        g=sorted([(e,0) for e in grid]+[(e,0) for e in edges]+[(e,1) for e in edges])
        o.write("#S %d z=%d\n#N 16\n#L PhotonEnergy[keV]  Rayleigh(coherent)[barn/atom]  Compton(incoherent)[barn/atom]  CoherentPlusIncoherent[x]  Photoelectric[barn/atom]  PairProduction[x]  TotalCrossSection[x]  K  L1  L2  L3  M1  M2  M3  M4  M5  AllOther\n".replace("CoherentPlusIncoherent[x]  ","").replace("#N 16","#N 16")%(z,z))
        for e,up in g:
            coh=5.0/(1+e)*z/26.; com=0.15
            ps=[]
            for k,s in enumerate(shells):
                B=b[s]
                on = B>0 and (e>B or (e==B and up))
                ps.append(800.*(z/26.)**3/(1+k)/e**2.8 if on else 0.0)
            oth=0.5*z/e**2.7 if z>18 else 0.0
            ph=sum(ps)+oth
            o.write(" ".join("%.8g"%x for x in [e,coh,com,ph,0.0,ph+coh+com]+ps+[oth])+"\n")
        o.write("\n")
