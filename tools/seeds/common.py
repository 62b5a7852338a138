import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
H='''#include "fisx_elements.h"
#include "fisx_detector.h"
#include "fisx_xrf.h"
#include "fisx_shell.h"
#include <cstdio>
#include <cmath>
#include <new>
#include <cstring>
#include <cstdlib>
using namespace fisx; typedef std::map<std::string,double> MD; typedef std::vector<double> VD; typedef std::vector<std::string> VS;
'''
FE='''
static void fillFe(Element & e){ MD b; b["K"]=7.112; b["L1"]=0.8461; b["L2"]=0.7211; b["L3"]=0.7081; b["M1"]=0.0929; e.setBindingEnergies(b);
 MD c; c["omega"]=0.33; e.setShellConstants("K",c); MD r; r["KL3"]=0.58; r["KL2"]=0.3; r["KM1"]=0.12; e.setRadiativeTransitions("K",r);
 VD en; double g[]={1,7.112,7.112,10,20,100}; en.assign(g,g+6); VD ph,co,cp; double p[]={9000,50,400,170,25,0.2}; ph.assign(p,p+6); co.assign(6,1.); cp.assign(6,.1);
 e.setMassAttenuationCoefficients(en,ph,co,cp); VD k(p,p+6); k[0]=k[1]=0; e.setPartialPhotoelectricMassAttenuationCoefficients("K",en,k); const char* o[]={"L1","L2","L3","M1","all other"}; for(int i=0;i<5;i++) e.setPartialPhotoelectricMassAttenuationCoefficients(o[i],en,co);}
'''
