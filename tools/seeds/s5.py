from common import *
DIRTY='''
__attribute__((noinline)) double dirty(int s){ volatile unsigned char a[6000]; for(int i=0;i<6000;i++) a[i]=(unsigned char)s; return a[17]; }
'''
mkseed('C02a','C02',[('src/fisx_xrf.cpp','''    distance = detectorDistance;
    if ((distance == 0.0) && (sampleLayerIndex == 0))''','''    if ((detectorDistance == 0.0) && (sampleLayerIndex == 0))'''),
('src/fisx_xrf.cpp','''            for (iLayer = (std::vector<Layer>::size_type) referenceLayerIndex; iLayer < (''','''            distance = detectorDistance;
            for (iLayer = (std::vector<Layer>::size_type) referenceLayerIndex; iLayer < ('''),
('src/fisx_xrf.cpp','''    // we can calculate the geometric efficiency for the given layer
''','''    else
    {
        distance = detectorDistance;
    }

    // we can calculate the geometric efficiency for the given layer
''')],
H+DIRTY+'''int main(){ XRF x; Detector d("Detector",0.,0.); d.setDiameter(0.5); d.setDistance(2.0); x.setDetector(d); std::vector<Layer> l(3,Layer("Fe",7.8,0.5)); x.setSample(l,2); x.setGeometry(90.,90.,180.);
 dirty(0); double a=x.getGeometricEfficiency(0); dirty(63); double b=x.getGeometricEfficiency(0); double z=1.0; double e=0.5*(1-z/std::sqrt(z*z+0.0625));
 printf("%g %g %g\\n",a,b,e); return (a==b && std::fabs(a-e)<1e-9)?0:1; }''',
"a reference layer below the layer that is asked for","the distance is an undetermined local")
mkseed('C02b','C02',[('src/fisx_shell.cpp','''        else
        {
            // M1, M2, M3 or M4 shells
            subshellMax = 5;''','''        else if (this->subshellIndex < 4)
        {
            // M1, M2, M3 or M4 shells
            subshellMax = 5;''')],
H+DIRTY+'''int main(){ MD t; t["M4-M5N1"]=0.25; t["M4-N1N1"]=0.25; for(int k=0;k<3;k++){ Shell s("M4"); dirty(k*60); s.setNonradiativeTransitions(t); 
 MD r=s.getAugerRatios(); std::map<std::string,MD> c=s.getCosterKronigRatios(); double v=c.count("f45")&&c["f45"].count("M4-M5N1")?c["f45"]["M4-M5N1"]:-1; printf("%g %d\\n",v,(int)r.size()); if (std::fabs(v-1.0)>1e-9) return 1; } return 0; }''',
"the M4 shell with Coster-Kronig transitions","the last subshell index is undetermined for M4")
mkseed('C02c','C02',[('src/fisx_math.cpp','''    if(x < 1)
    {
        return Math::AS_5_1_53(x) - std::log(x);
    }''','''    if(x < 1)
    {
        // consecutive calls are frequently made with the same argument
        static double lastX = -1.0;
        static double lastResult = 0.0;
        if (std::fabs(x - lastX) > 1.0e-10)
        {
            lastX = x;
            lastResult = Math::AS_5_1_53(x) - std::log(x);
        }
        return lastResult;
    }'''),('src/fisx_math.cpp','#include <stdexcept>\n','#include <stdexcept>\n#include <cmath>\n')] if '#include <stdexcept>\n' in open('/repo/src/fisx_math.cpp').read() else [],
H+'''#include "fisx_math.h"
int main(){ double a=Math::E1(5e-11); Math::E1(0.5); Math::E1(1e-12); double b=Math::E1(5e-11); printf("%.17g %.17g\\n",a,b); return a==b?0:1; }''',
"very small absorption arguments, one after the other","the exponential integral depends on the previous call")
mkseed('C02d','C02',[('src/fisx_element.cpp','''    std::map<std::string, double> finalDistribution;
    std::map<std::string, double>::const_iterator c_it;
    std::string keys[9]''','''    // avoid building the same map again and again
    static std::map<std::string, double> finalDistribution;
    std::map<std::string, double>::const_iterator c_it;
    std::string keys[9]''')],
H+'''int main(){ Element a("Au",79); MD b; const char *k[]={"K","L1","L2","L3","M1","M2","M3","M4","M5"}; for(int i=0;i<9;i++) b[k[i]]=80.-i*8; a.setBindingEnergies(b); Element l("Si",14); MD c; c["K"]=1.8; c["L1"]=0.15; l.setBindingEnergies(c);
 MD v; v["K"]=1.; size_t n1=l.getCascadeModifiedVacancyDistribution(v).size(); a.getCascadeModifiedVacancyDistribution(v); size_t n2=l.getCascadeModifiedVacancyDistribution(v).size(); printf("%zu %zu\\n",n1,n2); return n1==n2?0:1;}''',
"a heavy element before a light one","vacancies of shells of another element remain")
