from common import *
COMMA='''
#include <clocale>
// a C locale whose decimal separator is the comma
static bool comma=false;
static double conv(const char *s, char **e){ std::string t(s); for(size_t i=0;i<t.size();i++){ if(comma && t[i]=='.'){ t=t.substr(0,i); break; } if (comma && t[i]==',') t[i]='.'; } double v=0; sscanf(t.c_str(),"%lf",&v); if(e) *e=(char*)s+t.size(); return v; }
extern "C" double strtod(const char *s, char **e) noexcept { return conv(s,e); }
extern "C" double atof(const char *s) noexcept { return conv(s,0); }
'''
SPEC='''
#include "fisx_simplespecfile.h"
#include <fstream>
#include <iostream>
'''
mkseed('C16a','C16',[('src/fisx_simplespecfile.cpp','if (replaceDot && (line[iString] == \'.\'))','if (replaceDot && (tmpString.size() == 1) && (line[iString] == \'.\'))')],
H+COMMA+SPEC+'''int main(){ std::ofstream o("f.dat"); o<<"#F f\\n\\n#S 1 a\\n#N 2\\n#L  a  b\\n1.5 22.25\\n2.5 33.5\\n\\n"; o.close(); comma=true; SimpleSpecfile s("f.dat"); std::vector<VD> d=s.getScanData(0); printf("%g %g\\n",d[0][0],d[0][1]); return (d[0][0]==1.5 && d[0][1]==22.25)?0:1; }''',
"a locale with decimal comma and numbers with several digits before the point","decimals are lost for numbers above ten")
mkseed('C16b','C16',[('src/fisx_elements.cpp','''                    if (lastNumber.size() > 0)
                    {
                        if (this->stringToDouble(lastNumber, factor))
                            numbers.push_back(factor);
                        else
                            return composition;
                    }''','''                    if (lastNumber.size() > 0)
                    {
                        factor = std::atof(lastNumber.c_str());
                        if (factor > 0.0)
                            numbers.push_back(factor);
                        else
                            return composition;
                    }''')],
H+COMMA+'''int main(int, char**v){ Elements e(v[1]); comma=true; MD m=e.parseFormula("Fe2.5O3"); printf("%g\\n",m["Fe"]); return m["Fe"]==2.5?0:1; }''',
"a locale with decimal comma","decimals of formula amounts are lost",data=True)
mkseed('C18a','C18',[('src/fisx_detector.cpp','''    pi = acos(-1.0);
    return (0.25 * pi)''','''    pi = 3.14159265;
    return (0.25 * pi)''')],
H+'''int main(){ Detector d("d",1.,1.); d.setActiveArea(12.5); double a=d.getActiveArea(); printf("%.17g\\n",a); return std::fabs(a-12.5)<1e-12?0:1; }''',
"an area set and read back in full precision","the area loses digits")
mkseed('C18b','C18',[('src/fisx_element.cpp','''    else
        weight = 1.0 / energy.size();
''','''    else
        weight = 1.0f / energy.size();
''')],
H+FE+'''int main(){ Element e("Fe",26); fillFe(e); VD en(3,20.); VD w; double a=e.getPhotoelectricExcitationFactors(en,w)[0]["Fe KL3"]["x"]; (void)a;
 std::map<std::string,MD> r=e.getPhotoelectricExcitationFactors(en,w)[0], s=e.getPhotoelectricExcitationFactors(20.,1.0/3.0); double x=r["KL3"]["factor"], y=s["KL3"]["factor"]; printf("%.17g %.17g\\n",x,y); return (y>0 && x==y)?0:1; }''',
"several energies and no weights","the default weight has single precision")
mkseed('C18c','C18',[('src/fisx_beam.cpp','''        if (weight != NULL)
        {
            tmpDouble = weight[i];
        }''','''        if (weight != NULL)
        {
            // avoid denormalized weights
            tmpDouble = floor(weight[i] * 1.0e6 + 0.5) * 1.0e-6;
        }'''),('src/fisx_beam.cpp','#include <stdexcept>\n','#include <stdexcept>\n#include <cmath>\n')],
H+'''#include "fisx_beam.h"
int main(){ Beam b; double e[2]={10,20}, w[2]={3e-7,1e-7}; b.setBeam(2,e,w,(const int*)NULL,NULL); std::vector<VD> r=b.getBeamAsDoubleVectors(); printf("%g %g\\n",r[1][0],r[1][1]); return std::fabs(r[1][0]-0.75)<1e-12?0:1; }''',
"very small weights","weights are rounded")
mkseed('C22a','C22',[('src/fisx_simpleini.cpp','if (!fileInstance.good())','if (fileInstance.bad())')],
H+'''#include "fisx_simpleini.h"
int main(){ try { SimpleIni i("no_such_file.ini"); } catch(std::exception &){ return 0; } return 1; }''',
"a configuration file that does not exist","a missing configuration file is an empty one")
mkseed('C22b','C22',[('src/fisx_element.cpp','''            this->excitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
        }
        this->setCacheEnabled(status);
    }
    catch(...)
    {
        this->setCacheEnabled(status);
        throw;
    }''','''            this->excitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
        }
        this->setCacheEnabled(status);
    }
    catch(std::runtime_error &)
    {
        this->setCacheEnabled(status);
    }''')],
H+FE+'''int main(){ Element e("Fe",26); VD b; b.push_back(20.); int t=0,u=0; try { e.getMassAttenuationCoefficients(20.); } catch(std::exception &) { t=1; } try { e.fillCache(b); } catch(std::exception &){ u=1; } printf("%d %d\\n",t,u); return (t==u)?0:1; }''',
"a cache filled for an element without attenuation data","the failure is dropped")
mkseed('C22c','C22',[('src/fisx_elements.cpp','''    result.clear();
    for (i = 0; i < elementList.size(); i++)
    {
        shells = getElement(elementList[i]).getExcitedShells(energy);
''','''    result.clear();
    for (i = 0; i < elementList.size(); i++)
    {
        try
        {
            shells = getElement(elementList[i]).getExcitedShells(energy);
        }
        catch (std::invalid_argument &)
        {
            continue;
        }
''')],
H+'''int main(int,char**v){ Elements e(v[1]); VS l; l.push_back("Fe"); l.push_back("Xx"); try { e.getPeakFamilies(l,20.); } catch(std::exception &){ return 0; } return 1; }''',
"an unknown element in a list","the unknown element is ignored",data=True)
mkseed('C22d','C22',[('src/fisx_simpleini.h','''        stream >> destination;
        if (stream.fail())
        {
            destination = defaultValue;
        }''','''        destination = defaultValue;
        stream >> destination;''')],
H+'''#include "fisx_simpleini.h"
int main(){ double x=7; SimpleIni::parseStringAsSingleValue(std::string("none"),x,-1.0); printf("%g\\n",x); return x==-1.0?0:1; }''',
"a value of a configuration file that is not a number","zero instead of the default")
