from common import *
# ---- C01
mkseed('C01a','C01',[('src/fisx_detector.cpp','''    this->escapePeakCache.clear();
    this->Layer::setMaterial(material);''','''    if (material.getName() != this->getMaterial().getName())
    {
        this->escapePeakCache.clear();
    }
    this->Layer::setMaterial(material);''')],
H+'''int main(int c,char**v){ Elements E(v[1]); Detector d("det"); Material m("X",1.0); MD a; a["Ge"]=1; m.setComposition(a); d.setMaterial(m);
 d.getEscape(15.0,E,"run",0); Material m2("X",1.0); MD b; b["Si"]=1; m2.setComposition(b); d.setMaterial(m2);
 MD::size_type n1=0; std::map<std::string,MD> r=d.getEscape(15.0,E,"run",0), q=d.getEscape(15.0,E,""); return r==q && !q.empty()?0:1; }''',
"a detector whose material is replaced by another of the same name, with a labelled escape query before and after","stale escape peaks are returned after the material changed",data=True)
mkseed('C01b','C01',[('src/fisx_detector.cpp','''    this->escapePeakIntensityThreshold = intensity;
    this->escapePeakCache.clear();''','''    if (intensity < this->escapePeakIntensityThreshold)
    {
        // with a higher threshold the peaks are a subset of what is already cached
        this->escapePeakCache.clear();
    }
    this->escapePeakIntensityThreshold = intensity;''')],
H+'''int main(int c,char**v){ Elements E(v[1]); Detector d("det"); Material m("X",1.0); MD a; a["Ge"]=1; m.setComposition(a); d.setMaterial(m);
 d.setMinimumEscapePeakIntensity(1e-9); d.getEscape(15.0,E,"run",0); d.setMinimumEscapePeakIntensity(0.9);
 std::map<std::string,MD> r=d.getEscape(15.0,E,"run",0), q=d.getEscape(15.0,E,""); return r==q?0:1; }''',
"labelled escape query, then a higher minimum intensity, then the same query","stale cached escape peaks",data=True)
# ---- C03
mkseed('C03a','C03',[('src/fisx_detector.cpp','''    double pi;
    pi = acos(-1.0);
    return (0.25 * pi) * (this->diameter * this->diameter);''','''    static double lastDiameter = -1.0;
    static double lastArea = 0.0;
    if (fabs(this->diameter - lastDiameter) > 1.0e-4)
    {
        lastDiameter = this->diameter;
        lastArea = (0.25 * acos(-1.0)) * (lastDiameter * lastDiameter);
    }
    return lastArea;''')],
H+'''int main(){ Detector a("a"),b("b"); a.setDiameter(1.0); b.setDiameter(1.00005); double x=b.getActiveArea(); Detector c("c"); c.setDiameter(1.0); a.getActiveArea(); 
 a.setDiameter(3.0); a.getActiveArea(); a.setDiameter(1.0); a.getActiveArea(); double y=b.getActiveArea(); return x==y?0:1;}''',
"two detectors of nearly equal diameters queried in different orders","the area depends on earlier queries of other detectors")

mkseed('C03b','C03',[('src/fisx_element.cpp','''    double total;
    std::string shellList[10] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};

    tmpMap = this->getMassAttenuationCoefficients(energy);''','''    double total;
    static double lastEnergy = -1.0;
    static const Element * lastElement = NULL;
    static std::map<std::string, double> lastResult;
    std::string shellList[10] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};

    if ((lastElement == this) && (lastEnergy == energy))
    {
        // same question as the last time
        return lastResult;
    }
    tmpMap = this->getMassAttenuationCoefficients(energy);'''),('src/fisx_element.cpp','''            result[shell] = tmpMap[shell] / total;
        }
        else
        {
            result[shell] = 0.0;
        }
    }
    return result;''','''            result[shell] = tmpMap[shell] / total;
        }
        else
        {
            result[shell] = 0.0;
        }
    }
    lastElement = this;
    lastEnergy = energy;
    lastResult = result;
    return result;''')],
H+FE+'''int main(){ Element e("Fe",26); fillFe(e); double a=e.getInitialPhotoelectricVacancyDistribution(15.)["K"]; MD b; b["K"]=0; e.setBindingEnergies(b); 
 Element f("Fe",26); fillFe(f); f.setBindingEnergies(b); MD x=e.getInitialPhotoelectricVacancyDistribution(15.), y=f.getInitialPhotoelectricVacancyDistribution(15.); return x==y?0:1;}''',
"query, change of the element, and the same query again","a function static remembers the last answer")

# ---- C05
mkseed('C05a','C05',[('src/fisx_element.cpp','''    if ( c_it == this->shellInstance.end())
    {
        msg''','''    if ((c_it == this->shellInstance.end()) && (subshell.size() < 2))
    {
        msg''')],
H+FE+'''int main(){ Element* e=new Element("H",1); int n=0; try{ e->getNonradiativeTransitions("L1"); }catch(std::invalid_argument&){n=1;} return n?0:1;}''',
"asking for the transitions of a two character shell that the element does not have","a reference past the end of the shells is returned")
mkseed('C05b','C05',[('src/fisx_element.cpp','''    it = this->shellInstance.find(subshell);
    if (it == this->shellInstance.end())
    {
        throw std::invalid_argument("Requested shell is not a defined K, L or M subshell");
    }
    return it->second.getShellConstants();''','''    it = this->shellInstance.find(subshell);
    if (this->bindingEnergy.find(subshell) == this->bindingEnergy.end())
    {
        throw std::invalid_argument("Requested shell is not a defined K, L or M subshell");
    }
    return it->second.getShellConstants();''')],
H+FE+'''int main(){ Element* e=new Element("Pb",82); MD b; b["K"]=88; b["N1"]=0.9; e->setBindingEnergies(b); try{ e->getShellConstants("N1"); }catch(std::invalid_argument&){} delete e; return 0;}''',
"asking for the constants of a shell with binding energy that is not K, L or M","dereferences end()",asan=True)
mkseed('C05c','C05',[('src/fisx_element.cpp','''    c_it = std::lower_bound(vec.begin(), vec.end(), x);

    if (c_it == vec.end())
    {
        iMax''','''    c_it = std::lower_bound(vec.begin(), vec.end(), x);

    if (*c_it < x)
    {
        iMax''')],
H+FE+'''int main(){ Element e("Fe",26); double g[]={1.,2.,3.}; VD* v=new VD(g,g+3); std::pair<long,long> p=e.getInterpolationIndices(*v, 5.0); delete v; return (p.first==1&&p.second==2)?0:1;}''',
"interpolating above the last tabulated energy","reads past the end of the vector",asan=True)
# ---- C08
mkseed('C08a','C08',[('src/fisx_element.cpp','''const std::map<std::string, double> & Element::getFluorescenceRatios(const std::string & subshell) const
{
    const Shell & shell = this->getShell(subshell);''','''const std::map<std::string, double> & Element::getFluorescenceRatios(const std::string & subshell) const
{
    const Shell shell = this->getShell(subshell);''')],
H+FE+'''int main(){ Element e("Fe",26); fillFe(e); const MD & m=e.getFluorescenceRatios("K"); return m.size()==3?0:1;}''',
"any use of the returned reference","a reference into a local copy is returned",asan=True)
mkseed('C08b','C08',[('src/fisx_element.cpp','''const std::map<std::string, double> & Element::getRadiativeTransitions(const std::string & subshell) const
{
    std::map<std::string, Shell>::const_iterator c_it;
    c_it = this->shellInstance.find(subshell);
    if (c_it == this->shellInstance.end())''','''const std::map<std::string, double> & Element::getRadiativeTransitions(const std::string & subshell) const
{
    const std::map<std::string, Shell> shells(this->shellInstance);
    std::map<std::string, Shell>::const_iterator c_it;
    c_it = shells.find(subshell);
    if (c_it == shells.end())''')],
H+FE+'''int main(){ Element e("Fe",26); fillFe(e); const MD & m=e.getRadiativeTransitions("K"); return m.size()==3?0:1;}''',
"any use of the returned reference","a reference into a destroyed local map is returned",asan=True)
# ---- C09
mkseed('C09a','C09',[('src/fisx_detector.cpp','''    this->escapePeakNThreshold = 4;
    this->escapePeakAlphaIn = 90.;
    this->escapePeakCache.clear();''','''    this->escapePeakNThreshold = 4;
    if (funnyFactor != 1.0)
    {
        this->escapePeakAlphaIn = 90.;
    }
    this->escapePeakCache.clear();''')],
H+'''int main(int c,char**v){ Elements E(v[1]); std::map<std::string,MD> r[2]; for(int i=0;i<2;i++){ void*p=malloc(sizeof(Detector)); memset(p,i?0x3f:0x40,sizeof(Detector)); Detector*d=new(p) Detector("Ge",5.3,0.1,1.0); r[i]=d->getEscape(15.,E,""); } return r[0]==r[1]&&r[0].size()?0:1;}''',
"recycled memory and the default funny factor","the incidence angle used for escape peaks is undetermined",data=True)
mkseed('C09b','C09',[('src/fisx_element.cpp','''    // Unset position in periodic table
    this->column = -1;
    this->row = -1;

    this->initPartialPhotoelectricCoefficients();''','''    // Unset position in periodic table
    this->column = -1;

    this->initPartialPhotoelectricCoefficients();''')],
H+'''int main(){ int r[2]; for(int i=0;i<2;i++){ void*p=malloc(sizeof(Element)); memset(p,i?0x3f:0x40,sizeof(Element)); Element*e=new(p) Element("Fe",26); r[i]=e->getRow(); } return r[0]==r[1]?0:1;}''',
"recycled memory","the row of a new element is undetermined")
