from common import *
import sys
only=set(sys.argv[1:])
def go(id,*a,**k):
    if not only or id in only: mkseed(id,*a,**k)
S='src/'
go('C15a','C15',[(S+'fisx_elements.cpp','''                if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
                {
                    break;
                }
                i += 1;''','''                if (formula[i] == '_')
                {
                    // subscripts as in (SiO2)_2: not part of the number
                    continue;
                }
                if (isalpha(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
                {
                    break;
                }
                i += 1;''')],
H+'''#include <unistd.h>
int main(int, char ** v){ Elements e(v[1]); alarm(20);
 const char * t[] = {"(SiO2)2Fe", "(SiO2)2", "(SiO2)_2Fe", "(SiO2)_2"};
 for(int i=0;i<4;i++){ try{ e.parseFormula(t[i]); }catch(std::exception &){} }
 return 0; }
''', "an underscore behind a parenthesis in a formula", "parsing the formula never ends", data=True)
go('C15b','C15',[(S+'fisx_epdl97.cpp','''        if (x > vec[lastI0])
        {
            iMin = lastI0;
        }
        else
        {
            iMax = lastI0;
        }
        distance = iMax - iMin;''','''        if (x > vec[lastI0])
        {
            iMin = lastI0;
        }
        else if (x < vec[lastI0])
        {
            iMax = lastI0;
        }
        distance = iMax - iMin;''')],
H+'''#include <unistd.h>
int main(int, char ** v){ Elements e(v[1]); alarm(60);
 double g = 0.1; int n = 0;
 for(int k=0;k<41;k++){ char b[40]; snprintf(b, 40, "%.8g", g); double x = atof(b); g *= 1.25;
   if (x < 1.0 || x > 90.) continue; try{ e.getElement("Fe"); VD q(1, x); std::map<std::string, VD> r = e.getMassAttenuationCoefficients("Fe", q); n += r.size(); EPDL97 p(v[1]); p.getMassAttenuationCoefficients(26, x);}catch(std::exception &){} }
 return 0; }
''', "an energy that is a point of the tabulated grid", "the search of the energy never ends", data=True)
go('C15c','C15',[(S+'fisx_multilayer.cpp','''                            while (jLayer > 0)
                            {
                                jLayer--;
                                layerPtr = &sample[jLayer];''','''                            while (jLayer > 0)
                            {
                                layerPtr = &sample[jLayer - 1];
                                if (layerPtr->getThickness() * layerPtr->getDensity() <= 0.0)
                                {
                                    // nothing to be attenuated
                                    continue;
                                }
                                jLayer--;''')],
H+'''#include <unistd.h>
int main(int, char ** v){ Elements e(v[1]); alarm(100);
 XRF x; Beam bm; bm.setBeam(VD(1, 20.0), VD(1, 1.0)); x.setBeam(bm); std::vector<Layer> s; s.push_back(Layer("Al", 2.7, 0.0)); s.push_back(Layer("Fe", 7.8, 0.001)); x.setSample(s);
 x.setGeometry(45., 45., 90.); 
 try{ VS f(1, "Fe"), k(1, "K"); std::vector<int> n(1, 1); x.getMultilayerFluorescence(f, e, n, k, 1); }catch(std::exception & k){ printf("%s\\n", k.what()); }
 return 0; }
''', "a sample layer without thickness above the one that emits", "the calculation never ends", data=True)
MH='''    std::map<double, double> getTransmissionTable() const;
'''
go('C20a','C20',[(S+'fisx_transmissiontable.h','''    std::string getName() const;
    std::string getComment() const;

private:
''','''    TransmissionTable(const TransmissionTable & other);
    TransmissionTable & operator=(const TransmissionTable & other);
    std::string getName() const;
    std::string getComment() const;

private:
'''),(S+'fisx_transmissiontable.cpp','''TransmissionTable::TransmissionTable()
''','''TransmissionTable::TransmissionTable(const TransmissionTable & other): name(other.name), comment(other.comment), transmissionTable(other.transmissionTable)
{
}

TransmissionTable & TransmissionTable::operator=(const TransmissionTable & other)
{
    if (this->name != other.name)
    {
        this->name = other.name;
        this->comment = other.comment;
        this->transmissionTable = other.transmissionTable;
    }
    return *this;
}

TransmissionTable::TransmissionTable()
''')],
H+'''
int main(){ TransmissionTable a("w"), b("w"); std::map<double,double> m; m[1.0]=0.5; m[10.]=1.0; a.setTransmissionTable(m); b = a;
 return b.getTransmissionTable().size() == 2 ? 0 : 1; }
''', "assigning a table to another one with the same name", "the assigned table keeps its old values")
go('C20b','C20',[(S+'fisx_material.h','#include <map>\n','#include <map>\n#include <memory>\n'),(S+'fisx_material.h','    std::map<std::string, double> composition;','    // compositions may be long, do not duplicate them\n    std::shared_ptr<std::map<std::string, double> > composition;'),
 (S+'fisx_material.cpp','    this->composition.clear();\n','    if (!this->composition)\n    {\n        this->composition.reset(new std::map<std::string, double>());\n    }\n    this->composition->clear();\n'),
 (S+'fisx_material.cpp','        this->composition[names[i]] = amounts[i] / total;','        (*this->composition)[names[i]] = amounts[i] / total;'),
 (S+'fisx_material.cpp','    return this->composition;','    return this->composition ? *this->composition : std::map<std::string, double>();')],
H+'''
int main(){ Material a("m1"); std::map<std::string,double> c; c["Si"]=1; a.setComposition(c); Material b(a); std::map<std::string,double> d; d["Fe"]=1; b.setComposition(d);
 return a.getComposition().count("Si") == 1 ? 0 : 1; }
''', "changing the composition of a copy of a material", "the original changes too")
go('C20c','C20',[(S+'fisx_detector.h','    int escapePeakNThreshold;','    static int escapePeakNThreshold;'),
 (S+'fisx_detector.cpp','Detector::Detector(const std::string & name, const double & density, const double & thickness, \\\n','int Detector::escapePeakNThreshold = 4;\n\nDetector::Detector(const std::string & name, const double & density, const double & thickness, \\\n')],
H+'''
int main(){ Detector a("Si", 2.33, 0.05), b("Ge", 5.3, 0.05); a.setMinimumEscapePeakIntensity(1e-7); a.setMaximumNumberOfEscapePeaks(7); b.setMaximumNumberOfEscapePeaks(2);
 return a.getEscapePeakNThreshold() == 7 ? 0 : 1; }
''', "two detectors with different numbers of escape peaks", "the setting of one detector changes the other one")
