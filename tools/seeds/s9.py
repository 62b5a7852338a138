from common import *
import sys
only=set(sys.argv[1:])
def go(id,*a,**k):
    if not only or id in only: mkseed(id,*a,**k)
S='src/'
go('C10a','C10',[(S+'fisx_xrf.cpp','distance += (*layerPtr).getThickness() / sinAlphaOut;','distance += (*layerPtr).getDensity() * (*layerPtr).getThickness() / sinAlphaOut;')],
H+'''
int main(){ XRF x; std::vector<Layer> s; s.push_back(Layer("Al", 2.7, 0.1)); s.push_back(Layer("Fe", 7.8, 0.1)); x.setSample(s);
 Detector d("Si", 2.33, 0.05); d.setDiameter(1.0); d.setDistance(2.0); x.setDetector(d); x.setGeometry(45., 45., 90.);
 double z = 2.0 + 0.1 / std::sin(std::acos(-1.0) / 4), want = 0.5 * (1 - z / std::sqrt(z * z + 0.25));
 return std::fabs(x.getGeometricEfficiency(1) - want) < 1e-9 ? 0 : 1; }
''', "a sample of several layers, a layer below the reference one and an overlayer with density other than 1", "the distance from a buried layer to the detector is lengthened by g/cm2 instead of cm")
go('C10b','C10',[(S+'fisx_layer.cpp','''    else
    {
        if (angle < 0)
            tmpDouble = std::sin(-angle * PI / 180.);
        else
            tmpDouble = std::sin(angle * PI / 180.);
        tmpDouble = this->density * this->thickness / tmpDouble;
    }''','''    else
    {
        if (angle < 0)
            tmpDouble = std::sin(-angle * PI / 180.);
        else
            tmpDouble = std::sin(angle);
        tmpDouble = this->density * this->thickness / tmpDouble;
    }''')],
H+'''
int main(int, char ** v){ Elements e(v[1]); Layer l("Fe", 1.0, 0.001); double a = 45.0;
 double one = l.getTransmission(20.0, e, a), many = l.getTransmission(VD(1, 20.0), e, a)[0];
 return std::fabs(one - many) < 1e-9 ? 0 : 1; }
''', "the transmission of a list of energies at an angle other than 90 degrees", "the sine of the angle is taken as if it were in radians", data=True)
go('C10c','C10',[(S+'fisx_math.cpp','tmpHelp = -tmpHelp / (p * mu1j + q * mu2j);','tmpHelp = -tmpHelp / (p + q * mu2j);')] if 0 else
 [(S+'fisx_multilayer.cpp','std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn)','std::exp(-mu_2_lambda * thickness_2/sinAlphaIn)')],
H+'''
static double sec(Elements & e, double rho){ XRF x; Beam bm; bm.setBeam(VD(1, 20.0), VD(1, 1.0)); x.setBeam(bm); std::vector<Layer> s; s.push_back(Layer("Ni", rho, 0.002 / rho)); s.push_back(Layer("Fe", rho, 0.002 / rho)); x.setSample(s);
 x.setGeometry(45., 45., 90.); VS f(1, "Fe"), k(1, "K"); std::vector<int> n(1, 1);
 std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > r = x.getMultilayerFluorescence(f, e, n, k, 1);
 double t = 0; for (std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > >::iterator a = r.begin(); a != r.end(); ++a) for (std::map<int, std::map<std::string, std::map<std::string, double> > >::iterator b = a->second.begin(); b != a->second.end(); ++b) for (std::map<std::string, std::map<std::string, double> >::iterator c = b->second.begin(); c != b->second.end(); ++c)
  { std::map<std::string, double> & m = c->second; printf("%s %g %g\\n", c->first.c_str(), m["primary"], m["secondary"]); t += m["rate"]; }
 return t; }
int main(int, char ** v){ Elements e(v[1]); double a = sec(e, 1.0), b = sec(e, 5.0); printf("%.10g %.10g\\n", a, b); return std::fabs(a - b) <= 1e-9 * std::fabs(a) ? 0 : 1; }
''', "secondary excitation by a layer above, through layers with a density other than 1", "the result changes with the density at the same mass thickness", data=True)
go('C10d','C10',[(S+'fisx_math.cpp','tmpDouble *= std::exp(-(mu1 + muj) * d);','tmpDouble *= std::exp(-(mu1 + muj) * thickness);')],
H+'''#include "fisx_math.h"
int main(){ double a = Math::deBoerL0(10., 20., 30., 1.0, 0.01), b = Math::deBoerL0(10., 20., 30., 4.0, 0.0025); printf("%g %g\\n", a, b);
 return std::fabs(a - b) < 1e-12 ? 0 : 1; }
''', "a thin layer with a density other than 1", "the intralayer term changes with the density at the same mass thickness")
