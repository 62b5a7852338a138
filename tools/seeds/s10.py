from common import *
import sys
only=set(sys.argv[1:])
def go(id,*a,**k):
    if not only or id in only: mkseed(id,*a,**k)
S='src/'
MK='''
static void fill(Element & e, double s){ VD en, ph, co, cp, pr; for (int i = 0; i < 4; i++) { en.push_back(5.0 + 5 * i); ph.push_back(s * 8.); co.push_back(s * 1.); cp.push_back(s * 2.); pr.push_back(s * 4.); }
 MD b; b["K"] = 1.0; e.setBindingEnergies(b); e.setMassAttenuationCoefficients(en, ph, co, cp, pr); const char * o[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
 VD z(4, 0.0); for (int i = 0; i < 10; i++) e.setPartialPhotoelectricMassAttenuationCoefficients(o[i], en, i ? z : ph); }
static bool eq(double a, double b){ return std::fabs(a - b) < 1e-9; }
'''
go('C23a','C23',[(S+'fisx_elements.cpp','result["pair"][n] += tmpResult["pair"] * massFraction;','result["pair"][n] = tmpResult["pair"] * massFraction;')],
H+MK+'''
int main(int, char ** v){ Elements e(v[1]); Element a("Xa", 121), b("Xb", 122); fill(a, 1.0); fill(b, 3.0); e.addElement(a); e.addElement(b); MD m; m["Xa"] = 0.25; m["Xb"] = 0.75;
 MD r = e.getMassAttenuationCoefficients(m, 12.0, 1); printf("%g %g\\n", r["pair"], r["total"]); return eq(r["pair"], 4 * 2.5) && eq(r["total"], 15 * 2.5) ? 0 : 1; }
''', "a mixture of several elements at an energy with pair production", "only the last element of the mixture contributes to pair production and to the total", data=True)
go('C23b','C23',[(S+'fisx_element.cpp','''this->mu["total"][i] += this->mu["compton"][i] +\\
                                this->mu["pair"][i] + this->mu["photoelectric"][i];''','''this->mu["total"][i] += this->mu["compton"][i] +\\
                                this->mu["photoelectric"][i];''')],
H+MK+'''
int main(){ Element a("Xa", 121); fill(a, 1.0); std::map<std::string, VD> m = a.getMassAttenuationCoefficients(); return eq(m["total"][1], 15.0) ? 0 : 1; }
''', "the table of an element with pair production", "the tabulated total leaves pair production out")
go('C23c','C23',[(S+'fisx_element.cpp','''            if ((key == "coherent") || (key == "compton") || (key == "pair"))
            {
                result[key] = c_it->second[i1];''','''            if ((key == "coherent") || (key == "compton"))
            {
                result[key] = c_it->second[i1];''')],
H+MK+'''
int main(){ Element a("Xa", 121); fill(a, 1.0); VD en(1, 10.0); MD r = a.getMassAttenuationCoefficients(12.0); MD q = a.getMassAttenuationCoefficients(3.0 + 17.0); MD p = a.getMassAttenuationCoefficients(25.0);
 printf("%g %g %g\\n", r["total"], q["total"], p["total"]); VD g; g.push_back(5.); g.push_back(10.); g.push_back(10.); g.push_back(20.); VD c(4, 1.), ph(4, 8.), pr(4, 4.); a.setMassAttenuationCoefficients(g, ph, c, c, pr);
 MD s = a.getMassAttenuationCoefficients(10.0); printf("%g %g\\n", s["pair"], s["total"]); MD t = a.getMassAttenuationCoefficients(g[0]); printf("%g\\n", t["pair"]);
 double e[] = {5., 10., 10. + 1e-10, 20.}; a.setMassAttenuationCoefficients(VD(e, e + 4), ph, c, c, pr); MD u = a.getMassAttenuationCoefficients(10. + 5e-11); printf("%g\\n", u["pair"]);
 a.setMassAttenuationCoefficients(VD(1, 5.), VD(1, 8.), VD(1, 1.), VD(1, 1.), VD(1, 4.)); 
 return eq(s["pair"], 4.) && eq(t["pair"], 4.) && eq(u["pair"], 4.) && eq(p["pair"], 4.) ? 0 : 1; }
''', "an energy exactly at an edge or beyond the table, in an element with pair production", "pair production disappears from the answer and from its total")
go('C23d','C23',[(S+'fisx_elements.cpp','''massAttenuationCoefficients["compton"][i] = compton[i - j];''','''massAttenuationCoefficients["compton"][i] = pair.size() ? pair[i - j] : compton[i - j];''')],
H+MK+'''
int main(int, char ** v){ Elements e(v[1]); VD en, ph, co, cp, pr; for (int i = 0; i < 4; i++) { en.push_back(5.0 + 10 * i); ph.push_back(8. - i); co.push_back(1.); cp.push_back(2.); pr.push_back(0.5); }
 e.setMassAttenuationCoefficients("Fe", en, ph, co, cp, pr); MD r = e.getMassAttenuationCoefficients("Fe", 20.0); printf("%g %g %g\\n", r["coherent"], r["compton"], r["pair"]); return eq(r["compton"], 2.) && eq(r["pair"], 0.5) ? 0 : 1; }
''', "external tables that include pair production", "the compton table is replaced by the pair table", data=True)
go('C23e','C23',[(S+'fisx_layer.cpp','''tmpDoubleVector = elements.getMassAttenuationCoefficients(this->material.getComposition(), energy)["total"];''','''tmpDoubleVector = elements.getMassAttenuationCoefficients(this->material.getComposition(), energy)["photoelectric"];''')],
H+'''
int main(int, char ** v){ Elements e(v[1]); Material m("mine", 7.8, 0.001); MD c; c["Fe"] = 1.0; m.setComposition(c); Layer l("l", 7.8, 0.001); l.setMaterial(m);
 double one = l.getTransmission(20.0, e), many = l.getTransmission(VD(1, 20.0), e)[0]; printf("%g %g\\n", one, many); return std::fabs(one - many) < 1e-9 ? 0 : 1; }
''', "the transmission of a list of energies through a layer that carries its own material", "scattering does not attenuate", data=True)
