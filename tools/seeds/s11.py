from common import *
import sys
only=set(sys.argv[1:])
def go(id,*a,**k):
    if not only or id in only: mkseed(id,*a,**k)
S='src/'
HAS='''
static int complete(const std::map<std::string, MD> & r, const char * a, const char * b, const char * c = 0){ int n = 0; for (std::map<std::string, MD>::const_iterator i = r.begin(); i != r.end(); ++i) { n++;
 if (!i->second.count(a) || !i->second.count(b) || (c && !i->second.count(c))) { printf("%s is incomplete\\n", i->first.c_str()); return 0; } } return n; }
'''
go('C19a','C19',[(S+'fisx_element.cpp','''                        energy1 = 0.003;
''','''                        if (finalDistribution.find(tmpString) == finalDistribution.end())
                            continue;
                        energy1 = 0.003;
''')],
H+FE+HAS+'''
int main(){ Element e("Fe", 26); fillFe(e); MD r; r["KL3"] = 0.5; r["KL2"] = 0.3; r["KM3"] = 0.2; e.setRadiativeTransitions("K", r); MD d; d["K"] = 1.0;
 return complete(e.getXRayLinesFromVacancyDistribution(d, 1, 1), "rate", "energy") == 3 ? 0 : 1; }
''', "a line from an outer shell without binding energy and without constants of its own", "the line is answered with a rate and without energy")
go('C19b','C19',[(S+'fisx_element.cpp','''                        result[rayIt->first] = rayIt->second;
                        result[rayIt->first]["rate"] *= c_it->second;
''','''                        result[rayIt->first]["rate"] = rayIt->second.find("rate")->second * c_it->second;
''')],
H+FE+HAS+'''
int main(){ Element e("Fe", 26); fillFe(e); MD d; d["K"] = 1.0; e.fillCascadeCache(); e.setCascadeCacheEnabled(1);
 return complete(e.getXRayLinesFromVacancyDistribution(d, 1, 1), "rate", "energy") == 3 ? 0 : 1; }
''', "lines asked for with the cascade cache filled and enabled", "the lines come without energy")
go('C19c','C19',[(S+'fisx_element.cpp','''    for(it = result.begin(); it != result.end(); ++it)
    {
        it->second["factor"] = it->second["rate"] * weight;
''','''    for(it = result.begin(); it != result.end(); ++it)
    {
        if (weight <= 0.0)
            break;
        it->second["factor"] = it->second["rate"] * weight;
''')],
H+FE+HAS+'''
int main(){ Element e("Fe", 26); fillFe(e); VD en; en.push_back(20.0); en.push_back(15.0); VD w; w.push_back(1.0); w.push_back(0.0);
 std::vector<std::map<std::string, MD> > r = e.getPhotoelectricExcitationFactors(en, w); return complete(r[0], "rate", "energy", "factor") == 3 && complete(r[1], "rate", "energy", "factor") == 3 ? 0 : 1; }
''', "an energy of the list with zero weight", "its lines come without factor and with a rate that is not weighted")
go('C19d','C19',[(S+'fisx_elements.cpp','''                    rate /= intrinsicEfficiency;
                }
                result[tmpString] ["rate"] = rate;
                result[tmpString] ["energy"] = energy - fluorescentEnergy;
''','''                    rate /= intrinsicEfficiency;
                }
                result[tmpString] ["rate"] = rate;
                if (thickness > 0.0 || result[tmpString].size() < 1 || energy < 2.0 * fluorescentEnergy)
                    result[tmpString] ["energy"] = energy - fluorescentEnergy;
''')],
H+HAS+'''
int main(int, char ** v){ Elements E(v[1]); E.setEscapeCacheEnabled(0); MD c; c["Si"] = 0.5; c["Ge"] = 0.5; int n = 0;
 double e[] = {3.0, 12.0, 20.0, 40.0}; for (int i = 0; i < 4; i++) { std::map<std::string, MD> r = E.getEscape(c, e[i], 0.010, 1.0e-12, 2, 90., 0.0); printf("%d\\n", (int) r.size()); if (r.size()) { if (!complete(r, "rate", "energy")) return 1; n++; } }
 return n ? 0 : 1; }
''', "escape from a detector of unknown thickness at high energy", "the escape peaks come without energy", data=True)
