from common import *
mkseed('C11a','C11',[('src/fisx_material.cpp','''    this->comment = comment;
    this->initialized = true;
}

void Material::setComposition(const std::map''','''    if (comment.size())
    {
        this->comment = comment;
    }
    this->initialized = true;
}

void Material::setComposition(const std::map''')],
H+'''int main(){ Material m("X",1.0,1.0,"first"); m.initialize("Y",2.0,1.0,""); return m.getComment()==""?0:1;}''',
"a material initialised again, the second time with an empty comment","the comment of the previous material is read back")
mkseed('C11b','C11',[('src/fisx_xrf.cpp','''        this->configuration.setGeometry(alphaIn, alphaOut, alphaIn + alphaOut);''','''        this->configuration.setGeometry(alphaOut, alphaIn, alphaIn + alphaOut);''')],
H+'''int main(){ XRF x; x.setGeometry(30.,60.); return (x.getAlphaIn()==30.&&x.getAlphaOut()==60.)?0:1;}''',
"a geometry with different angles and the default scattering angle","incident and outgoing angles are exchanged")
mkseed('C11c','C11',[('src/fisx_detector.cpp','''    this->distance = distance;
}''','''    this->distance = distance;
    if (this->diameter > 4.0 * distance)
    {
        this->diameter = 4.0 * distance;
    }
}''')],
H+'''int main(){ Detector d("Si",2.33,0.05); d.setDiameter(2.0); d.setDistance(0.25); if(d.getDiameter()!=2.0) return 1; return 0;}''',
"a detector placed closer than a quarter of its diameter, diameter set first","setting the distance changes the diameter")
mkseed('C01c','C01',[('src/fisx_elements.cpp','''                    if (alphaIn == this->detectorAlphaInUsedInCache)
                    {''','''                    if ((alphaIn == this->detectorAlphaInUsedInCache) || (thickness <= 0.0))
                    {''')],
H+'''int main(int c,char**v){ (void)c; Elements e(v[1]); e.setEscapeCacheEnabled(1); MD comp; comp["Si"]=1.0; VD en(1,10.0);
 std::map<std::string,MD> a=e.getEscape(comp,10.0,0.010,1.0e-7,2,30.,0.0); e.updateEscapeCache(comp,en,0.010,1.0e-7,2,90.,0.0); std::map<std::string,MD> b=e.getEscape(comp,10.0,0.010,1.0e-7,2,30.,0.0); return (a.size()&&a==b)?0:1; }''',
"escape cache filled for one incident angle and asked for another, no thickness","cached escape peaks of another angle are returned", data=True)
mkseed('C01d','C01',[('src/fisx_element.cpp','''                    it->second["rate"] = it->second["rate"] * weight;
                }
                return result;''','''                }
                return result;''')],
H+FE+'''int main(){ Element e("Fe",26); fillFe(e); VD en(1,20.0); std::map<std::string,MD> a=e.getPhotoelectricExcitationFactors(20.0,0.25); e.setCacheEnabled(1); e.fillCache(en);
 std::map<std::string,MD> b=e.getPhotoelectricExcitationFactors(20.0,0.25); for(std::map<std::string,MD>::iterator i=a.begin();i!=a.end();++i) if(std::fabs(i->second["rate"]-b[i->first]["rate"])>1e-9*std::fabs(i->second["rate"])) return 1; return a.size()?0:1; }''',
"calculation cache filled and a weight other than 1","the cached rate ignores the weight")
