from common import *
# ---- C07
mkseed('C07a','C07',[('src/fisx_material.cpp','''    total = 0.0;

    for (i = 0; i < amounts.size(); ++i)
    {
        if (amounts[i] <= 0.0)
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
        total += amounts[i];
    }

    this->composition.clear();

    for (i = 0; i < amounts.size(); ++i)
    {
        this->composition[names[i]] = amounts[i] / total;
    }
''','''    total = 0.0;

    this->composition.clear();

    for (i = 0; i < amounts.size(); ++i)
    {
        if (amounts[i] <= 0.0)
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
        this->composition[names[i]] = amounts[i];
        total += amounts[i];
    }

    for (i = 0; i < amounts.size(); ++i)
    {
        this->composition[names[i]] /= total;
    }
''')],
H+'''int main(){ Material m("X",1.0); VS n; VD a; n.push_back("Fe"); a.push_back(1.); m.setComposition(n,a); n.push_back("Cr"); n[0]="Si"; a.push_back(-1.); 
 try{ m.setComposition(n,a);}catch(std::exception&){} MD c=m.getComposition(); return (c.size()==1&&c["Fe"]==1.0)?0:1;}''',
"an amount list whose first entries are valid and a later one is not","the composition is half replaced after the exception")
mkseed('C07b','C07',[('src/fisx_transmissiontable.cpp','''    // fill the table
    this->transmissionTable.clear();
    for (i''','''    // fill the table
    for (i'''),('src/fisx_transmissiontable.cpp','''    // verify the data are consistent
    if (energy.size() != transmission.size())''','''    // forget the previous table
    this->transmissionTable.clear();

    // verify the data are consistent
    if (energy.size() != transmission.size())''')],
H+'''#include "fisx_transmissiontable.h"
int main(){ TransmissionTable t; VD e,v; e.push_back(1);e.push_back(2);v.push_back(.1);v.push_back(.2); t.setTransmissionTable(e,v,"n"); double x=t.getTransmission(1.5);
 VD bad(2,3.0); bad[1]=1.0; try{t.setTransmissionTable(bad,v);}catch(std::exception&){} return t.getTransmission(1.5)==x?0:1;}''',
"an unsorted energy list given to a table already in use","the table is empty (full transmission) after the rejected call")
mkseed('C07c','C07',[('src/fisx_transmissiontable.cpp','''    // verify the table was not already named
    if ((this->name.size() > 0) && (name.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table cannot be renamed";
        throw std::invalid_argument(msg);
    }
    if ((this->comment.size() > 0) && (comment.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table comment cannot be changed";
        throw std::invalid_argument(msg);
    }

    // assign the values
    this->transmissionTable = table;
    if (name.size() > 0)
    {
        this->name = name;
    }
    if (comment.size() > 0)
    {
        this->comment = comment;
    }''','''    // verify the table was not already named
    if (name.size() > 0)
    {
        if (this->name.size() > 0)
        {
            msg = "TransmissionTable::setTransmissionTable. Table cannot be renamed";
            throw std::invalid_argument(msg);
        }
        this->name = name;
    }
    if (comment.size() > 0)
    {
        if (this->comment.size() > 0)
        {
            msg = "TransmissionTable::setTransmissionTable. Table comment cannot be changed";
            throw std::invalid_argument(msg);
        }
        this->comment = comment;
    }

    // assign the values
    this->transmissionTable = table;''')],
H+'''#include "fisx_transmissiontable.h"
int main(){ TransmissionTable t("", "c"); std::map<double,double> m; m[1.]=.5; try{ t.setTransmissionTable(m,"newname","other comment"); }catch(std::exception&){} return t.getName()==""?0:1;}''',
"a table with a comment but no name, given both","the table got its name although the call was rejected")
# ---- C12
mkseed('C12a','C12',[('src/fisx_xrf.cpp','''    return this->getMultilayerFluorescence(elementList, elementsLibrary, layerList, familyList, \\
                                           secondary, useGeometricEfficiency, useMassFractions, \\
                                           optimizationFactor, overwritingBeam);
}

double XRF::getEnergyThreshold''','''    return this->getMultilayerFluorescence(elementList, elementsLibrary, layerList, familyList, \\
                                           secondary, useMassFractions, useGeometricEfficiency, \\
                                           optimizationFactor, overwritingBeam);
}

double XRF::getEnergyThreshold''')],
H+'''int main(int c,char**v){ Elements E(v[1]); XRF x; x.setBeam(VD(1,15.),VD(1,1.),std::vector<int>(1,1),VD(1,0.)); std::vector<Layer> s; Material m("X",1.0); MD a; a["Fe"]=0.25; a["Si"]=.75; m.setComposition(a); Layer l("s",2.0,0.1); l.setMaterial(m); s.push_back(l);
 x.setSample(s); Detector d("Si",2.33,0.1); d.setDiameter(1.0); d.setDistance(5.0); x.setDetector(d); x.setGeometry(45.,45.);
 VS el(1,"Fe"), fa(1,"K"); std::vector<int> la(1,0);
 return x.getMultilayerFluorescence("Fe",E,0,"K",0,1,0)==x.getMultilayerFluorescence(el,E,la,fa,0,1,0) ? 0:1; }''',
"the single element query with the two flags set differently","geometric efficiency and mass fraction flags are exchanged",data=True)
mkseed('C12b','C12',[('src/fisx_layer.cpp','''        tmpDoubleVector[i] = (1.0 - this->funnyFactor) + \\
                              (this->funnyFactor * exp(-(tmpDouble * tmpDoubleVector[i])));''','''        tmpDoubleVector[i] = std::exp(-(tmpDouble * tmpDoubleVector[i]));''')],
H+'''int main(int c,char**v){ Elements E(v[1]); Layer l("s",2.0,0.1,0.5); Material m("X",1.0); MD a; a["Fe"]=1; m.setComposition(a); l.setMaterial(m); VD e(1,10.);
 double x=l.getTransmission(10.,E), y=l.getTransmission(e,E)[0]; return fabs(x-y)<1e-12?0:1; }''',
"a layer with a covering factor different from one, transmission of a list of energies","the list version ignores the covering factor of the layer",data=True)
mkseed('C12c','C12',[('src/fisx_elements.cpp','''    if (thickness > 0.0)
    {
        intrinsicEfficiency = (1.0 - std::exp(-muIncident * thickness / sinAlphaIn));
    }''','''    if (thickness > 0.0)
    {
        intrinsicEfficiency = (1.0 - std::exp(-muIncident / sinAlphaIn));
    }''')],
H+'''int main(int c,char**v){ Elements E(v[1]); MD a; a["Si"]=1; std::map<std::string,MD> x=E.getEscape(a,5.,0.01,1e-12,4,90.,0.0001), y=E.getEscape(a,5.,0.01,1e-12,4,90.,0.01); return (!x.empty() && x!=y)?0:1; }''',
"escape peaks of a detector of finite thickness","the thickness is tested but its value is not used",data=True)
mkseed('C12d','C12',[('src/fisx_multilayer.cpp','''detectionEfficiency *= userAttenuators[iTransmissionTable].getTransmission(energy);''','''detectionEfficiency *= userFilters[iTransmissionTable].getTransmission(energy);''')],
H+'''#include "fisx_transmissiontable.h"
int main(int c,char**v){ Elements E(v[1]); XRF x; x.setBeam(VD(1,15.),VD(1,1.),std::vector<int>(1,1),VD(1,0.)); std::vector<Layer> s; Material m("X",1.0); MD a; a["Fe"]=0.25; a["Si"]=.75; m.setComposition(a); Layer l("s",2.0,0.1); l.setMaterial(m); s.push_back(l);
 x.setSample(s); x.setGeometry(45.,45.); TransmissionTable t("t"),u("u"); std::map<double,double> k,q; k[0.]=.5;k[100.]=.5; t.setTransmissionTable(k); q[0.]=.25;q[100.]=.25; u.setTransmissionTable(q); 
 VS el(1,"Fe"), fa(1,"K"); std::vector<int> la(1,0); x.setUserBeamFilters(std::vector<TransmissionTable>(1,t));
 x.setUserAttenuators(std::vector<TransmissionTable>(1,t)); double A=x.getMultilayerFluorescence(el,E,la,fa,0,0,0).begin()->second[0].begin()->second["rate"];
 x.setUserAttenuators(std::vector<TransmissionTable>(1,u)); double B=x.getMultilayerFluorescence(el,E,la,fa,0,0,0).begin()->second[0].begin()->second["rate"];
 return (A>0 && fabs(B/A-0.5)<1e-9)?0:1; }''',
"a configuration with a user attenuator table different from the beam filter table","the user attenuators have no effect on the detected rate",data=True)
