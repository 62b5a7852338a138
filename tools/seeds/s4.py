from common import *
mkseed('C13a','C13',[('src/fisx_material.cpp','''        if (amounts[i] <= 0.0)
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
        total += amounts[i];
    }
''','''        total += amounts[i];
        if (total <= 0.0)
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
    }
''')],
H+'''int main(){ Material m("X"); VS n; n.push_back("Fe"); n.push_back("O"); VD a; a.push_back(2.0); a.push_back(-0.5); try { m.setComposition(n,a); } catch(std::exception &){ return 0; } return 1;}''',
"a negative amount after a larger positive one","a negative mass fraction is accepted")
mkseed('C13b','C13',[('src/fisx_element.cpp','''        if (energy[i] < lastEnergy)
        {
            std::cout << "ELEMENT " << this->name << std::endl;
            std::cout << energy[i] << " < " << lastEnergy << std::endl;
            throw std::invalid_argument("Partial photoelectric energies should be in ascending order");
        }
        else
        {
            lastEnergy = energy[i];
        }''','''        if (energy[i] < lastEnergy)
        {
            std::cout << "ELEMENT " << this->name << std::endl;
            std::cout << energy[i] << " < " << lastEnergy << std::endl;
            throw std::invalid_argument("Partial photoelectric energies should be in ascending order");
        }
        else if (lastEnergy == 0.0)
        {
            lastEnergy = energy[i];
        }''')],
H+'''int main(){ Element e("Fe",26); VD en; en.push_back(1); en.push_back(9); en.push_back(5); VD v(3,1.0); try { e.setPartialPhotoelectricMassAttenuationCoefficients("K",en,v); } catch(std::exception &){ return 0; } return 1;}''',
"energies out of order after the second value","unsorted energies are accepted")
mkseed('C13c','C13',[('src/fisx_xrfconfig.cpp','''    if (referenceLayer >= (int) layers.size())''','''    if ((layers.size() > 0) && (referenceLayer > (int) layers.size() - 1 + (int) (layers.size() == 1 ? 0 : 1)))''')],
H+'''int main(){ XRFConfig c; std::vector<Layer> l(3,Layer("Fe",7.8,0.1)); try { c.setSample(l,3); } catch(std::exception &){ return 0; } return 1;}''',
"a multilayer sample and a reference layer one past the last","an out-of-range reference layer is accepted")
mkseed('C13d','C13',[('src/fisx_transmissiontable.cpp','''        if (energy[i] < max_energy)
        {''','''        if (energy[i] <= max_energy)
        {''')],
H+'''int main(){ TransmissionTable t; VD en; en.push_back(1); en.push_back(5); en.push_back(5); en.push_back(9); VD v(4,0.5); try { t.setTransmissionTable(en,v); } catch(std::exception &){ return 1; } return t.getTransmissionTable().size()==4?0:1;}''',
"a transmission table with a repeated energy (an edge)","a valid table is refused")
