# behaviour-preserving rewrites, second batch (XRF, XRFConfig, multilayer, Shell, SimpleIni, EPDL97, Math, Elements)
S='src/'
X=S+'fisx_xrf.cpp'; XC=S+'fisx_xrfconfig.cpp'; ML=S+'fisx_multilayer.cpp'; SH=S+'fisx_shell.cpp'; SI=S+'fisx_simpleini.cpp'; SF=S+'fisx_simplespecfile.cpp'; EP=S+'fisx_epdl97.cpp'; MT=S+'fisx_math.cpp'; ES=S+'fisx_elements.cpp'
M=[
('setSample by name via Layer', [(X,'''    std::vector<Layer> vLayer;
    vLayer.push_back(Layer(name, density, thickness, 1.0));
    this->configuration.setSample(vLayer, 0);''','''    this->setSample(Layer(name, density, thickness, 1.0));''')]),
('setSample vector ctor', [(X,'''    std::vector<Layer> vLayer;
    vLayer.push_back(layer);
    this->configuration.setSample(vLayer, 0);''','''    const std::vector<Layer> vLayer(1, layer);
    this->configuration.setSample(vLayer, 0);''')]),
('geometric efficiency helper', [(X,'''double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
{''','''static double thicknessBetween(const std::vector<Layer> & sample, int from, int to)
{
    double total = 0.0;
    for (int i = from; i < to; ++i)
    {
        total += sample[i].getThickness();
    }
    return total;
}

double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
{'''),(X,'''    if (sampleLayerIndex != referenceLayerIndex)
    {
        if (sampleLayerIndex > referenceLayerIndex)
        {
            for (iLayer = (std::vector<Layer>::size_type) referenceLayerIndex; iLayer < (std::vector<Layer>::size_type) sampleLayerIndex; iLayer++)
            {
                layerPtr = &sample[iLayer];
                distance += (*layerPtr).getThickness() / sinAlphaOut;
            }
        }
        else
        {
            for (iLayer = (std::vector<Layer>::size_type) sampleLayerIndex; iLayer < (std::vector<Layer>::size_type) referenceLayerIndex; iLayer++)
            {
                layerPtr = &sample[iLayer];
                distance -= (*layerPtr).getThickness() / sinAlphaOut;
            }
        }
    }
''','''    distance += thicknessBetween(sample, referenceLayerIndex, sampleLayerIndex) / sinAlphaOut;
    distance -= thicknessBetween(sample, sampleLayerIndex, referenceLayerIndex) / sinAlphaOut;
'''),(X,'''    std::vector<Layer>::size_type iLayer;
    const int & referenceLayerIndex''','''    const int & referenceLayerIndex'''),(X,'''    const Layer* layerPtr;

    // if the''','''
    // if the''')]),
('geometric efficiency checks first', [(X,'''    distance = detectorDistance;
    if ((distance == 0.0) && (sampleLayerIndex == 0))
    {
        return 0.5;
    }
    if (sampleLayerIndex < 0)
    {
        std::cout << "Negative sample layer index in getGeometricEfficiency " << sampleLayerIndex << std::endl;
        throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
    }
    if ((sampleLayerIndex > 0) && (sampleLayerIndex >= (int) sample.size()))
    {
        throw std::invalid_argument("Sample layer index must be smaller than number of layers");
    }
''','''    if (sampleLayerIndex < 0)
    {
        throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
    }
    if ((sampleLayerIndex != 0) && (static_cast<std::vector<Layer>::size_type>(sampleLayerIndex) >= sample.size()))
    {
        throw std::invalid_argument("Sample layer index must be smaller than number of layers");
    }
    distance = detectorDistance;
    if ((distance == 0.0) && (sampleLayerIndex == 0))
    {
        return 0.5;
    }
''')]),
('energy threshold by table', [(X,'''    if (family == "M")
    {
        if (binding["M5"] > 0)
            return binding["M5"];
        if (binding["M4"] > 0)
            return binding["M4"];
        if (binding["M3"] > 0)
            return binding["M3"];
        if (binding["M2"] > 0)
            return binding["M2"];
        return binding["M1"]; // It can be 0.0
    }
    return 0.0;''','''    if (family == "M")
    {
        static const char * const names[] = {"M5", "M4", "M3", "M2"};
        for (int i = 0; i < 4; i++)
        {
            const double value = binding[names[i]];
            if (value > 0)
                return value;
        }
        return binding["M1"]; // It can be 0.0
    }
    return 0.0;''')]),
('layer transmission helper', [(X,'''std::vector<double> XRF::getLayerTransmission(const Layer & layer,
                                             const std::vector<double> & energy,''','''static double massThickness(const Layer & layer, double angle)
{
    const double product = layer.getDensity() * layer.getThickness();
    if (angle == 90.0)
        return product;
    return product / std::sin(std::fabs(angle) * std::acos(-1.0) / 180.);
}

std::vector<double> XRF::getLayerTransmission(const Layer & layer,
                                             const std::vector<double> & energy,'''),(X,'''    if (angle == 90.0)
    {
        tmpDouble = layer.getDensity() * layer.getThickness();
    }
    else
    {
        if (angle < 0)
            tmpDouble = std::sin(-angle * PI / 180.);
        else
            tmpDouble = std::sin(angle * PI / 180.);
        tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;
    }
''','''    tmpDouble = massThickness(layer, angle);
'''),(X,'''    const double PI = std::acos(-1.0);
    std::vector<double>::size_type i;
    std::vector<double> tmpDoubleVector;''','''    std::vector<double>::size_type i;
    std::vector<double> tmpDoubleVector;''')]),
('layer transmission transform lambda', [(X,'''    for (i = 0; i < tmpDoubleVector.size(); i++)
    {
        tmpDoubleVector[i] = (1.0 - layer.getFunnyFactor()) + \\
                              (layer.getFunnyFactor() * exp(-(tmpDouble * tmpDoubleVector[i])));
    }
    return tmpDoubleVector;''','''    (void) i;
    const double funny = layer.getFunnyFactor();
    std::transform(tmpDoubleVector.begin(), tmpDoubleVector.end(), tmpDoubleVector.begin(),
                   [funny, tmpDouble](double mu) { return (1.0 - funny) + funny * std::exp(-tmpDouble * mu); });
    return tmpDoubleVector;''')]),
('peak families names', [(X,'''        if (std::find(elementsList.begin(), elementsList.end(), c_it->first) == elementsList.end())
        {
            elementsList.push_back(c_it->first);
        }''','''        elementsList.push_back(c_it->first);''')]),
('peak families ternary', [(X,'''    if (layerComposition.size() > 0)
        composition = layerComposition;
    else
        composition = this->getLayerComposition(layer, elements);
''','''    composition = layerComposition.empty() ? this->getLayerComposition(layer, elements) : layerComposition;
''')]),
('family keys else if', [(X,'''        if(tmpStringVector.size() == 2)
        {
            elementList[i] = tmpStringVector[0];
            familyList[i] = tmpStringVector[1];
            layerList[i] = -1;
        }
        if(tmpStringVector.size() == 1)
        {
            elementList[i] = tmpStringVector[0];
            familyList[i] = "";
            layerList[i] = -1;
        }''','''        else if (!tmpStringVector.empty() && (tmpStringVector.size() < 3))
        {
            elementList[i] = tmpStringVector[0];
            familyList[i] = (tmpStringVector.size() == 2) ? tmpStringVector[1] : std::string();
            layerList[i] = -1;
        }''')]),
('config material lookup helper', [(XC,'''void XRFConfig::readConfigurationFromFile(const std::string & fileName)
{''','''static void attachMaterial(Layer & layer, const std::string & name, const std::vector<Material> & materials)
{
    layer.setMaterial(name);
    for (std::vector<Material>::const_iterator it = materials.begin(); it != materials.end(); ++it)
    {
        if (it->getName() == name)
        {
            layer.setMaterial(*it);
        }
    }
}

void XRFConfig::readConfigurationFromFile(const std::string & fileName)
{'''),(XC,'''                        layer = Layer(c_it->first, doubleVector[2], doubleVector[3], doubleVector[4]);
                        layer.setMaterial(stringVector[1]);
                        for(iMaterial = 0; iMaterial < this->materials.size(); iMaterial++)
                        {
                            if(this->materials[iMaterial].getName() == stringVector[1])
                            {
                                layer.setMaterial(this->materials[iMaterial]);
                            }
                        }
                        this->attenuators.push_back(layer);''','''                        layer = Layer(c_it->first, doubleVector[2], doubleVector[3], doubleVector[4]);
                        attachMaterial(layer, stringVector[1], this->materials);
                        this->attenuators.push_back(layer);'''),(XC,'''                    layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                    layer.setMaterial(stringVector[1]);
                    for(iMaterial = 0; iMaterial < this->materials.size(); iMaterial++)
                    {
                        if(this->materials[iMaterial].getName() == stringVector[1])
                        {
                            layer.setMaterial(this->materials[iMaterial]);
                        }
                    }
                    this->sample.push_back(layer);''','''                    layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                    attachMaterial(layer, stringVector[1], this->materials);
                    this->sample.push_back(layer);''')]),
('config beam fill defaults', [(XC,'''        mapDoubles["weight"].resize(mapDoubles["energy"].size());
        std::fill(mapDoubles["weight"].begin(), mapDoubles["weight"].end(), 1.0);''','''        mapDoubles["weight"].assign(mapDoubles["energy"].size(), 1.0);'''),(XC,'''        intVector.resize(mapDoubles["energy"].size());
        std::fill(intVector.begin(), intVector.end(), 1);''','''        intVector.assign(mapDoubles["energy"].size(), 1);''')]),
('config beam kept rays', [(XC,'''    counter = 0;
    iIntVector = flagVector.size();
    while(iIntVector > 0)
    {
        iIntVector--;
        if ((flagVector[iIntVector] > 0) && (mapDoubles["energy"][iIntVector] != -666.0))
        {
            if(mapDoubles["energy"][iIntVector] <= 0.0)
            {
                throw std::invalid_argument("Negative excitation beam photon energy");
            }
            if(mapDoubles["weight"][iIntVector] < 0.0)
            {
                throw std::invalid_argument("Negative excitation beam photon weight");
            }
            if(intVector[iIntVector] < 0)
            {
                std::cout << "WARNING: " << "Negative characteristic flag. ";
                std::cout << "Assuming not a characteristic photon energy." << std::endl;
                intVector[iIntVector] = 0;
            }
            counter++;
        }
        else
        {
            // index not to be considered
            mapDoubles["energy"].erase(mapDoubles["energy"].begin() + iIntVector);
            mapDoubles["weight"].erase(mapDoubles["weight"].begin() + iIntVector);
            intVector.erase(intVector.begin() + iIntVector);
        }
    }
''','''    (void) counter;
    std::vector<double> & energies = mapDoubles["energy"];
    std::vector<double> & weights = mapDoubles["weight"];
    for (iIntVector = flagVector.size(); iIntVector-- > 0; )
    {
        const bool used = (flagVector[iIntVector] > 0) && (energies[iIntVector] != -666.0);
        if (!used)
        {
            // index not to be considered
            energies.erase(energies.begin() + iIntVector);
            weights.erase(weights.begin() + iIntVector);
            intVector.erase(intVector.begin() + iIntVector);
            continue;
        }
        if (energies[iIntVector] <= 0.0)
        {
            throw std::invalid_argument("Negative excitation beam photon energy");
        }
        if (weights[iIntVector] < 0.0)
        {
            throw std::invalid_argument("Negative excitation beam photon weight");
        }
        if (intVector[iIntVector] < 0)
        {
            std::cout << "WARNING: " << "Negative characteristic flag. ";
            std::cout << "Assuming not a characteristic photon energy." << std::endl;
            intVector[iIntVector] = 0;
        }
    }
''')]),
('config sections else if', [(XC,'''        if (key == "AREA")
        {
            this->detector.setActiveArea(value);
        }''','''        else if (key == "AREA")
        {
            this->detector.setActiveArea(value);
        }''')]),
('config setSample order', [(XC,'''    if (referenceLayer >= (int) layers.size())
    {
        throw std::invalid_argument("Reference layer must be smaller than number of layers");
    }
    if (referenceLayer < 0)
    {
        throw std::invalid_argument("Reference layer cannot be negative");
    }
    this->sample = layers;
    this->referenceLayer = referenceLayer;''','''    if (referenceLayer < 0)
    {
        throw std::invalid_argument("Reference layer cannot be negative");
    }
    const int nLayers = static_cast<int>(layers.size());
    if (!(referenceLayer < nLayers))
    {
        throw std::invalid_argument("Reference layer must be smaller than number of layers");
    }
    std::vector<Layer> copied(layers);
    this->sample.swap(copied);
    this->referenceLayer = referenceLayer;''')]),
('shell map overload push_back', [(SH,'''    transitions.resize(inputMap.size());
    values.resize(inputMap.size());

    iTransitions = 0;
    iValues = 0;
    for(it = inputMap.begin(); it != inputMap.end(); ++it)
    {
        transitions[iTransitions] = it->first;
        values[iValues] = it->second;
        iTransitions++;
        iValues++;
    }
    this->setRadiativeTransitions(transitions, values);''','''    (void) iTransitions; (void) iValues; (void) it;
    transitions.reserve(inputMap.size());
    values.reserve(inputMap.size());
    for (const auto & item : inputMap)
    {
        transitions.push_back(item.first);
        values.push_back(item.second);
    }
    this->setRadiativeTransitions(transitions, values);''')]),
('shell ratios helper', [(SH,'''void Shell::_updateFluorescenceRatios()
{''','''static double sumOfRates(const std::map<std::string, double> & rates, const std::string & skip)
{
    double total = 0.0;
    for (std::map<std::string, double>::const_iterator it = rates.begin(); it != rates.end(); ++it)
    {
        if (it->first != skip)
            total += it->second;
    }
    return total;
}

void Shell::_updateFluorescenceRatios()
{'''),(SH,'''    total = 0.0 ;
    for (iter = this->radiativeTransitions.begin(); iter != this->radiativeTransitions.end(); ++iter)
    {
        if (iter->first != totalLabel)
        {
            total += iter->second;
        }
    }

    for (iter = this->radiativeTransitions.begin(); iter != this->radiativeTransitions.end(); ++iter)
    {
        // do not calculate unnecessary ratios
        if (iter->second > 0.0)
        {
            if (iter->first != totalLabel)
            {
                this->fluorescenceRatios[iter->first] = iter->second / total;
            }
        }
    }''','''    total = sumOfRates(this->radiativeTransitions, totalLabel);

    std::map<std::string, double> ratios;
    for (iter = this->radiativeTransitions.begin(); iter != this->radiativeTransitions.end(); ++iter)
    {
        // do not calculate unnecessary ratios
        if ((iter->second > 0.0) && (iter->first != totalLabel))
        {
            ratios[iter->first] = iter->second / total;
        }
    }
    this->fluorescenceRatios = ratios;'''),(SH,'''    if (this->fluorescenceRatios.size() > 0)
    {
        this->fluorescenceRatios.clear();
    }

    // calculate the sum of rates
    // Since''','''    // calculate the sum of rates
    // Since''')]),
('shell vacancy transfer helper', [(SH,'''std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::string &destination) const
//''','''static double sumStartingWith(const std::map<std::string, double> & ratios, const std::string & prefix)
{
    double total = 0.0;
    for (std::map<std::string, double>::const_iterator it = ratios.begin(); it != ratios.end(); ++it)
    {
        if (it->first.compare(0, prefix.size(), prefix) == 0)
            total += it->second;
    }
    return total;
}

std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::string &destination) const
//'''),(SH,'''    for (it = this->augerRatios.begin(); it != this->augerRatios.end(); ++it)
    {
        if (it->first.substr(0, transition.size()) == transition)
        {
            output["auger"] += it->second;
        }
    }
''','''    output["auger"] += sumStartingWith(this->augerRatios, transition);
'''),(SH,'''        for (it = ck_it->second.begin(); it != ck_it->second.end(); ++it)
        {
            if (it->first.substr(0, transition.size()) == transition)
            {
                output[ck_it->first] += it->second;
            }
        }
''','''        output[ck_it->first] += sumStartingWith(ck_it->second, transition);
''')]),
('shell yields range for', [(SH,'''    tmpDouble = 0.0;
    for (it = this->shellConstants.begin(); it != this->shellConstants.end(); ++it)
    {
        tmpDouble += it->second;
    }
    if (tmpDouble > 1.0001)
    {
        for (it = this->shellConstants.begin(); it != this->shellConstants.end(); ++it)
        {
            std::cout << it->first << " = " << it->second << std::endl;
        }
        throw''','''    tmpDouble = 0.0;
    for (const auto & constant : this->shellConstants)
        tmpDouble += constant.second;
    if (tmpDouble > 1.0001)
    {
        for (const auto & constant : this->shellConstants)
        {
            std::cout << constant.first << " = " << constant.second << std::endl;
        }
        throw''')]),
('shell constants insert checked copy', [(SH,'''    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
    {
        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
        {
            msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
            throw std::invalid_argument(msg);
        }
    }
    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
    {
        this->shellConstants[c_it->first] = c_it->second;
    }''','''    std::map<std::string, double> updated = this->shellConstants;
    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
    {
        std::map<std::string, double>::iterator own = updated.find(c_it->first);
        if (own == updated.end())
        {
            msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
            throw std::invalid_argument(msg);
        }
        own->second = c_it->second;
    }
    this->shellConstants = updated;''')]),
('ini trim helper', [(SI,'''void SimpleIni::readFileName(std::string fileName)
{''','''static std::string trimmed(const std::string & line, std::string::size_type & first)
{
    const std::string blanks = " \\n\\r\\t";
    const std::string::size_type last = line.find_last_not_of(blanks);
    if (last == std::string::npos)
        return std::string();
    first = line.find_first_not_of(blanks);
    return line.substr(first, last + 1 - first);
}

void SimpleIni::readFileName(std::string fileName)
{'''),(SI,'''        trimmedLine = "";
        if((line.size() > 0))
        {
            // trim leading and trailing spaces
            p1 = line.find_last_not_of(" \\n\\r\\t");
            if (p1 != line.npos)
            {
                trimmedLine = line.substr(0, p1 + 1);
                p0 = trimmedLine.find_first_not_of(" \\n\\r\\t");
                trimmedLine = trimmedLine.substr(p0);
            }
        }
''','''        trimmedLine = trimmed(line, p0);
''')]),
('ini subsections copy', [(SI,'''        destination.resize(this->sections.size());
        for (i = 0; i < this->sections.size(); i++)
        {
            destination[i] = this->sections[i];
        }
        return;''','''        destination = this->sections;
        return;''')]),
('ini readSection iterator', [(SI,'''    if (this->sectionContents.find(key) == this->sectionContents.end())
    {
        if (!caseSensitive)''','''    std::map<std::string, std::map<std::string, std::string> >::const_iterator found = this->sectionContents.find(key);
    if (found == this->sectionContents.end())
    {
        if (!caseSensitive)'''),(SI,'''    return this->sectionContents[key];
}''','''    return found->second;
}''')]),
('specfile label loop', [(SF,'''    i = 0;
    while (i < nLines)
    {
        if (line.size() > 1)
        {
            if (line.substr(0, 2) != "#L")
            {
                std::getline(fileInstance, line);
            }
            else
            {
                // go out of the loop
                i = nLines;
            }
        }
        else
        {
            std::getline(fileInstance, line);
        }
        i++;
    }
''','''    for (i = 0; i < nLines; i++)
    {
        if (line.compare(0, 2, "#L") == 0)
        {
            break;
        }
        std::getline(fileInstance, line);
    }
''')]),
('epdl binding energies index', [(EP,'''    if (z >= (int) this->bindingEnergy.size())
    {
        // Repeat for the elements beyond the last one
        return this->bindingEnergy[this->bindingEnergy.size() - 1];
    }
    else
    {
        return this->bindingEnergy[z - 1];
    }''','''    const std::vector<std::map<std::string, double> >::size_type n = this->bindingEnergy.size();
    if (z >= (int) n)
    {
        // Repeat for the elements beyond the last one
        return this->bindingEnergy.back();
    }
    return this->bindingEnergy[z - 1];''')]),
('epdl hoisted indices', [(EP,'''            pVec = &(this->muInputValues[i][j]);
            this->muEnergy[i][j] = (*pVec)[this->muLabelToIndex["energy"]];
            // recalculate the photoelectric effect of the non considered shells
            (*pVec)[this->muLabelToIndex["photoelectric"]] = (*pVec)[this->muLabelToIndex["total"]]-\\
                                         (*pVec)[this->muLabelToIndex["compton"]]-\\
                                         (*pVec)[this->muLabelToIndex["coherent"]];
''','''            pVec = &(this->muInputValues[i][j]);
            std::vector<double> & values = *pVec;
            const int iPhoto = this->muLabelToIndex["photoelectric"];
            this->muEnergy[i][j] = values[this->muLabelToIndex["energy"]];
            // recalculate the photoelectric effect of the non considered shells
            values[iPhoto] = values[this->muLabelToIndex["total"]] - values[this->muLabelToIndex["compton"]] -
                             values[this->muLabelToIndex["coherent"]];
''')]),
('math erf through erfc', [(MT,'''double Math::erf(const double & x)
{
    double z;
    double t;
    double r;

    z = std::fabs(x);
    t = 1.0 / (1.0 + 0.5 * z);
    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \\
        t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \\
        t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
    if (x < 0)
    {
       r = 2.0 - r;
    }
    return (1.0 - r);
}''','''double Math::erf(const double & x)
{
    return 1.0 - Math::erfc(x);
}''')]),
('math L0 common product', [(MT,'''    tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));
    tmpDouble = tmpDouble -(Math::deBoerD(muj * d) / (mu1 * mu2)) + \\
                 (Math::deBoerD((muj + mu1) * d) / (mu1 * (mu1 + mu2)));
    tmpDouble *= std::exp(-(mu1 + muj) * d);
''','''    const double sum = mu1 + mu2;
    tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * sum) - Math::deBoerD(muj * d) / (mu1 * mu2);
    tmpDouble += Math::deBoerD((muj + mu1) * d) / (mu1 * sum);
    tmpDouble *= std::exp(-(mu1 + muj) * d);
''')]),
('multilayer helper for beam', [(ML,'''std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > \\
                XRF::getMultilayerFluorescence(const std::vector<std::string> & elementList,''','''static void attenuate(std::vector<double> & weights, const std::vector<double> & factors)
{
    for (std::vector<double>::size_type i = 0; i < weights.size(); ++i)
    {
        weights[i] *= factors[i];
    }
}

std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > \\
                XRF::getMultilayerFluorescence(const std::vector<std::string> & elementList,'''),(ML,'''        doubleVector = this->getLayerTransmission(filters[iLayer], energies, elementsLibrary);
        for (iRay = 0; iRay < energies.size(); iRay++)
        {
            actualRays[1][iRay] *= doubleVector[iRay];
        }
''','''        attenuate(actualRays[1], this->getLayerTransmission(filters[iLayer], energies, elementsLibrary));
'''),(ML,'''        doubleVector = userFilters[iTransmissionTable].getTransmission(energies);
        for (iRay = 0; iRay < energies.size(); iRay++)
        {
            actualRays[1][iRay] *= doubleVector[iRay];
        }
''','''        attenuate(actualRays[1], userFilters[iTransmissionTable].getTransmission(energies));
''')]),
('multilayer range for composition', [(ML,'''    for (iLayer = 0; iLayer < sample.size(); iLayer++)
    {
        sampleLayerCompositionList.push_back(this->getLayerComposition(sample[iLayer], elementsLibrary));
    }
''','''    sampleLayerCompositionList.reserve(sample.size());
    for (const Layer & sampleLayer : sample)
    {
        sampleLayerCompositionList.push_back(this->getLayerComposition(sampleLayer, elementsLibrary));
    }
'''),(ML,'''    geometricEfficiency.resize(sample.size());
    if (useGeometricEfficiency != 0)
    {
        for (iLayer = 0; iLayer < sample.size(); iLayer++)
        {
            geometricEfficiency[iLayer] = this->getGeometricEfficiency(iLayer);
        }
    }
    else
    {
        for (iLayer = 0; iLayer < sample.size(); iLayer++)
        {
            geometricEfficiency[iLayer] = 1.0;
        }
    }
''','''    geometricEfficiency.assign(sample.size(), 1.0);
    if (useGeometricEfficiency)
    {
        for (iLayer = 0; iLayer < sample.size(); iLayer++)
        {
            geometricEfficiency[iLayer] = this->getGeometricEfficiency(static_cast<int>(iLayer));
        }
    }
''')]),
('multilayer detection helper', [(ML,'''                            detectionEfficiency = 1.0;
                            // transmission through upper layers
                            jLayer = iLayer;
                            while (jLayer > 0)
                            {
                                jLayer--;
                                layerPtr = &sample[jLayer];
                                detectionEfficiency *= this->getLayerTransmission( *layerPtr, \\
                                                                                   energy, \\
                                                                                   elementsLibrary, \\
                                                                                   alphaOut,
                                                                                   sampleLayerCompositionList[jLayer]);
                            }
''','''                            detectionEfficiency = 1.0;
                            // transmission through upper layers
                            for (jLayer = 0; jLayer < iLayer; jLayer++)
                            {
                                detectionEfficiency *= this->getLayerTransmission( sample[jLayer], energy, elementsLibrary, \\
                                                                                   alphaOut, sampleLayerCompositionList[jLayer]);
                            }
''')]),
('elements addMaterial early', [(ES,'''    i = this->getMaterialIndexFromName(materialName);
    if (i < this->materialList.size())
    {
        if (errorOnReplace)
        {
            msg = "Elements::addMaterial. Already existing material: " +  materialName;
            throw std::invalid_argument(msg);
        }
        else
        {
            // try to use the same position
            this->materialList[i] = material;
        }
    }
    else
    {
        this->materialList.push_back(material);
    }''','''    i = this->getMaterialIndexFromName(materialName);
    if (i == this->materialList.size())
    {
        this->materialList.push_back(material);
        return;
    }
    if (errorOnReplace)
    {
        msg = "Elements::addMaterial. Already existing material: " +  materialName;
        throw std::invalid_argument(msg);
    }
    // try to use the same position
    this->materialList[i] = material;''')]),
('elements material index find_if', [(ES,'''    std::vector<Material>::size_type i;

    for (i = 0; i < this->materialList.size(); i++)
    {
        if(this->materialList[i].getName() == name)
        {
            return i;
        }
    }
    return this->materialList.size();''','''    std::vector<Material>::const_iterator it;
    it = std::find_if(this->materialList.begin(), this->materialList.end(),
                      [&name](const Material & material) { return material.getName() == name; });
    return static_cast<std::vector<Material>::size_type>(it - this->materialList.begin());''')]),
('elements composition accumulate', [(ES,'''    for (c_it = inputComposition.begin(); c_it != inputComposition.end(); ++c_it)
    {
        tmpComposition = this->getComposition(c_it->first, additionalMaterials);
        if (tmpComposition.size() < 1)
        {
            return tmpComposition;
        }
        for (c_it2 = tmpComposition.begin(); c_it2 != tmpComposition.end(); ++c_it2)
        {
            if (result.find(c_it2->first) == result.end())
            {
                result[c_it2->first] = 0.0;
            }
            result[c_it2->first] += c_it2->second * c_it->second;
        }
    }
''','''    for (const auto & component : inputComposition)
    {
        tmpComposition = this->getComposition(component.first, additionalMaterials);
        if (tmpComposition.empty())
        {
            return tmpComposition;
        }
        for (const auto & part : tmpComposition)
        {
            // absent keys start at zero
            result[part.first] += part.second * component.second;
        }
    }
''')]),
('elements shell constants subshell helper', [(ES,'''    sf = SimpleSpecfile(fileName);
    nScans = sf.getNumberOfScans();
    if (mainShellName == "K")
    {
        if (nScans != 1)
        {
            msg = "Number of scans not equal one in K shell constants file " + \\
                   fileName;
            throw std::ios_base::failure(msg);
        }
        subShells.push_back("K");
    }
    if (mainShellName == "L")
    {
        if (nScans != 3)
        {
            msg = "Number of scans not equal three in L shell constants file " + \\
                   fileName;
            throw std::ios_base::failure(msg);
        }
        subShells.push_back("L1");
        subShells.push_back("L2");
        subShells.push_back("L3");
    }
    if (mainShellName == "M")
    {
        if (nScans != 5)
        {
            msg = "Number of scans not equal five in M shell constants file " + \\
                   fileName;
            throw std::ios_base::failure(msg);
        }
        subShells.push_back("M1");
        subShells.push_back("M2");
        subShells.push_back("M3");
        subShells.push_back("M4");
        subShells.push_back("M5");
    }
''','''    sf = SimpleSpecfile(fileName);
    nScans = sf.getNumberOfScans();
    subShells = subshellNames(mainShellName);
    if (nScans != (int) subShells.size())
    {
        msg = "Number of scans not adequate in " + mainShellName + " shell constants file " + fileName;
        throw std::ios_base::failure(msg);
    }
'''),(ES,'''// Shell constants
void Elements::setShellConstantsFile(''','''static std::vector<std::string> subshellNames(const std::string & mainShellName)
{
    std::vector<std::string> names;
    if (mainShellName == "K")
    {
        names.push_back("K");
        return names;
    }
    const int n = (mainShellName == "L") ? 3 : 5;
    for (int k = 1; k <= n; k++)
    {
        names.push_back(mainShellName + (char) ('0' + k));
    }
    return names;
}

// Shell constants
void Elements::setShellConstantsFile(''')]),
('elements peak families element ref', [(ES,'''        shells = getElement(elementList[i]).getExcitedShells(energy);
        if (shells.size())
        {
            const std::map<std::string, double> & bindingEnergies = \\
                        getElement(elementList[i]).getBindingEnergies();
            for (j = 0; j < shells.size(); j++)
            {
                c_it = bindingEnergies.find(shells[j]);
                if ((shells[j][0] == 'K') || (shells[j][0] == 'L') || (shells[j][0] == 'M'))
                {
                    if (getElement(elementList[i]).getShellConstants(shells[j])["omega"] > 0.0)
                    {
                        result.push_back(std::make_pair(elementList[i] + " " + shells[j], c_it->second));
                    }
                }
            }
        }''','''        const Element & element = this->getElement(elementList[i]);
        const std::map<std::string, double> & bindingEnergies = element.getBindingEnergies();
        shells = element.getExcitedShells(energy);
        for (j = 0; j < shells.size(); j++)
        {
            c_it = bindingEnergies.find(shells[j]);
            const char main = shells[j][0];
            if ((main != 'K') && (main != 'L') && (main != 'M'))
            {
                continue;
            }
            if (element.getShellConstants(shells[j])["omega"] > 0.0)
            {
                result.push_back(std::make_pair(elementList[i] + " " + shells[j], c_it->second));
            }
        }''')]),
('elements constructor helper', [(ES,'''Elements::Elements(std::string directoryName, short pymca)
{''','''static std::string joined(const std::string & directory, const std::string & separator, const std::string & file)
{
    return directory + separator + file;
}

Elements::Elements(std::string directoryName, short pymca)
{'''),(ES,'''        tmpFileName = directoryName + joinSymbol + K_SHELL_CONSTANTS_FILE;
        this->setShellConstantsFile("K", tmpFileName);
        tmpFileName = directoryName + joinSymbol + L_SHELL_CONSTANTS_FILE;
        this->setShellConstantsFile("L", tmpFileName);
        tmpFileName = directoryName + joinSymbol + M_SHELL_CONSTANTS_FILE;
        this->setShellConstantsFile("M", tmpFileName);''','''        this->setShellConstantsFile("K", joined(directoryName, joinSymbol, K_SHELL_CONSTANTS_FILE));
        this->setShellConstantsFile("L", joined(directoryName, joinSymbol, L_SHELL_CONSTANTS_FILE));
        this->setShellConstantsFile("M", joined(directoryName, joinSymbol, M_SHELL_CONSTANTS_FILE));''')]),
]
