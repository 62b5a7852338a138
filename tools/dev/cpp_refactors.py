S='src/'
EL=S+'fisx_element.cpp'; ES=S+'fisx_elements.cpp'; D=S+'fisx_detector.cpp'; B=S+'fisx_beam.cpp'; L=S+'fisx_layer.cpp'; MA=S+'fisx_material.cpp'; T=S+'fisx_transmissiontable.cpp'
M=[
('getEscape early return', [(D,'''    if (label.size())
    {
        if (update != 0)
            this->escapePeakCache.clear();
        if (this->escapePeakCache.find(label) != this->escapePeakCache.end())
        {
            if (this->escapePeakCache[label].find(energy) != this->escapePeakCache[label].end())
            {
                return this->escapePeakCache[label][energy];
            }
        }
        this->escapePeakCache[label][energy] = elementsLibrary''','''    if (!label.empty())
    {
        if (update)
        {
            this->clearEscapePeakCache();
        }
        std::map<std::string, std::map<double, std::map<std::string, std::map<std::string, double> > > >::const_iterator labelled = this->escapePeakCache.find(label);
        if (labelled != this->escapePeakCache.end())
        {
            std::map<double, std::map<std::string, std::map<std::string, double> > >::const_iterator known = labelled->second.find(energy);
            if (known != labelled->second.end())
            {
                return known->second;
            }
        }
        this->escapePeakCache[label][energy] = elementsLibrary''')]),
('detector setters order', [(D,'''    this->escapePeakEnergyThreshold = energy;
    this->escapePeakCache.clear();''','''    this->clearEscapePeakCache();
    this->escapePeakEnergyThreshold = energy;''')]),
('setBindingEnergies helper', [(EL,'''    // get rid of any shell definition and of anything calculated from it
    this->shellInstance = newShells;
    this->bindingEnergy = bindingEnergies;
    this->emptyCascadeCache();
    this->clearCache();''','''    // get rid of any shell definition and of anything calculated from it
    this->shellInstance.swap(newShells);
    this->bindingEnergy.swap(bindingEnergies);
    this->cascadeCache.clear();
    this->muCache.clear();
    this->excitationFactorsCache.clear();''')]),
('setBindingEnergies vectors one index', [(EL,'''    std::map<std::string, double> inputData;
    std::vector<std::string>::size_type it;
    std::vector<double>::size_type i;

    if (labels.size() != bindingEnergies.size())
    {
        throw std::invalid_argument("Number of labels does not match number of energies");
    }
    i = 0;
    for (it = 0; it < labels.size(); ++it)
    {
        inputData[labels[it]] = bindingEnergies[i];
        i++;
    }
    this->setBindingEnergies(inputData);''','''    const std::vector<std::string>::size_type nLabels = labels.size();
    if (bindingEnergies.size() != nLabels)
    {
        throw std::invalid_argument("Number of labels does not match number of energies");
    }
    std::map<std::string, double> inputData;
    for (std::vector<std::string>::size_type k = 0; k != nLabels; ++k)
    {
        inputData[labels[k]] = bindingEnergies[k];
    }
    this->setBindingEnergies(inputData);''')]),
('mu setter loops', [(EL,'''    for (i = 0; i < length; i++)
    {
        if (i > 0)
        {
            if (energies[i] < energies[i-1])
            {
                std::cout << "ELEMENT " << this->name << std::endl;
                std::cout << energies[i] << " < " << energies[i-1] << std::endl;
                throw std::invalid_argument("Energies have to be supplied in ascending order");
            }
        }
    }
    this->clearCache();

    if (this->mu.size() > 0)
    {
        for (mu_it = this->mu.begin(); mu_it != this->mu.end(); ++mu_it)
        {
            this->mu[mu_it->first].clear();
        }
        this->mu.clear();
    }
''','''    for (i = 1; i < length; i++)
    {
        if (energies[i - 1] > energies[i])
        {
            std::cout << "ELEMENT " << this->name << std::endl;
            std::cout << energies[i] << " < " << energies[i-1] << std::endl;
            throw std::invalid_argument("Energies have to be supplied in ascending order");
        }
    }
    this->mu.clear();
    this->clearCache();
''')]),
('mu getter helper', [(EL,'''    result["energy"] = energy;
    if ((i1 == i2) ||((x1 - x0) < 5.E-10))''','''    result["energy"] = energy;
    const bool samePoint = (i1 == i2) || ((x1 - x0) < 5.E-10);
    if (samePoint)'''),(EL,'''                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                    {
                        result[key] = exp(B * log(y1));
                    }
                    else
                    {
                        result[key] = 0.0;
                    }
                }
            }
        }
    }
    result["photoelectric"]''','''                    result[key] = ((y1 > 0.0) && ((energy - x0) > 1.E-5)) ? exp(B * log(y1)) : 0.0;
                }
            }
        }
    }
    result["photoelectric"]''')]),
('setRadiativeTransitions helper', [(EL,'''// Transitions
void Element::setRadiativeTransitions(std::string subshell, \\
                                      std::vector<std::string> labels, std::vector<double> values)
{
    std::string msg;
    if (this->bindingEnergy.find(subshell) == this->bindingEnergy.end())
    {
        throw std::invalid_argument("Invalid shell");
    }
    if (this->bindingEnergy[subshell] <= 0.0)
    {
        msg = "Requested shell <" + subshell + "> has non positive binding energy";
        throw std::invalid_argument(msg);
    }
    if (this->shellInstance.find(subshell) == this->shellInstance.end())
    {
        msg = "Requested shell <" + subshell + "> is not a K, L or M subshell";
        throw std::invalid_argument(msg);
    }
    this->shellInstance[subshell].setRadiativeTransitions(labels, values);
    this->emptyCascadeCache();
    this->clearCache();
}''','''// Transitions
namespace
{
Shell & usableShell(std::map<std::string, Shell> & shells, const std::map<std::string, double> & energies, const std::string & subshell)
{
    std::map<std::string, double>::const_iterator bind_it = energies.find(subshell);
    if (bind_it == energies.end())
    {
        throw std::invalid_argument("Invalid shell");
    }
    if (!(bind_it->second > 0.0))
    {
        throw std::invalid_argument("Requested shell <" + subshell + "> has non positive binding energy");
    }
    std::map<std::string, Shell>::iterator shell_it = shells.find(subshell);
    if (shell_it == shells.end())
    {
        throw std::invalid_argument("Requested shell <" + subshell + "> is not a K, L or M subshell");
    }
    return shell_it->second;
}
}

void Element::setRadiativeTransitions(std::string subshell, \\
                                      std::vector<std::string> labels, std::vector<double> values)
{
    usableShell(this->shellInstance, this->bindingEnergy, subshell).setRadiativeTransitions(labels, values);
    this->clearCache();
    this->emptyCascadeCache();
}''')]),
('emitted lines while', [(EL,'''        for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
        {
            rate = shell_it->second.getFluorescenceYield();
            if (rate > 0.0)
            {
                result[c_it->first] = this->getTransitionEnergy(c_it->first);
            }
        }''','''        rate = shell_it->second.getFluorescenceYield();
        if (!(rate > 0.0))
        {
            continue;
        }
        c_it = fluorescenceRatios.begin();
        while (c_it != fluorescenceRatios.end())
        {
            const std::string & line = c_it->first;
            result[line] = this->getTransitionEnergy(line);
            ++c_it;
        }''')]),
('excitation factors cache hit', [(EL,'''    if (this->isCacheEnabled())
    {
        if (this->excitationFactorsCache.size())
        {
            c_it = this->excitationFactorsCache.find(energy);
            if (c_it != this->excitationFactorsCache.end())
            {
                result = c_it->second;
                for(it = result.begin(); it != result.end(); ++it)
                {
                    it->second["factor"] = it->second["factor"] * weight;
                    it->second["rate"] = it->second["rate"] * weight;
                }
                return result;
            }
        }
    }''','''    c_it = this->isCacheEnabled() ? this->excitationFactorsCache.find(energy) : this->excitationFactorsCache.end();
    if (c_it != this->excitationFactorsCache.end())
    {
        result = c_it->second;
        for(it = result.begin(); it != result.end(); ++it)
        {
            std::map<std::string, double> & line = it->second;
            line["rate"] *= weight;
            line["factor"] *= weight;
        }
        return result;
    }''')]),
('excitation mu hoisted', [(EL,'''    for(it = result.begin(); it != result.end(); ++it)
    {
        it->second["factor"] = it->second["rate"] * weight;
        it->second["rate"] = it->second["factor"] *\\
                        this->getMassAttenuationCoefficients(energy)["photoelectric"];
    }
    return result;''','''    if (result.empty())
    {
        return result;
    }
    const double muPhoto = this->getMassAttenuationCoefficients(energy)["photoelectric"];
    for(it = result.begin(); it != result.end(); ++it)
    {
        const double factor = it->second["rate"] * weight;
        it->second["factor"] = factor;
        it->second["rate"] = factor * muPhoto;
    }
    return result;''')]),
('interpolation indices', [(EL,'''    if (vec.size() < 2)
    {
        if (vec.size() < 1)
        {
            throw std::runtime_error("Cannot interpolate in an empty set of values");
        }
        // a single value, nothing to interpolate
        result.first = 0;
        result.second = 0;
        return result;
    }
''','''    if (vec.empty())
    {
        throw std::runtime_error("Cannot interpolate in an empty set of values");
    }
    if (vec.size() == 1)
    {
        // a single value, nothing to interpolate
        return std::make_pair(0L, 0L);
    }
''')]),
('cache size fill', [(EL,'''    if (energy.size() < this->cacheMaximumSize)
    {
        maxSize = energy.size();
    }
    else
    {
        maxSize = this->cacheMaximumSize;
    }
    status''','''    maxSize = (energy.size() < this->cacheMaximumSize) ? energy.size() : this->cacheMaximumSize;
    status''')]),
('fillCascade', [(EL,'''        oldFlag = this->cascadeCacheEnabledFlag;
        if (oldFlag)
        {
            // this is needed because otherways it uses the cache when filling the cache :-)
            this->cascadeCacheEnabledFlag = false;
        }
        try''','''        oldFlag = this->cascadeCacheEnabledFlag;
        // this is needed because otherways it uses the cache when filling the cache :-)
        this->cascadeCacheEnabledFlag = false;
        try''')]),
('escape compatible flat', [(ES,'''    // std::cout << 0 << std::endl;
    if (this->isEscapeCacheEnabled() == 0)
    {
        return false;
    }
    if (this->detectorEscapeCache.size() > 0)
    {''','''    if ((this->isEscapeCacheEnabled() == 0) || this->detectorEscapeCache.empty())
    {
        return false;
    }
    {''')]),
('escape compatible flat2', [(ES,'''    // std::cout << 0 << std::endl;
    if (this->isEscapeCacheEnabled() == 0)
    {
        return false;
    }
    if (this->detectorEscapeCache.size() > 0)
    {
''','''    if (this->isEscapeCacheEnabled() != 0)
    {
        return (this->detectorEscapeCache.size() > 0) &&
               (energyThreshold == this->detectorEnergyThresholdUsedInCache) &&
               (intensityThreshold == this->detectorIntensityThresholdUsedInCache) &&
               (nThreshold == this->detectorNThresholdUsedInCache) &&
               (alphaIn == this->detectorAlphaInUsedInCache) &&
               (thickness == this->detectorThicknessUsedInCache) &&
               (composition == this->detectorCompositionUsedInCache);
    }
    return false;
    {
''')]),
('updateEscape params first', [(ES,'''        this->clearEscapeCache();
    }
    for (i = 0; i < energyList.size(); ++i)
    {
        energy = energyList[i];
        if (this->detectorEscapeCache.find(energy) == this->detectorEscapeCache.end())
        {
            // std::cout << "filling energy " << energy << std::endl;
            this->detectorEscapeCache[energy] = this->getEscape(composition, energy, energyThreshold, \\
                                                                intensityThreshold, nThreshold, alphaIn, thickness);
        }
        this->detectorCompositionUsedInCache = composition;
        this->detectorEnergyThresholdUsedInCache = energyThreshold;
        this->detectorIntensityThresholdUsedInCache = intensityThreshold;
        this->detectorNThresholdUsedInCache = nThreshold;
        // std::cout << "Storing cache " << nThreshold << std::endl;
        this->detectorAlphaInUsedInCache = alphaIn;
        this->detectorThicknessUsedInCache = thickness;
    }''','''        this->clearEscapeCache();
        this->detectorCompositionUsedInCache = composition;
        this->detectorEnergyThresholdUsedInCache = energyThreshold;
        this->detectorIntensityThresholdUsedInCache = intensityThreshold;
        this->detectorNThresholdUsedInCache = nThreshold;
        this->detectorAlphaInUsedInCache = alphaIn;
        this->detectorThicknessUsedInCache = thickness;
    }
    for (i = 0; i < energyList.size(); ++i)
    {
        energy = energyList[i];
        if (this->detectorEscapeCache.find(energy) == this->detectorEscapeCache.end())
        {
            const std::map<std::string, std::map<std::string, double> > peaks = this->getEscape(composition, energy, energyThreshold, \\
                                                                intensityThreshold, nThreshold, alphaIn, thickness);
            this->detectorEscapeCache[energy] = peaks;
        }
    }''')]),
('getEscape find', [(ES,'''            mapIt = it->second.find("rate");
            rate = mapIt->second;
            mapIt = it->second.find("energy");
            fluorescentEnergy = mapIt->second;''','''            std::map<std::string, double> line(it->second);
            rate = line["rate"];
            fluorescentEnergy = line["energy"];''')]),
('fillCache by reference', [(ES,'''void Elements::fillCache(const std::string & elementName, const std::vector< double> & energy)
{
    std::map<std::string, int>::const_iterator it;
    int i;
    if (this->isElementNameDefined(elementName))
    {
        it = this->elementDict.find(elementName);
        i = it->second;
        return this->elementList[i].fillCache(energy);
    }
    else
        throw std::invalid_argument("Invalid element: " + elementName);
}''','''void Elements::fillCache(const std::string & elementName, const std::vector< double> & energy)
{
    const std::map<std::string, int>::const_iterator it = this->elementDict.find(elementName);
    if (it == this->elementDict.end())
    {
        throw std::invalid_argument("Invalid element: " + elementName);
    }
    Element & element = this->elementList[it->second];
    element.fillCache(energy);
}''')]),
('removeMaterial order', [(ES,'''    this->clearEscapeCache();
    this->materialList.erase(this->materialList.begin() + i);''','''    this->materialList.erase(this->materialList.begin() + i);
    this->clearEscapeCache();''')]),
('addMaterial restructure', [(ES,'''    materialName = material.getName();
    this->clearEscapeCache();

    i = this->getMaterialIndexFromName(materialName);
    if (i < this->materialList.size())
    {
        if (errorOnReplace)
        {
            msg = "Elements::addMaterial. Already existing material: " +  materialName;
            throw std::invalid_argument(msg);
        }
        else
        {
            // try to use the same position
            this->materialList[i] = material;
        }
    }
    else
    {
        this->materialList.push_back(material);
    }''','''    materialName = material.getName();
    i = this->getMaterialIndexFromName(materialName);
    const bool known = i < this->materialList.size();
    if (known && errorOnReplace)
    {
        throw std::invalid_argument("Elements::addMaterial. Already existing material: " +  materialName);
    }
    this->clearEscapeCache();
    if (!known)
    {
        this->materialList.push_back(material);
        return;
    }
    // try to use the same position
    this->materialList[i] = material;''')]),
('mu mixture accumulators', [(ES,'''    for (n = 0; n < result["energy"].size(); n++)
    {
        result["energy"][n] = energy[n];
        result["coherent"][n] = 0.0;
        result["compton"][n] = 0.0;
        result["pair"][n] = 0.0;
        result["photoelectric"][n] = 0.0;
''','''    for (n = 0; n < energy.size(); n++)
    {
        double coherent = 0.0, compton = 0.0, pairProduction = 0.0, photo = 0.0;
'''),(ES,'''            result["coherent"][n] += tmpResult["coherent"] * massFraction;
            result["compton"][n] += tmpResult["compton"] * massFraction;
            result["pair"][n] += tmpResult["pair"] * massFraction;
            result["photoelectric"][n] += tmpResult["photoelectric"] * massFraction;
        }

        result["total"] [n] = (result["coherent"][n] + result["compton"][n]) + \\
                               result["pair"][n] + result["photoelectric"][n];''','''            coherent += tmpResult["coherent"] * massFraction;
            compton += tmpResult["compton"] * massFraction;
            pairProduction += tmpResult["pair"] * massFraction;
            photo += tmpResult["photoelectric"] * massFraction;
        }
        result["energy"][n] = energy[n];
        result["coherent"][n] = coherent;
        result["compton"][n] = compton;
        result["pair"][n] = pairProduction;
        result["photoelectric"][n] = photo;
        result["total"][n] = (coherent + compton) + pairProduction + photo;''')]),
('mixture single', [(ES,'''    energy.resize(1);
    energy[0] = inputEnergy;
    tmpResult = this->getMassAttenuationCoefficients(inputFormulaDict, energy, isComposition);

    result["energy"] = tmpResult["energy"][0];
    result["coherent"] = tmpResult["coherent"][0];
    result["compton"] = tmpResult["compton"][0];
    result["pair"] = tmpResult["pair"][0];
    result["photoelectric"] = tmpResult["photoelectric"][0];
    result["total"] = tmpResult["total"][0];

    return result;''','''    energy.push_back(inputEnergy);
    tmpResult = this->getMassAttenuationCoefficients(inputFormulaDict, energy, isComposition);
    for (std::map<std::string, std::vector<double> >::const_iterator it = tmpResult.begin(); it != tmpResult.end(); ++it)
    {
        result[it->first] = it->second[0];
    }
    return result;''')]),
('composition normalise helper', [(ES,'''    // make sure (again ?) that material is normalized
    total = 0;
    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
    {
        total += c_it->second;
    }
    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
    {
        tmpResult[c_it->first] /= total;
    }
''','''    // make sure (again ?) that material is normalized
    std::map<std::string, double>::iterator item;
    total = 0;
    for (item = tmpResult.begin(); item != tmpResult.end(); ++item)
    {
        total += item->second;
    }
    for (item = tmpResult.begin(); item != tmpResult.end(); ++item)
    {
        item->second /= total;
    }
'''),(ES,'''            if (result.find(c_it2->first) == result.end())
            {
                result[c_it2->first] = 0.0;
            }
            result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
        }
    }
    return result;
}

std::map<std::string, double> Elements::getComposition(const std::map<std::string, double> & inputComposition''','''            // a missing entry starts from zero
            result[c_it2->first] += c_it2->second * c_it->second;
        }
    }
    return result;
}

std::map<std::string, double> Elements::getComposition(const std::map<std::string, double> & inputComposition''')]),
('beam iterate', [(B,'''    totalWeight = 0.0;

    for (i = 0; i < nValues; ++i)
    {
        totalWeight += this->rays[i].weight;
    }
    if (totalWeight > 0.0)
    {
        for (i = 0; i < nValues; ++i)
        {
            this->rays[i].weight /= totalWeight;
        }
    }
    this->normalized = true;
    std::sort(this->rays.begin(), this->rays.end());''','''    totalWeight = 0.0;
    std::sort(this->rays.begin(), this->rays.end());
    std::vector<Ray>::iterator ray;
    for (ray = this->rays.begin(); ray != this->rays.end(); ++ray)
    {
        totalWeight += ray->weight;
    }
    for (i = 0; (i < nValues) && (totalWeight > 0.0); ++i)
    {
        Ray & current = this->rays[i];
        current.weight = current.weight / totalWeight;
    }
    this->normalized = true;''')]),
('beam build then swap', [(B,'''    this->normalized = false;
    this->rays.clear();
    this->rays.resize(nValues);

    tmpDouble = 1.0;

    for (i=0; i < nValues; ++i)
    {
        this->rays[i].energy = energy[i];
        if (weight != NULL)
        {
            tmpDouble = weight[i];
        }
        this->rays[i].weight = tmpDouble;
        if (characteristic == NULL)
        {
            this->rays[i].characteristic = 1;
        }
        else
        {
            this->rays[i].characteristic = characteristic[i];
        }
        if (divergency == NULL)
        {
            this->rays[i].divergency = 0.0;
        }
        else
        {
            this->rays[i].divergency = divergency[i];
        }
    }
    this->normalizeBeam();''','''    std::vector<Ray> newRays(nValues);

    tmpDouble = 1.0;
    for (i=0; i < nValues; ++i)
    {
        if (weight != NULL)
        {
            tmpDouble = weight[i];
        }
        Ray ray;
        ray.energy = energy[i];
        ray.weight = tmpDouble;
        ray.characteristic = (characteristic == NULL) ? 1 : characteristic[i];
        ray.divergency = (divergency == NULL) ? 0.0 : divergency[i];
        newRays[i] = ray;
    }
    this->normalized = false;
    this->rays.swap(newRays);
    this->normalizeBeam();''')]),
('layer one', [(L,'''    if (this->hasMaterial)
    {
        muTotal = elements.getMassAttenuationCoefficients(this->material.getComposition(), energy)["total"];
    }
    else
    {
        muTotal = elements.getMassAttenuationCoefficients(this->materialName, energy)["total"];
    }
    if (angle == 90.0)
    {
        tmpDouble = this->density * this->thickness;
    }
    else
    {
        if (angle < 0)
        {
            tmpDouble = std::sin(-angle * PI / 180.);
        }
        else
        {
            tmpDouble = std::sin(angle * PI / 180.);
        }
        tmpDouble = (this->density * this->thickness) / tmpDouble;
    }''','''    std::map<std::string, double> mu;
    if (this->hasMaterial)
    {
        mu = elements.getMassAttenuationCoefficients(this->material.getComposition(), energy);
    }
    else
    {
        mu = elements.getMassAttenuationCoefficients(this->materialName, energy);
    }
    muTotal = mu["total"];
    tmpDouble = this->density * this->thickness;
    if (angle != 90.0)
    {
        tmpDouble /= std::sin(((angle < 0) ? -angle : angle) * PI / 180.);
    }''')]),
('material single loop', [(MA,'''    total = 0.0;

    for (i = 0; i < amounts.size(); ++i)
    {
        if (amounts[i] <= 0.0)
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
        total += amounts[i];
    }

    this->composition.clear();

    for (i = 0; i < amounts.size(); ++i)
    {
        this->composition[names[i]] = amounts[i] / total;
    }
''','''    std::map<std::string, double> newComposition;
    std::vector<double>::const_iterator amount;
    total = 0.0;
    for (amount = amounts.begin(); amount != amounts.end(); ++amount)
    {
        if (!(*amount > 0.0))
        {
            throw std::invalid_argument("Mass fractions cannot be negative");
        }
        total += *amount;
    }
    for (i = amounts.size(); i > 0; --i)
    {
        newComposition.insert(std::make_pair(names[i - 1], amounts[i - 1] / total));
    }
    this->composition.swap(newComposition);
''')]),
('table build then assign', [(T,'''    // fill the table
    this->transmissionTable.clear();
    for (i = 0; i < energy.size(); ++i)
    {
        // avoid problems with duplicated energies
        if (this->transmissionTable.find(energy[i]) != this->transmissionTable.end())
        {
            // create the entry at at energy 0.001 eV higher
            this->transmissionTable[energy[i] + 0.000001] = transmission[i];
        }
        else
        {
            this->transmissionTable[energy[i]] = transmission[i];
        }

    }''','''    // fill the table
    std::map<double, double> table;
    for (i = 0; i < energy.size(); ++i)
    {
        // avoid problems with duplicated energies: create the entry at at energy 0.001 eV higher
        const double key = (table.count(energy[i]) > 0) ? energy[i] + 0.000001 : energy[i];
        table[key] = transmission[i];
    }
    this->transmissionTable = table;''')]),
('table check helper', [(T,'''    // verify the table was not already named
    if ((this->name.size() > 0) && (name.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table cannot be renamed";
        throw std::invalid_argument(msg);
    }
    if ((this->comment.size() > 0) && (comment.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table comment cannot be changed";
        throw std::invalid_argument(msg);
    }

    // assign the values
    this->transmissionTable = table;
    if (name.size() > 0)
    {
        this->name = name;
    }
    if (comment.size() > 0)
    {
        this->comment = comment;
    }''','''    const bool newName = !name.empty();
    const bool newComment = !comment.empty();
    if (newName && !this->name.empty())
    {
        throw std::invalid_argument("TransmissionTable::setTransmissionTable. Table cannot be renamed");
    }
    if (newComment && !this->comment.empty())
    {
        throw std::invalid_argument("TransmissionTable::setTransmissionTable. Table comment cannot be changed");
    }
    if (newName)
    {
        this->name = name;
    }
    if (newComment)
    {
        this->comment = comment;
    }
    this->transmissionTable = table;''')]),
('table get', [(T,'''    i2 = this->transmissionTable.upper_bound(energy);
    if (i2 == this->transmissionTable.end())
    {
        // return last value of the table
        // return (--i)->second;
        // or return 1 because we are dealing with a transmission?
        i1 = i2;
        i1--;
        return i1->second;
    }
    i1 = this->transmissionTable.begin();
    if (energy <= (i1->first))
    {
        // return first value of the table
        return i1->second;
    }
    i1 = i2;
    i1--;
''','''    i1 = this->transmissionTable.begin();
    if (energy <= (i1->first))
    {
        // return first value of the table
        return i1->second;
    }
    i2 = this->transmissionTable.upper_bound(energy);
    i1 = i2;
    --i1;
    if (i2 == this->transmissionTable.end())
    {
        // return last value of the table
        return i1->second;
    }
''')]),
]
