ML='src/fisx_multilayer.cpp'; X='src/fisx_xrf.cpp'; L='src/fisx_layer.cpp'; E='src/fisx_elements.cpp'; EL='src/fisx_element.cpp'; D='src/fisx_detector.cpp'; MA='src/fisx_math.cpp'; P='src/fisx_epdl97.cpp'
M=[
('BUG layer weight no density',ML,'tmpDouble += sampleLayerDensity[iLayer] * sampleLayerThickness[iLayer] *\\\n                         muTotal','tmpDouble += sampleLayerThickness[iLayer] *\\\n                         muTotal'),
('BUG mu_b no density cached',ML,'''mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              muTotalCacheLayer[bLayer][cacheIndex];''','''mu_b_j_d_t += sampleLayerThickness[bLayer] * \\
                                                              muTotalCacheLayer[bLayer][cacheIndex];'''),
('BUG mu_b no mu',ML,'''mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              muTotalCacheLayer[bLayer][cacheIndex];''','''mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer];'''),
('BUG primary not divided',ML,'tmpDouble = (1.0 - exp( - tmpDouble * density_1 * thickness_1)) / tmpDouble;','tmpDouble = (1.0 - exp( - tmpDouble * density_1 * thickness_1)) / density_1;'),
('BUG primary exp no thickness',ML,'exp( - tmpDouble * density_1 * thickness_1)','exp( - tmpDouble * density_1)'),
('BUG primary sum',ML,'tmpDouble = (mu_1_lambda / sinAlphaIn) + (mu_1_i / sinAlphaOut);','tmpDouble = (mu_1_lambda * density_1 / sinAlphaIn) + (mu_1_i / sinAlphaOut);'),
('BUG primary factor not rate',ML,'primaryExcitationFactors[c_it->first]["rate"] * \\\n','primaryExcitationFactors[c_it->first]["factor"] * \\\n'),
('BUG deBoerL0 order',ML,'''mu_1_lambda / sinAlphaIn,
                                                               sampleLayerMuTotal[jLayer][iLambda],
                                                               density_1,
                                                               thickness_1);
                                    tmpDouble *=''','''mu_1_lambda / sinAlphaIn,
                                                               thickness_1,
                                                               density_1,
                                                               sampleLayerMuTotal[jLayer][iLambda]);
                                    tmpDouble *='''),
('BUG deBoerL0 energy for mu',ML,'''tmpDouble = Math::deBoerL0(mu_1_lambda / sinAlphaIn,
                                                               mu_1_i / sinAlphaOut,
                                                               sampleLayerMuTotal[jLayer][iLambda],''','''tmpDouble = Math::deBoerL0(mu_1_lambda / sinAlphaIn,
                                                               mu_1_i / sinAlphaOut,
                                                               sampleLayerEnergies[jLayer][iLambda],'''),
('BUG deBoerX thickness only',ML,'''                                                                  density_1 * thickness_1, \\
                                                                  density_2 * thickness_2, \\
                                                                  mu_1_j, \\
                                                                  mu_2_j, \\
                                                                  mu_b_j_d_t);
                                        tmpDouble *= elementMassFractionFactor''','''                                                                  density_1 * thickness_1, \\
                                                                  thickness_2, \\
                                                                  mu_1_j, \\
                                                                  mu_2_j, \\
                                                                  mu_b_j_d_t);
                                        tmpDouble *= elementMassFractionFactor'''),
('BUG layerFactor',ML,'std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn)','std::exp(-mu_2_lambda * thickness_2/sinAlphaIn)'),
('BUG secondary rate->factor',ML,'''tmpDouble *= tmpExcitationFactors[c_it->first]["rate"] * \\
''','''tmpDouble *= tmpExcitationFactors[c_it->first]["factor"] * \\
'''),
('BUG sec interlayer energy',ML,'''tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
''','''tmpDouble *= tmpExcitationFactors[c_it->first]["energy"];
'''),
('BUG threshold vs rate',ML,'if (energyThreshold > sampleLayerEnergies[jLayer][iLambda])','if (energyThreshold > sampleLayerRates[jLayer][iLambda])'),
('BUG lookup at rate',ML,'energy = sampleLayerEnergies[jLayer][iLambda];','energy = sampleLayerMuTotal[jLayer][iLambda];'),
('BUG coherent to total',ML,'sampleLayerMuTotal[iLayer] = tmpStringDoubleVecMap["total"];','sampleLayerMuTotal[iLayer] = sampleLayerEnergies[iLayer];'),
('BUG limit on energy',ML,'if (mapIt2->second < minimumExcitationEnergy)','mapIt2 = c_it->second.find("factor"); if (mapIt2->second < minimumExcitationEnergy)'),
('BUG xrf transm thickness',X,'tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;','tmpDouble = layer.getThickness() / tmpDouble;'),
('BUG xrf transm density2',X,'tmpDouble = layer.getDensity() * layer.getThickness();','tmpDouble = layer.getDensity() * layer.getDensity();'),
('BUG layer transm thickness',L,'tmpDouble = (this->density * this->thickness) / tmpDouble;','tmpDouble = this->thickness / tmpDouble;'),
('BUG layer vec transm',L,'tmpDouble = this->density * this->thickness;\n    }\n    else\n    {\n        if (angle < 0)\n            tmp','tmpDouble = this->thickness;\n    }\n    else\n    {\n        if (angle < 0)\n            tmp'),
('BUG layer default',L,'this->thickness = this->material.getDefaultThickness();','this->thickness = this->material.getDefaultDensity();'),
('BUG sin deg',L,'tmpDouble = std::sin(angle * PI / 180.);\n        }','tmpDouble = std::sin(angle);\n        }'),
('BUG sin deg inverse',X,'tmpDouble = std::sin(angle * PI / 180.);','tmpDouble = std::sin(angle * 180. / PI);'),
('BUG detector area',D,'this->diameter = 2.0 * sqrt(area/pi);','this->diameter = 2.0 * area/pi;'),
('BUG detector ctor swap',D,'Layer(name, density, thickness, funnyFactor)','Layer(name, thickness, density, funnyFactor)'),
('BUG xrf layer swap',X,'Layer(name, density, thickness, 1.0)','Layer(name, thickness, density, 1.0)'),
('BUG L0 d',MA,'d = thickness * density;','d = thickness;'),
('BUG L0 thick',MA,'std::log(1 + mu1/muj) / ((mu1 + mu2) * muj)','std::log(1 + mu1/muj) / (mu1 + mu2)'),
('BUG L0 exp',MA,'tmpDouble *= std::exp(-(mu1 + muj) * d);','tmpDouble *= std::exp(-(mu1 + muj));'),
('BUG L0 term',MA,'tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));','tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu1 + mu2);'),
('BUG V00',MA,'tmpHelp = -tmpHelp / (p * mu1j + q * mu2j);','tmpHelp = -tmpHelp / (p * mu1j + q);'),
('BUG escape energy',E,'result[tmpString] ["energy"] = energy - fluorescentEnergy;','result[tmpString] ["energy"] = energy - muFluorescence;'),
('BUG escape rate',E,'rate *= (0.5 /  muIncident) *','rate *= 0.5 *'),
('BUG escape eff',E,'std::exp(-muIncident * thickness / sinAlphaIn)','std::exp(-thickness / sinAlphaIn)'),
('BUG escape ratio',E,'tmpDouble = sinAlphaIn * (muFluorescence / muIncident);','tmpDouble = sinAlphaIn * (fluorescentEnergy / muIncident);'),
('BUG exc factor',EL,'it->second["factor"] = it->second["rate"] * weight;','it->second["factor"] = it->second["rate"] * energy;'),
('BUG exc rate no mu',EL,'it->second["rate"] = it->second["factor"] *\\\n                        this->getMassAttenuationCoefficients(energy)["photoelectric"];','it->second["rate"] = it->second["factor"] * weight;'),
]
