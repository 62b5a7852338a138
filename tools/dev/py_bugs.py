X='python/cython/'
M=[
('swap geometry', X+'PyXRF.pyx','self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)','self.thisptr.setGeometry(alphaOut, alphaIn, scatteringAngle)'),
('swap flags', X+'PyXRF.pyx','sampleLayerIndicesVector, lineFamiliesVector, secondary, useGeometricEfficiency, useMassFractions','sampleLayerIndicesVector, lineFamiliesVector, secondary, useMassFractions, useGeometricEfficiency'),
('drop overwriting beam', X+'PyXRF.pyx','secondaryCalculationLimit, deref(overwritingBeam.thisptr))\n\n        return','secondaryCalculationLimit, beamInstance)\n\n        return'),
('funny dropped', X+'PyXRF.pyx','container.push_back(Layer(toBytes(name), density, thickness, funny))','container.push_back(Layer(toBytes(name), density, thickness, 1.0))'),
('funny 0', X+'PyXRF.pyx','container.push_back(Layer(toBytes(name), density, thickness, 1.0))','container.push_back(Layer(toBytes(name), density, thickness, 0.0))'),
('density/thickness', X+'PyXRF.pyx','container.push_back(Layer(toBytes(name), density, thickness, 1.0))','container.push_back(Layer(toBytes(name), thickness, density, 1.0))'),
('attenuators->filters', X+'PyXRF.pyx','return self.thisptr.setAttenuators(container)','return self.thisptr.setBeamFilters(container)'),
('user attenuators->filters', X+'PyXRF.pyx','if function == "filter":','if function != "filter":'),
('pxd int', X+'XRF.pxd','void setGeometry(double, double, double)','void setGeometry(double, int, double)'),
('empty list skips', X+'PyXRF.pyx','        self.thisptr.setBeamFilters(container)','            self.thisptr.setBeamFilters(container)'),
('escape flag', X+'PyDetector.pyx','label_, 0))','label_, 1))'),
('latin1', 'python/fisx/FisxCythonTools.py','    def toBytes(inputArgument, encoding="utf-8"):\n        if hasattr','    def toBytes(inputArgument, encoding="latin-1"):\n        if hasattr'),
('except+', X+'Elements.pxd','void setMassAttenuationCoefficientsFile(std_string) except +','void setMassAttenuationCoefficientsFile(std_string)'),
('tolist only', X+'PyElements.pyx','if type(nameOrVector) in [type([]), type(())]:','if type(nameOrVector) == type([]):'),
('no tobytes', X+'PyMaterial.pyx','toBytes(','(',),
('comment name swap', X+'PyTransmissionTable.pyx','''        self.thisptr.setTransmissionTable(energy,
                                          transmission, \\
                                          name,
                                          comment)''','''        self.thisptr.setTransmissionTable(energy,
                                          transmission, \\
                                          comment,
                                          name)'''),
('round', X+'PyDetector.pyx','self.thisptr.setActiveArea(area)','self.thisptr.setActiveArea(round(area, 6))'),
('none ok', X+'PyXRF.pyx','def setDetector(self, PyDetector detector not None)','def setDetector(self, PyDetector detector)'),
('weights first', X+'PyXRF.pyx','self.thisptr.setUserBeamFilters(container)','self.thisptr.setUserBeamFilters(container[:1])'),
('energy only first', X+'PyElements.pyx','            return self._getMultipleMassAttenuationCoefficients(toBytes(name), energy)\n        else','            return self._getMultipleMassAttenuationCoefficients(toBytes(name), energy[:1])\n        else'),
]
