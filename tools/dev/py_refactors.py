X='python/cython/'
M=[
('loop index', X+'PyXRF.pyx','        for x in elementNames:\n            elementNamesVector.push_back(toBytes(x))','        for i in range(len(elementNames)):\n            elementNamesVector.push_back(toBytes(elementNames[i]))'),
('comprehension', X+'PyXRF.pyx','        for x in elementNames:\n            elementNamesVector.push_back(toBytes(x))','        elementNamesVector = [toBytes(x) for x in elementNames]'),
('helper cdef', X+'PyXRF.pyx','''        cdef std_vector[Layer] container
        if len(layerList):
            if isinstance(layerList[0], PyLayer):
                for layer in layerList:
                    self._addLayerToLayerVector(layer, container)
            elif len(layerList[0]) == 4:
                for name, density, thickness, funny in layerList:
                    container.push_back(Layer(toBytes(name), density, thickness, funny))
            else:
                for name, density, thickness in layerList:
                    container.push_back(Layer(toBytes(name), density, thickness, 1.0))
        self.thisptr.setBeamFilters(container)
''','''        cdef std_vector[Layer] container = self._toLayers(layerList)
        self.thisptr.setBeamFilters(container)

    cdef std_vector[Layer] _toLayers(self, layerList) except *:
        cdef std_vector[Layer] container
        if not layerList:
            return container
        first = layerList[0]
        if isinstance(first, PyLayer):
            for layer in layerList:
                self._addLayerToLayerVector(layer, container)
            return container
        if len(first) == 4:
            for item in layerList:
                container.push_back(Layer(toBytes(item[0]), item[1], item[2], item[3]))
        else:
            for item in layerList:
                name, density, thickness = item
                container.push_back(Layer(toBytes(name), density, thickness, 1.0))
        return container
'''),
('ternary', X+'PyXRF.pyx','''        if scatteringAngle < 0.0:
            self.thisptr.setGeometry(alphaIn, alphaOut, alphaIn + alphaOut)
        else:
            self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)''','''        cdef double angle = scatteringAngle
        if angle < 0.0:
            angle = alphaIn + alphaOut
        self.thisptr.setGeometry(alphaIn, alphaOut, angle)'''),
('result loop', X+'PyElements.pyx','''            keyList =list(result.keys())
            for key in keyList:
                result[key] = toStringKeys(result[key])
            return result''','''            return {key: toStringKeys(value) for key, value in result.items()}'''),
('result loop2', X+'PyElements.pyx','''            keyList =list(result.keys())
            for key in keyList:
                result[key] = toStringKeys(result[key])
            return result''','''            converted = {}
            for key, value in result.items():
                converted[key] = toStringKeys(value)
            return converted'''),
('isinstance list', X+'PyElements.pyx','if type(nameOrVector) in [type([]), type(())]:','if isinstance(nameOrVector, (list, tuple)):'),
('not isinstance text', X+'PyElements.pyx','if type(nameOrVector) in [type([]), type(())]:','if not isinstance(nameOrVector, (str, bytes)):'),
('early return', X+'PyElements.pyx','''        if sys.version < "3.0":
            return self.thisptr.getBindingEnergies(elementName)
        else:
            return toStringKeys(self.thisptr.getBindingEnergies(toBytes(elementName)))''','''        energies = self.thisptr.getBindingEnergies(toBytes(elementName))
        return toStringKeys(energies)'''),
('try', X+'PyElements.pyx','''        if hasattr(name, "keys"):
            return self._getMaterialMass''','''        try:
            isDict = name.keys is not None
        except AttributeError:
            isDict = False
        if isDict:
            return self._getMaterialMass'''),
('fstring', X+'PyXRF.pyx','raise ValueError("Please specify usage as filter or as attenuator")','raise ValueError(f"Please specify usage as filter or as attenuator, not {function}")'),
('docs', X+'PyXRF.pyx','            raise IndexError("Number of elements should match the number of requested peak families")','            raise IndexError("Number of elements (%d) should match the number of requested peak families (%d)" % (len(elementNames), len(lineFamily)))'),
('zip', X+'PyXRF.pyx','''        for x in lineFamily:
            lineFamiliesVector.push_back(toBytes(x))''','''        for i, x in enumerate(lineFamily):
            lineFamiliesVector.push_back(toBytes(x))'''),
('map', X+'PyXRF.pyx','''        for x in lineFamily:
            lineFamiliesVector.push_back(toBytes(x))''','''        lineFamiliesVector = list(map(toBytes, lineFamily))'''),
('helpers', 'python/fisx/FisxCythonTools.py','''        return dict((key.encode(encoding), value) if hasattr(key, "encode") \\
                    else (key, value) for key, value in inputDict.items())

    def toBytesKeysAndValues''','''        result = {}
        for key, value in inputDict.items():
            result[toBytes(key, encoding)] = value
        return result

    def toBytesKeysAndValues'''),
('helpers2', 'python/fisx/FisxCythonTools.py','''        if hasattr(inputArgument, "encode"):
            return inputArgument.encode(encoding)
        else:
            # I do not check for being already a bytes instance
            return inputArgument''','''        try:
            return inputArgument.encode(encoding)
        except AttributeError:
            return inputArgument'''),
('temp ptr', X+'PyDetector.pyx','        self.thisptr.setActiveArea(area)','        cdef Detector *ptr = self.thisptr\n        ptr.setActiveArea(area)'),
('cinit', X+'PyLayer.pyx','self.thisptr = new Layer(toBytes(materialName), density, thickness, funny)','name_ = toBytes(materialName)\n        self.thisptr = new Layer(name_, density, thickness, funny)'),
('lambda', X+'PyElements.pyx','key=itemgetter(1))','key=lambda x: x[1])'),
('assert', X+'PyXRF.pyx','        self.thisptr.setBeamFilters(container)','        assert self.thisptr != NULL\n        self.thisptr.setBeamFilters(container)'),
]
