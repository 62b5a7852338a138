from common import *
import sys
SC='''#!/bin/bash
# the bindings built by build.sh must keep the property; exit 0 when they do
D=$(cd "$(dirname "$0")" && pwd); P=$PWD/_build/lib; S=$PWD/fisx_data
T=$(mktemp -d /tmp/demo_XXXXXX); trap 'rm -rf "$T"' EXIT
%s
cd "$T" && PYTHONPATH=$P MALLOC_PERTURB_=165 timeout 120 /opt/fisx/venv/bin/python "$D"/demo.py "$T"/data
r=$?
[ $r -eq 0 ] && exit 0
exit 1
'''
MK='FISX_SRC_DATA=$S python3 "$D"/mkdata.py "$T"/data || exit 3'
def py(id, prop, edits, demo, needs, breaks, data=False):
    files=[('demo.py', demo)]
    if data: files.append(('mkdata.py', open('/verif/tools/demo/mkdata.py').read()))
    mkseed(id, prop, edits, None, needs, breaks, script=SC % (MK if data else ':'), files=files)
only=set(sys.argv[1:])
def go(id,*a,**k):
    if not only or id in only: py(id,*a,**k)
PC='python/cython/'
go('P01a','P01',[(PC+'XRF.pxd','double getGeometricEfficiency(int) except +','double getGeometricEfficiency(int)')],
'''import sys, subprocess
r = subprocess.run([sys.executable, '-c', """
from fisx import XRF, Detector
x = XRF()
x.setSample([['Fe', 7.8, 0.1]])
d = Detector('Si', 2.33, 0.05)
d.setDiameter(1.0)
d.setDistance(2.0)
x.setDetector(d)
try:
    x.getGeometricEfficiency(5)
except Exception:
    print('raised')
"""], capture_output=True, text=True)
sys.exit(0 if r.returncode == 0 and 'raised' in r.stdout else 1)
''', "a layer index outside of the sample", "the failure ends the interpreter")
go('P01b','P01',[(PC+'PyElements.pyx','''            if sys.version < "3.0":
                return sorted(self._getPeakFamilies(toBytes(nameOrVector), energy), key=itemgetter(1))
            else:
                return [(toString(x[0]), x[1]) for x in \\
                        sorted(self._getPeakFamilies(toBytes(nameOrVector), energy), key=itemgetter(1))]
''','''            try:
                families = self._getPeakFamilies(toBytes(nameOrVector), energy)
            except ValueError:
                # the name of a material
                families = []
            return [(toString(x[0]), x[1]) for x in sorted(families, key=itemgetter(1))]
''')],
'''import sys
from fisx import Elements
e = Elements(sys.argv[1])
n = 0
for name in ('Xx', 'Zz9'):
    try:
        e.getPeakFamilies(name, 20.)
    except Exception:
        n += 1
sys.exit(0 if n == 2 else 1)
''', "the name of an element that does not exist", "an unknown name gives an empty list", data=True)
go('P01c','P01',[(PC+'Elements.pxd','std_map[std_string, double] getBindingEnergies(std_string) except +','std_map[std_string, double] getBindingEnergies(std_string)')],
'''import sys, subprocess
r = subprocess.run([sys.executable, '-c', """
import sys
from fisx import Elements
e = Elements(sys.argv[1])
try:
    e.getBindingEnergies('Xx')
except Exception:
    print('raised')
""", sys.argv[1]], capture_output=True, text=True)
sys.exit(0 if r.returncode == 0 and 'raised' in r.stdout else 1)
''', "an unknown element", "the failure ends the interpreter", data=True)
go('P01d','P01',[(PC+'PyXRF.pyx','''    def getGeometricEfficiency(self, int layerIndex = 0):
        return self.thisptr.getGeometricEfficiency(layerIndex)''','''    def getGeometricEfficiency(self, int layerIndex = 0):
        return self._geometricEfficiency(layerIndex)

    cdef double _geometricEfficiency(self, int layerIndex) noexcept:
        return self.thisptr.getGeometricEfficiency(layerIndex)''')],
'''import sys
from fisx import XRF, Detector
x = XRF()
x.setSample([['Fe', 7.8, 0.1]])
d = Detector('Si', 2.33, 0.05)
d.setDiameter(1.0)
d.setDistance(2.0)
x.setDetector(d)
try:
    x.getGeometricEfficiency(5)
except Exception:
    sys.exit(0)
sys.exit(1)
''', "a layer index outside of the sample", "the failure is printed and zero is answered")
go('P02a','P02',[(PC+'PyXRF.pyx','sampleLayerIndicesVector, lineFamiliesVector, secondary, useGeometricEfficiency, useMassFractions, \\','sampleLayerIndicesVector, lineFamiliesVector, secondary, useMassFractions, useGeometricEfficiency, \\')],
'''import sys
from fisx import XRF, Elements, Detector, Beam
import inspect
e = Elements(sys.argv[1])
x = XRF()
x.setSample([['Cr20Fe80', 7.0, 0.01]])
x.setBeam(20.0)
x.setGeometry(45., 45.)
x.setDetector(Detector('Si', 2.33, 0.05))
def rate(geo, mf):
    r = x.getFluorescence(['Cr'], e, 0, 'K', secondary=0, useGeometricEfficiency=geo, useMassFractions=mf)
    k = list(r.keys())[0]
    l = r[k][0]
    return l[sorted(l)[0]]['primary']
a, b = rate(0, 0), rate(0, 1)
f = e.getComposition('Cr20Fe80')['Cr']
print(a, b, f)
sys.exit(0 if abs(b / a - f) < 1e-6 else 1)
''', "one of the two options different from its default", "the two options are exchanged", data=True)
go('P02b','P02',[(PC+'PyXRF.pyx','''        cdef std_vector[Layer] container
        if len(layerList):
            if isinstance(layerList[0], PyLayer):
                for layer in layerList:
                    self._addLayerToLayerVector(layer, container)
            elif len(layerList[0]) == 4:
                for name, density, thickness, funny in layerList:
                    container.push_back(Layer(toBytes(name), density, thickness, funny))
            else:
                for name, density, thickness in layerList:
                    container.push_back(Layer(toBytes(name), density, thickness, 1.0))
        return self.thisptr.setAttenuators(container)''','''        cdef std_vector[Layer] container
        if len(layerList):
            if isinstance(layerList[0], PyLayer):
                for layer in layerList:
                    self._addLayerToLayerVector(layer, container)
            else:
                for item in layerList:
                    container.push_back(Layer(toBytes(item[0]), item[1], item[2], 1.0))
        return self.thisptr.setAttenuators(container)''')],
'''import sys
from fisx import XRF, Elements, Detector
e = Elements(sys.argv[1])
def rate(att):
    x = XRF()
    x.setSample([['Fe', 7.8, 0.01]])
    x.setBeam(20.0)
    x.setGeometry(45., 45.)
    x.setAttenuators(att)
    x.setDetector(Detector('Si', 2.33, 0.05))
    r = x.getFluorescence(['Fe'], e, 0, 'K', secondary=0)
    l = r[list(r)[0]][0]
    return l[sorted(l)[0]]['rate']
a, b, c = rate([['Al', 2.7, 0.05, 1.0]]), rate([['Al', 2.7, 0.05, 0.5]]), rate([])
print(a, b, c)
sys.exit(0 if abs(b - (0.5 * a + 0.5 * c)) < 1e-6 * c else 1)
''', "an attenuator given with four items, the last one not being 1", "the covered fraction of an attenuator is dropped", data=True)
go('P02c','P02',[('python/fisx/FisxCythonTools.py','''else:
    def toBytes(inputArgument, encoding="utf-8"):
        if hasattr(inputArgument, "encode"):
            return inputArgument.encode(encoding)''','''else:
    def toBytes(inputArgument, encoding="utf-8"):
        if hasattr(inputArgument, "encode"):
            return inputArgument.encode("latin-1")''')],
'''import sys
from fisx import TransmissionTable
t = TransmissionTable()
for n in ('plain', 'f\\u00e4lter', '\\u03bcm'):
    try:
        t.setName(n)
        if t.getName() != n:
            sys.exit(1)
    except UnicodeError:
        sys.exit(1)
sys.exit(0)
''', "text outside ASCII", "accented text does not survive the boundary")
go('P02d','P02',[(PC+'PyDetector.pyx','def setDistance(self, double value)','def setDistance(self, float value)')],
'''import sys
from fisx import Detector
d = Detector('Si', 2.33, 0.05)
d.setDistance(0.1)
print(d.getDistance())
sys.exit(0 if d.getDistance() == 0.1 else 1)
''', "a distance that is not a single precision number", "the distance is rounded to single precision")
go('P02e','P02',[(PC+'PyTransmissionTable.pyx','''    def _getTransmissionMultiple(self, std_vector[double] energy):
        return self.thisptr.getTransmission(energy)''','''    def _getTransmissionMultiple(self, energy):
        cdef std_vector[double] ordered = sorted(energy)
        return self.thisptr.getTransmission(ordered)''')],
'''import sys
from fisx import TransmissionTable
t = TransmissionTable()
t.setTransmissionTable({1.0: 0.1, 10.0: 0.5, 20.: 0.9}, 'n')
r = t.getTransmission([20., 1., 10.])
print(r)
sys.exit(0 if [round(x, 6) for x in r] == [0.9, 0.1, 0.5] else 1)
''', "energies not in increasing order", "answers do not match the order of the energies")
go('P03a','P03',[(PC+'PyXRF.pyx','        self.thisptr.readConfigurationFromFile(toBytes(fileName))','''        # do not keep anything from a previous configuration
        del self.thisptr
        self.thisptr = new XRF(toBytes(fileName))''')],
'''import sys, subprocess
r = subprocess.run([sys.executable, '-c', """
from fisx import XRF, Detector
x = XRF()
x.setSample([['Fe', 7.8, 0.1]])
d = Detector('Si', 2.33, 0.05)
d.setDiameter(1.0)
d.setDistance(2.0)
x.setDetector(d)
try:
    x.readConfigurationFromFile('does_not_exist.cfg')
except Exception:
    pass
x.setSample([['Cu', 7.8, 0.1], ['Fe', 7.8, 0.1]])
x.setBeam([20., 30.])
x.getGeometricEfficiency(1)
del x
y = [XRF() for i in range(20)]
print('done')
"""], capture_output=True, text=True)
print(r.stdout, r.stderr)
sys.exit(0 if r.returncode == 0 and 'done' in r.stdout else 1)
''', "a configuration file that cannot be read, the instance being used afterwards", "use after free and double free")
go('P03b','P03',[(PC+'PyEPDL97.pyx','        self.thisptr.setDataDirectory(toBytes(name))','''        del self.thisptr
        self.thisptr = new EPDL97(toBytes(name))''')],
'''import sys, subprocess
r = subprocess.run([sys.executable, '-c', """
import sys
from fisx import EPDL97
x = EPDL97(sys.argv[1])
try:
    x.setDataDirectory('does_not_exist')
except Exception:
    pass
try:
    x.setDataDirectory(sys.argv[1])
    print(x.getBindingEnergies(26)['K'])
except Exception:
    pass
del x
y = [EPDL97(sys.argv[1]) for i in range(3)]
print('done')
""", sys.argv[1]], capture_output=True, text=True)
print(r.stdout, r.stderr)
sys.exit(0 if r.returncode == 0 and 'done' in r.stdout else 1)
''', "a data directory that cannot be read, the instance being used afterwards", "use after free and double free", data=True)
go('P03c','P03',[(PC+'PyTransmissionTable.pyx',"""                             name="",
                             comment=""):
        name = toBytes(name)
        comment = toBytes(comment)
        self.thisptr.setTransmissionTable(energy,
                                          transmission, \\
                                          name,
                                          comment)""","""                             name="",
                             comment=""):
        cdef TransmissionTable *table = new TransmissionTable()
        # a table that is refused leaves the current one as it is
        table.setName(self.thisptr.getName())
        table.setComment(self.thisptr.getComment())
        table.setTransmissionTable(energy,
                                   transmission, \\
                                   toBytes(name),
                                   toBytes(comment))
        del self.thisptr
        self.thisptr = table""")],
"""import sys, resource
from fisx import TransmissionTable
t = TransmissionTable()
n = 20000
e = [1.0 + 0.001 * i for i in range(n)]
v = [0.5] * (n - 1) + [-7.0]
def go(k):
    for i in range(k):
        try:
            t.setTransmissionTableFromLists(e, v, 'x')
        except Exception:
            pass
    for i in range(k * 2000):
        try:
            t.setTransmissionTableFromLists([1.], [1.], 'x', 1.5)
        except TypeError:
            pass
go(5)
a = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
go(60)
b = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
print(b - a)
sys.exit(0 if b - a < 8000 else 1)
""", "tables that are refused, many times", "a table that is refused is never deleted")
go('P04a','P04',[(PC+'PyElements.pyx','if type(nameOrVector) in [type([]), type(())]:','if isinstance(nameOrVector, list):')],
'''import sys
from fisx import Elements
e = Elements(sys.argv[1])
a = e.getPeakFamilies(['Fe', 'Cu'], 20.)
try:
    b = e.getPeakFamilies(('Fe', 'Cu'), 20.)
except Exception as x:
    print(x)
    sys.exit(1)
sys.exit(0 if a == b else 1)
''', "element names given as a tuple", "a tuple of names is not accepted", data=True)
go('P04b','P04',[(PC+'PyTransmissionTable.pyx',"""        comment = toBytes(comment)
        self.thisptr.setComment(comment)""","""        self.thisptr.setComment(comment.encode("utf-8"))""")],
"""import sys
from fisx import TransmissionTable
t = TransmissionTable()
try:
    t.setComment('steel')
    t.setComment(b'iron')
except Exception as x:
    print(repr(x))
    sys.exit(1)
sys.exit(0 if t.getComment() == 'iron' else 1)
""", "a comment given as bytes", "bytes are not accepted")
go('P04c','P04',[(PC+'PyLayer.pyx','        if not hasattr(energies, "__len__"):','        if not isinstance(energies, list):')],
'''import sys
from fisx import Elements, Layer
e = Elements(sys.argv[1])
l = Layer('Fe', 7.8, 0.001)
a = list(l.getTransmission([5., 10.], e))
try:
    b = list(l.getTransmission((5., 10.), e))
except Exception as x:
    print(repr(x))
    sys.exit(1)
sys.exit(0 if a == b else 1)
''', "energies given as a tuple", "a tuple of energies is not accepted", data=True)
go('P04d','P04',[(PC+'PyElements.pyx','''            keyList =list(result.keys())
            for key in keyList:
                result[key] = toStringKeys(result[key])
            return result''','''            keyList = [key for key in result.keys() if len(result[key]) > 2]
            for key in keyList:
                result[key] = toStringKeys(result[key])
            return result''')],
'''import sys
from fisx import Elements
e = Elements(sys.argv[1])
r = e.getEscape({'Si': 1.0}, 10.0)
print(r)
sys.exit(0 if len(r) and all(isinstance(k, str) for v in r.values() for k in v) else 1)
''', "escape peaks", "the keys of the escape peaks are bytes", data=True)
