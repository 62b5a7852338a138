"""Properties: text for properties.jsonl, MANIFEST.json."""


def prop(id, title, statement, over, qtext, why, files, mech, technique='', level_note='', state=None, observe=None, reason=''):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a,
                technique=technique, level_note=level_note, reason=reason)


P = []
NA = []


def claim(*a, **k):
    P.append(prop(*a, **k))


def na(*a, **k):
    NA.append(prop(*a, **k))


claim('C01', "Cached results never outlive the data they were computed from",
      "Whatever sequence of setters, file loads and queries is issued on an element, an element library or a detector, and whichever caches are enabled, "
      "a query returns what it would return, for the same arguments, with every cache empty. Any operation that changes binding energies, transitions, shell constants, mass attenuation "
      "coefficients, materials, the set of elements or escape-peak parameters also drops every cached result that was computed from them, on normal and on error exits.",
      ['histories', 'inputs'], "every sequence of public calls on an object, caches on or off",
      "A test fixes one order of calls; a stale cache needs fill, then modify, then query of the same key. Existing tests never modify an element after a query.",
      ['src/fisx_element.cpp', 'src/fisx_elements.cpp', 'src/fisx_detector.cpp'],
      [("cache clearing in the setters", "Element::clearCache, Element::emptyCascadeCache, Elements::clearEscapeCache, Detector::clearEscapePeakCache")],
      "interprocedural typestate (empty/valid/stale) of each cache member; dependency sets from read effects; key/guard completeness by value-influence comparison of hit and miss paths",
      "Every public entry point of the three caching classes, both exit kinds, all paths of the CFG; member granularity: two different keys of one member are not told apart.",
      state=[("muCache, excitationFactorsCache, cascadeCache", "results per energy / shell", "Element"), ("detectorEscapeCache", "escape peaks per energy", "Elements"),
             ("escapePeakCache", "escape peaks per label and energy", "Detector")])

claim('C02', "Outcomes depend on nothing but the inputs",
      "An operation repeated with the same arguments on objects in the same state, reading the same files, has the same outcome. No outcome depends on a variable that was never "
      "assigned on the path taken, on the clock, on random numbers, on the process, thread, host or working directory, on an environment variable other than the documented data directory, "
      "on where objects lie in memory, or on calls made earlier to other objects.",
      ['inputs', 'programs'], "every operation, every path, every earlier use of the library in the process",
      "An undetermined local usually holds the value a previous call left there, so a test sees plausible, repeatable numbers; hidden state needs an unrelated call in between.",
      ['src/*.cpp'], [("locals assigned on every path", "all functions"), ("the data directory variable", "Elements::defaultDataDir")],
      "interprocedural definite-assignment dataflow, clang's uninitialised-variable dataflow, and effect rules on ambient sources, addresses and static storage",
      "All functions and external calls of the library; members are C09's subject; contents of standard containers are taken as initialised.")

claim('C03', "Queries leave the object, their arguments and global state unchanged",
      "A query (any const operation, any get/is/has/find/calculate/extract/convert operation, any static or free function) changes nothing that a later call can "
      "observe: not the object, not an argument received by const reference, not any global or function-static variable. So the answer depends only on the object "
      "and the arguments, never on earlier queries or on what other objects were asked, and concurrent queries on one object do not race.",
      ['histories', 'inputs', 'schedules'], "every query with every argument, in every order and from every thread",
      "Tests call a query once on a fresh object, so an entry inserted by a lookup or a remembered index of a previous call goes unnoticed.",
      ['src/*.cpp', 'src/*.h'], [("const methods, local results", "all classes")],
      "interprocedural field-sensitive write-effect analysis over LLVM IR",
      "All functions of the library; the per-label escape-peak cache of the detector is accepted because it is part of the documented contract; console output is not state.")

claim('C05', "A failed lookup is never dereferenced",
      "For every key, name, label or energy a caller can pass, the result of a search in a container is used only when the search succeeded; "
      "an absent key leads to a documented exception or default value, never to reading past the end of the container.",
      ['inputs', 'configurations'], "every key, every element with any subset of shells, every library content",
      "Tests only ask for keys that exist; the failing input is the absent one, and reading end() often appears to work.",
      ['src/*.cpp'], [("comparison with end()", "every find/lower_bound/upper_bound call site")],
      "iterator typestate with property simulation over the CFG; presence facts from dominating predicates",
      "Every lookup call site of the library and every dereference it reaches. Keys that a record always has (rate, energy, factor, omega) are taken from the producers' contract.")

claim('C08', "No result refers to storage that has been destroyed",
      "A reference or pointer returned by the library designates storage owned by the receiver or an argument, never a temporary or local of the callee, and "
      "inside the library no pointer into a temporary is used after the temporary is gone.",
      ['inputs', 'programs'], "every accessor, every path through every function",
      "Reading a dead temporary frequently yields the right value by luck; only particular sizes (heap-allocated strings or maps) expose it.",
      ['src/*.cpp', 'src/*.h'], [("accessors return members", "all classes")],
      "points-to regions: escape of locals through returns; use-after-destroy dataflow on temporaries",
      "All pointer/reference-returning functions and all destructor calls of locals and temporaries in the library's IR.")

claim('C09', "Every object starts in a fully determined state",
      "After any constructor finishes, every number and flag of the object has a value determined by the constructor's arguments, so two objects built alike behave alike.",
      ['inputs', 'configurations'], "every constructor of every class, on every path",
      "Uninitialised storage is usually zero in a fresh test process; the dependence shows only with recycled memory.",
      ['src/*.h', 'src/*.cpp'], [("constructor bodies and initialiser lists", "all classes")],
      "must-write dataflow over constructors and the member functions they call",
      "All constructors, including copy constructors; scalar members (containers and strings initialise themselves).")

claim('C07', "A rejected modification leaves the object as it was",
      "When an operation that modifies an object from in-memory data (set, add, append, remove, initialize, clear...) ends in an exception because it rejects its input, "
      "every member of the object has the value it had before the call. Dropping cached results is not a change, and operations that read files are not covered.",
      ['inputs', 'histories'], "every public modifier of every class, every input it rejects, whichever check rejects it",
      "Tests check that bad input raises, not that the object is usable afterwards; the partial state needs an input whose first part is valid and whose later part is not.",
      ['src/*.cpp'], [("checks precede assignments", "setters of Shell, Element, Elements, Material, Layer, Detector, Beam, XRFConfig, XRF, TransmissionTable")],
      "flow-sensitive interprocedural write effects split by exit kind",
      "All public non-const modifiers that read no file; explicit throws of the library and of checked library calls; allocation failure is not modelled.")

claim('C12', "Every argument and every configured quantity counts",
      "Each argument of a public operation can influence its outcome, and each configured quantity (layer density, thickness and funny factor, materials, angles, beam energies "
      "and weights, filters, attenuators and user transmission tables, detector geometry, attenuation tables, binding energies, transition ratios and shell constants) can influence "
      "every answer documented to depend on it. A numeric argument that is not a threshold enters the computed values instead of being merely compared, and an operation that "
      "forwards its arguments to another gives each one to the parameter of the same role.",
      ['inputs', 'configurations'], "every public operation, every argument, every configuration",
      "Tests use default options and symmetric geometries (90 or 45 degrees, factor 1), for which an ignored or exchanged argument gives the same numbers.",
      ['src/*.cpp'], [("argument use", "all public methods"), ("configuration use", "Layer::getTransmission, Detector::getEscape, XRF::getMultilayerFluorescence, Element and Elements queries")],
      "interprocedural may-influence (data and control dependence) analysis over memory regions; argument-selection lint",
      "All named parameters of public methods and a table of (query, member) pairs taken from the documentation; influence is over-approximated, so it shows the absence of a dependence, not its form.")

claim('C10', "Lengths, densities, energies and angles combine only as their units allow",
      "In every calculation of attenuation, transmission, geometric efficiency, excitation, escape and enhancement, lengths (cm), densities (g/cm3), energies (keV), "
      "mass attenuation coefficients (cm2/g) and angles (degrees, converted to radians) are added and compared only with quantities of the same dimension, exponentials and sines receive plain numbers, "
      "and every parameter, member and result carries its documented unit. So no density, thickness, coefficient or angle conversion is missing, exchanged or applied twice; plain numeric factors are outside this property.",
      ['inputs'], "all samples, layers, detectors, energies and angles",
      "With density 1, one layer or 90 degrees the wrong formula gives the right number; a test would need the right value for a general geometry.",
      ['src/fisx_multilayer.cpp', 'src/fisx_xrf.cpp', 'src/fisx_layer.cpp', 'src/fisx_math.cpp', 'src/fisx_elements.cpp', 'src/fisx_element.cpp', 'src/fisx_detector.cpp'],
      [("the fundamental parameters sum", "XRF::getMultilayerFluorescence"), ("transmissions", "Layer::getTransmission, XRF::getLayerTransmission"), ("enhancement integrals", "Math::deBoer*"), ("escape", "Elements::updateEscapeCache, getEscape")],
      "dimensional analysis: a linear system over unit exponents per function with polymorphic summaries, solved over the whole program",
      "All functions of the library except number parsing; named anchors give units to members, map keys and parameters. Containers holding unlike things (the raw tables, interpolated log-log) and scale factors are not typed.")

claim('C23', "Each process keeps its own coefficient and the total adds them all once",
      "In every table or answer of mass attenuation coefficients, of one element, of a mixture, stored, tabulated or interpolated, the coherent, compton and pair entries are computed from data of the same process only, and tables are handed on "
      "as the process they hold. The photoelectric entry is a photoelectric value, the sum of all ten shell entries, or the total less the scattering; the total is the sum of coherent, compton, pair and photoelectric, each counted once with its sign and each accumulated over all constituents. "
      "Attenuation of beams and of fluorescence in layers, detectors and escape calculations uses the total.",
      ['inputs'], "every element, mixture, energy and table, whichever processes are negligible in it",
      "Pair production is zero at the energies tests use and coherent and compton are small next to photoelectric, so a missing, doubled or exchanged process stays within tolerances.",
      ['src/fisx_element.cpp', 'src/fisx_elements.cpp', 'src/fisx_epdl97.cpp', 'src/fisx_layer.cpp', 'src/fisx_xrf.cpp', 'src/fisx_multilayer.cpp'],
      [("tables", "Element::setMassAttenuationCoefficients, Elements::setMassAttenuationCoefficients, EPDL97::loadCrossSections"), ("answers", "getMassAttenuationCoefficients of Element, Elements, EPDL97"), ("uses", "Layer::getTransmission, XRF::getLayerTransmission, Elements::getEscape, XRF::getMultilayerFluorescence")],
      "backward slicing of record entries by literal key, with loops over keys specialised to each key",
      "Every store to an entry of a mass attenuation record in every function; entries reached through keys the analysis cannot identify are not judged; interpolation weights are not checked.")

claim('C19', "Every answered record carries all its fields",
      "Every line answered for a vacancy distribution or an excitation energy carries its rate and energy (and its factor, for excitation factors), every escape peak its rate and energy, and every line and escape peak of a calculated fluorescence its rate, energy, primary and secondary contribution. "
      "This holds on every path that adds or replaces a record: cached and calculated answers, lines from shells without binding energy, zero weights, peaks below or above any threshold.",
      ['inputs', 'histories'], "every element, distribution, energy, weight, composition and cache state, every path that creates a record",
      "Callers look the fields up by name and use them unchecked; tests read a few common lines, a record left incomplete on a rare path reads beyond a table or as zero.",
      ['src/fisx_element.cpp', 'src/fisx_elements.cpp', 'src/fisx_multilayer.cpp', 'src/fisx_xrf.cpp'],
      [("lines", "Element::getXRayLinesFromVacancyDistribution, Element::getPhotoelectricExcitationFactors"), ("escape", "Elements::getEscape"), ("fluorescence", "XRF::getMultilayerFluorescence")],
      "interprocedural path analysis of record creations and field stores",
      "A record is told apart from others of the same container only by its container, so a field stored for one record counts for another that is created on the same path; a field read into existence by lookup counts as absent only when the record is made by a store or an assignment.")

claim('C11', "What was set is what is read back",
      "After a setter, constructor or initialiser accepts a value, the getter of the same quantity returns exactly that value, whatever it is and however the quantity was set before, "
      "and the other quantities that can be read are unchanged, except for the documented derived ones. Getters and per-key accessors return the stored quantity "
      "of that name unmodified, and each member of a beam record (energy, weight, characteristic flag, divergency) is filled from the argument of the same role.",
      ['inputs', 'histories'], "every setter/getter pair of every class, every value, every previous state",
      "Tests set a few convenient values once and read back mostly the same quantity, so rounding, exchanged quantities and side effects on others go unnoticed.",
      ['src/*.h', 'src/*.cpp'], [("setters and getters", "Element, Layer, Material, Detector, TransmissionTable, XRFConfig, XRF, Beam, Elements, Shell")],
      "exact interprocedural value flow (copy propagation over member paths) of setters and getters; write-effect frames",
      "A table of setter/getter pairs; values that are documented to be derived (default scattering angle, normalised weights, composition fractions, ratios) are excluded from exactness.")

claim('C13', "Invalid physical input is refused, valid input accepted",
      "Every operation that takes a density, thickness, detector area, diameter or distance, atomic number or mass, mass fraction, transmission, attenuation coefficient for the absorption integrals, "
      "layer index or line family refuses with an exception values outside the physical domain (negative, or zero where the quantity must be positive), lists whose lengths disagree, energy lists "
      "out of order where an order is required, and names of elements, materials or shells that are not there, wherever in a list the bad value is. Values inside the domain, limits included, are not refused.",
      ['inputs'], "every value of each quantity, every position in a list",
      "Tests try one or two bad values per class; the hole is a limit value, a bad value late in a list, or one of several entry points for the same quantity.",
      ['src/*.cpp'], [("range and consistency checks", "setters and constructors of Layer, Detector, Material, Element, Shell, TransmissionTable, Beam, XRFConfig, XRF, EPDL97; Math")],
      "interval abstract interpretation with per-iteration partitioning of loops over short lists",
      "A table of 217 scenarios (ranges of scalar arguments, list sizes, list elements up to 3 with the bad one at each position) over all public entry points that document a domain; NaN is not modelled.")

claim('C15', "Every operation comes to an end",
      "Whatever data, texts, files and objects it is given, every operation ends: each loop moves on every turn towards the limit that ends it (no turn leaves the position where it was, no limit moves away, "
      "no counter wraps around, no file is read past a failure), and everything that calls itself does so on something smaller. "
      "A material defined, directly or through other materials, in terms of itself is refused with an exception instead of being followed forever.",
      ['inputs'], "every loop and every recursive call, every input",
      "Tests run on well-formed data; an operation that never ends does so only for the one value, text or file that keeps a loop in place.",
      ['src/*.cpp'], [("loops", "all units"), ("bisection", "EPDL97::getInterpolationIndices"), ("recursion", "Elements::getComposition, Elements::parseFormula, Math::En"),
                      ("orderings given to sort", "Elements, EPDL97, XRFConfig")],
      "ranking-function (loop measure) analysis over the IR: counters, iterators, reads, bisection; guard rule on recursion cycles of the call graph; strictness rule on orderings",
      "All natural loops, recursive calls and orderings of the library. Three measures (two loops of the scan-file reader, formula expansion) are table entries with a written reason. "
      "An infinite value in floating-point counters does not occur: there are none.")

claim('C16', "Numbers in text mean the same under every locale",
      "Numbers in data files, configuration files and chemical formulae are read, and numbers put into text that is read again are written, with the point as decimal separator and without digit "
      "grouping, whatever locale the host program has selected globally for C or C++.",
      ['environments', 'inputs'], "every place where the library converts between text and numbers",
      "Tests run under the locale of the build machine, where the point is the decimal separator.",
      ['src/fisx_simplespecfile.cpp', 'src/fisx_simpleini.h', 'src/fisx_elements.cpp'],
      [("probe of the decimal separator", "SimpleSpecfile::getScanData"), ("streams with the classic locale", "SimpleIni, Elements::stringToDouble, Elements::toString, Elements::parseFormula")],
      "dominance rule on stream locales; constant evaluation of the separator probe and pruned reachability of the copying code",
      "All floating-point stream conversions and all conversions that follow the C locale. Text written to the console or to the caller's stream is not covered.")

claim('C18', "Physical quantities keep double precision",
      "Every energy, angle, length, density, weight, coefficient, yield and intensity is carried in double precision from input to result: it is never stored in single precision, rounded, truncated to "
      "an integer, obtained with an integer division, summed as an integer, computed with a shortened mathematical constant, or passed on through text with fewer digits than a double has. "
      "The characteristic flag of a beam and texts of messages are the only exceptions.",
      ['inputs'], "every value, every instruction that handles one",
      "Tests compare with tolerances of about one per mille and use round numbers, so a lost digit does not show.",
      ['src/*.cpp', 'src/*.h'], [("all floating point code", "all units")],
      "type and conversion lint over the typed IR; taint analysis of number text",
      "All instructions, external calls, literals and number-to-text conversions of the library.")

claim('C20', "Library objects are independent values",
      "A copy of any library object is complete and independent: it holds every property of its source, and later changes to one of the two never show in the other. "
      "No object refers to storage of another one, no state is shared by all objects, and no answer gives writable access to the inside of an object.",
      ['histories'], "every member of every class, every copy operation, every answer",
      "Tests hardly copy objects; a shared or forgotten member shows only when a copy is used after one of the two was changed.",
      ['src/*.h', 'src/*.cpp'], [("members", "all classes"), ("copy operations", "implicit, all classes")],
      "type rule over the members (debug information), must-write and value-influence dataflow over copy operations, write-effect rule on shared storage",
      "All members, copy operations (also the implicit ones) and results of public operations. Completeness is decided per member, not per element of a container.")

claim('C22', "Failures are reported as standard exceptions",
      "Whatever goes wrong inside the library reaches the caller as an exception derived from std::exception: nothing ends the process, no caught failure is dropped, and a file that cannot be opened "
      "is reported instead of being treated as an empty one. The outcome of every conversion from text to a number is examined.",
      ['inputs', 'faults'], "every throw site, every handler, every file, every conversion",
      "Tests provide the files and check one or two error cases; a dropped failure looks like an empty result.",
      ['src/*.cpp', 'src/*.h'], [("throw sites", "all units"), ("file streams", "SimpleIni::readFileName, SimpleSpecfile"), ("handlers", "Element::fillCache, Element::updateCache, Element::fillCascadeCache")],
      "exception type rule, path rule on handlers, typestate of file streams across calls, use rule on conversion results",
      "All throw sites, handlers, file streams and conversions of the C++ library. Failures while reading an opened file and allocation failures are not modelled.")

claim('P01', "Every failure of the library reaches Python as an exception",
      "Whatever fails inside the library during a call made from Python (bad input, missing file, unknown name...) is raised in Python as an exception: it never ends the interpreter, "
      "and no wrapper swallows or merely prints it.",
      ['inputs', 'faults'], "every library function the Python classes can call, every failure of it",
      "Tests provoke a few failures; a single declaration without exception translation ends the process only when exactly that function fails.",
      ['python/cython/*.pxd', 'python/cython/*.pyx'], [("'except +' on the declarations", "*.pxd"), ("handlers of the wrappers", "*.pyx")],
      "may-throw analysis of the C++ functions joined with the exception clauses of Cython's type-checked declarations; handler lint on the typed tree",
      "All 168 declarations of library functions, all internal C functions and handlers of the wrappers. Allocation failure is not modelled.")

claim('P02', "Arguments and answers cross the Python boundary whole and unchanged",
      "Every public method of the Python classes hands each of its arguments, complete and unmodified (text encoded as UTF-8), to the library operation of the same name in the role of that argument, "
      "exactly once per call, and returns the library's complete answer with the structure the library gave it. Options left out stand for the library's documented defaults; no argument is dropped, "
      "exchanged, shortened, rounded, reordered or replaced by a constant on any path.",
      ['inputs', 'configurations'], "every public method of every Python class, every combination of argument kinds that selects a path through it",
      "Tests call few wrappers, mostly with default options, equal angles and single items, for which exchanged or dropped arguments make no difference.",
      ['python/cython/*.pyx', 'python/cython/*.pxd', 'python/fisx/FisxCythonTools.py'], [("calls through the library pointer", "*.pyx"), ("conversion helpers", "FisxCythonTools.py")],
      "abstract interpretation (origin and transformation of every value) of Cython's typed syntax tree; declaration/definition type matching",
      "148 methods and constructors, every path; contents of containers are followed element-wise, not index by index; the helper functions are analysed once per kind of argument.")

claim('P03', "Each Python object owns exactly one live library object",
      "From construction to destruction every Python object refers to one live library object of its own: it is created once, never used after deletion, never lost without deletion, never shared or "
      "deleted twice, also when creation or initialisation fails half-way. None in place of a library object is refused with an exception instead of being dereferenced.",
      ['histories', 'inputs', 'faults'], "every method and constructor, every path including those left by an exception",
      "Tests do not make an initialisation fail half-way or pass None; use after deletion often goes unnoticed.",
      ['python/cython/*.pyx'], [("thisptr", "all classes"), ("__cinit__, __dealloc__", "all classes"), ("initialisation like PyMca", "PyElements.initializeAsPyMca")],
      "ownership typestate of the library pointer and None-ness of the arguments over all paths of Cython's typed syntax tree",
      "13 classes, 161 methods, normal and exceptional paths. Python's own reference counting is trusted.")

claim('P04', "Text as str or bytes, numbers in any sequence, are equally accepted",
      "Every method of the Python classes that takes a name, label, file name or composition accepts it as str and as bytes (also inside lists, tuples and as dictionary keys); every method that takes several "
      "numbers accepts them as list, tuple or array, and those documented to take one or several accept both. Text in answers is str (the low-level element, shell and configuration-section classes answer bytes).",
      ['inputs', 'configurations'], "every argument of every method, every kind of value it takes",
      "Tests use one kind per method (mostly str and list); the failing call is the one with another kind.",
      ['python/cython/*.pyx', 'python/fisx/FisxCythonTools.py'], [("toBytes, toString and their variants", "FisxCythonTools.py"), ("dispatch on the kind of an argument", "*.pyx")],
      "abstract interpretation over kinds of Python values on Cython's typed syntax tree",
      "528 cases: each argument with each kind, the other arguments unknown; values themselves are not modelled.")


# ---- properties this family of technique cannot decide here

na('N01', "Interpolated coefficients pass through the tables and stay between neighbours",
   "The attenuation coefficient answered at a tabulated energy is the tabulated value, between two tabulated energies it lies between their values, and just below and above an absorption edge it belongs to the side of the edge the energy is on.",
   ['inputs'], "every table and energy", "Tests compare a few energies with tolerances; edges, repeated energies and table ends have branches of their own.",
   ['src/fisx_element.cpp', 'src/fisx_epdl97.cpp'], [("log-log interpolation", "Element::getMassAttenuationCoefficients, EPDL97::getMassAttenuationCoefficients")],
   reason="It bounds the value of exp(A log y0 + B log y1) with weights computed from run-time table entries. No sound static argument in reach bounds those numbers: units (C10), processes (C23) and search positions (C05) of the interpolation are decided, its values are not.")

na('N02', "Absorption integrals agree with their analytic values",
   "The integrals for enhancement inside a layer and between layers agree with their analytic expressions to the documented accuracy for all positive coefficients, thicknesses and angles, thin and thick limits included.",
   ['inputs'], "every positive coefficient, density and thickness", "Tests evaluate a handful of arguments against tabulated values.",
   ['src/fisx_math.cpp'], [("exponential integral, de Boer integrals", "Math::E1, Math::En, Math::deBoerL0, Math::deBoerX, Math::deBoerV")],
   reason="Accuracy of series and continued fractions in floating point is a numerical statement about transcendental functions; there is no static analysis of the source that decides it without executing it or handing it to a solver.")

na('N03', "Splitting a layer in two changes no result",
   "The fluorescence, transmission and enhancement of a sample are the same when a layer is replaced by two layers of the same material whose thicknesses add up to the original one.",
   ['inputs', 'configurations'], "every sample, beam and split", "A relation between two runs; tests check single configurations.",
   ['src/fisx_multilayer.cpp', 'src/fisx_layer.cpp'], [("multilayer calculation", "XRF::getMultilayerFluorescence")],
   reason="A numerical identity between two executions that involves integrals over depth; it follows from the formulas only by algebra on run-time values, which dataflow and type arguments cannot express.")

na('N04', "Branching ratios and yields of a shell are a partition",
   "For every shell the fluorescence ratios add up to one, and the fluorescence yield, the Auger and the Coster-Kronig fractions add up to one and are never negative, whatever transition data were set.",
   ['inputs'], "every set of transition data", "Tests look at the shells of a few elements of the delivered data.",
   ['src/fisx_shell.cpp'], [("ratios", "Shell::_updateFluorescenceRatios, Shell::_updateNonradiativeRatios")],
   reason="The sums depend on the data that were set (which may hold a TOTAL entry, zeros or inconsistent constants); whether they add up to one is a fact about run-time numbers in floating point, not about the program text.")

na('N05', "Attenuation never amplifies and grows with thickness",
   "Every calculated transmission of layers, filters and attenuators lies between zero and one and does not increase when a thickness or density increases; escape fractions add up to less than one.",
   ['inputs', 'configurations'], "every material, energy, angle, thickness and funny factor", "Tests use a few materials at ordinary energies.",
   ['src/fisx_layer.cpp', 'src/fisx_xrf.cpp', 'src/fisx_elements.cpp'], [("exponential attenuation", "Layer::getTransmission, XRF::getLayerTransmission, Elements::getEscape")],
   reason="It needs the sign and range of coefficients read from files and of user supplied tables and funny factors, which the library deliberately does not restrict to the physical range, so no static bound on the result exists; units and completeness of the exponents are covered by C10 and C12.")
