"""DESIGN.md: how each property is decided (method, oracle, bounds, reach)."""
D = {}
D['C01'] = """Per cache member (`muCache`, `excitationFactorsCache`, `cascadeCache`, `detectorEscapeCache`, `escapePeakCache`) a typestate valid / empty / stale is run over every public
entry point with per-callee transformers. What makes it stale is not written by hand: it is a write to any member in the read set of the functions that fill the cache. A second rule
(cachekey) compares the influence set of the computed answer with the one of the hit path: every input that counts must be in the key, compared by the guard, pinned by it, or applied again after the hit.
Oracle: the code with the cache removed. Bound: member granularity. Tests do not interleave modify and query of one key."""
D['C02'] = """Definite assignment (own dataflow on IR, through reference parameters and stream outcomes, plus clang's -Wsometimes/-Wconditional-uninitialized, whose CFG-based dataflow is the
deciding step for promoted locals), a closed list of ambient sources over every external call, address-dependence rules (ordering of pointers, hashed containers iterated) and writes to static storage."""
D['C03'] = """Write-effect summaries: the write set of each query contains no region reachable from the receiver, a const argument or a global. The oracle is the classification of operations by
const-ness and name. Sound up to the effect table; a hidden `static` or a `map[]` insertion is a write."""
D['C05'] = """From every find/lower_bound/upper_bound the iterator is tracked by property simulation to each dereference or erase; the state must be 'unequal to end() of the same container', or the key present by a dominating fact."""
D['C07'] = """excfx collects, flow-sensitively and through calls, the members that may already have been written at each explicit throw that can leave the operation (caches excepted)."""
D['C08'] = """Escape of regions rooted in locals/temporaries through returns; use after the destructor call of a temporary on some path, also through an iterator variable set to a position inside it."""
D['C09'] = """Must-write dataflow over constructors and the members they call; every scalar member, every constructor including copies."""
D['C10'] = """`fx/dims.py`: every floating value of the IR gets a vector of exponents of keV, g, cm and degree; each operation contributes linear equations (sum, comparison, store: equal; product: added; exp, sin, log: zero), calls
instantiate the callee's solved summary, map keys and members are separate places, scalar locals are split into webs. Anchors (members, keys such as `energy`/`rate`, parameters by name, results) state the documented units; a
contradiction in the solved system is reported with the operation. Oracle: the units in the documentation. Out of reach: scale factors, and the raw tables, whose columns of unlike units live in one container and are interpolated in logarithms. Tests use density 1 or one geometry, where a missing density changes nothing."""
D['C11'] = """`ident` propagates exact copies: a getter returns one member unmodified; each setter leaves exactly its argument there on every normal path (map keys, beam records and optional arguments included);
what is stored into a beam record has to be a copy of the argument (element) or a constant, not computed; a layer with its own density and thickness keeps them when given a material (intervals);
write frames: no setter writes a member that another getter shows, except a table of derived quantities."""
D['C12'] = """Over-approximate influence, so 'X cannot influence Y' is definite. Arguments: all named parameters of public operations, with the extra rule that a number that is not a threshold has to enter values, not
only comparisons. Members: a table of (query, members) from the documentation. Argument selection: a forwarded parameter has to go to the parameter of the same role."""
D['C13'] = """222 scenarios (fx/rules/c13_validation.py) give intervals to arguments, sizes, list elements, keys and values of maps (bad one at each position of up to three); for an invalid one no normal return may be abstractly reachable (sound
for refusal), for a valid one no throw may be unavoidable/reachable under the scenario's interval (limits included)."""
D['C15'] = """For every natural loop the candidates for a measure are collected (`fx/loops.py`): counters in registers or memory whose net change over all paths of a turn has one sign, iterators, successful reads, containers
that shrink, and intervals that are halved; one of them has to be tested on every turn by an exit against a limit the loop does not move. For every call in a cycle of the call graph: a decreasing tested number, a proper part of
the text, or names in progress that are remembered and refused. Orderings given to sort must be strict."""
D['C16'] = """Every stream conversion of a floating value must be dominated by an imbue of the classic locale; C conversions only next to a probe of the separator whose two outcomes are evaluated from the source and must select the replacement exactly when needed."""
D['C18'] = """A lint over typed IR (no single precision, truncation, rounding, integer division or sum, integer containers), literals from the text (constants of pi with few digits), and a taint analysis of number text with fewer than 17 digits."""
D['C20'] = """Type rule over all members (no pointer, reference, iterator or shared ownership), must-write plus influence over every copy operation (each member from the same member of the source on every path but
self-assignment), no writes to storage shared by all objects other than once-only initialisation, no writable view among public results."""
D['C22'] = """Type rule on throw sites, path rule on handlers, typestate of file streams across calls, use rule on conversion results."""
D['P01'] = """Cython's front end gives every declared C++ function with its exception clause; it is matched by full type with the C++ functions of the library model, whose may-throw sets come from the LLVM IR
(explicit throws and throwing library calls, interprocedural). A function that may throw has to be declared `except +`. Handlers around library calls must re-raise; internal C functions must propagate."""
D['P02'] = """Defaults of numeric options are compared with the documented values. `fx/cy.py` interprets every wrapper method abstractly on Cython's typed tree (private methods inlined, every path): each value carries its origins (argument, element of an argument, answer of a library
call) and the transformations applied. Obligations per path: one call of the library function of the same name (a small alias table), each argument whole at the parameter of its own name, constants only from a table,
answer returned with the shape of the declared C++ type. The declarations themselves must have exactly the C++ parameter and result types (a narrower number type would convert silently)."""
D['P03'] = """Same interpretation with the identity of every `new` object: live set and current pointer per path, also at exits by exception (any call declared `except +` can raise). Arguments that are dereferenced as library
objects must refuse None (`not None` or an explicit test)."""
D['P04'] = """Same interpretation with concrete kinds of values (str, bytes, float, int, list, tuple, array, dict, records): for every argument the kinds follow from the C++ type it ends up in and from a table of the
documented alternatives; a path that ends in a conversion failure of Python is reported, as is text answered as bytes and text taken apart into characters."""
D['C19'] = """`fx/records.py`, `fx/rules/c19_records.py`: a record is created by a plain store through `container[key][field]`, by assignment of a local record or of an answer of another function, or by a helper that fills a record it is given. From each creation
the check searches a path through the flow graph (normal edges only; edges on which the container is empty are skipped) that reaches the return without a store of a required field, before or after the creation in the same round of the loop. A loop stepping an
iterator through the container that stores the field in every round covers all records. Helpers are summarised: which fields they store on every path, or which fields the records they make may lack; locals are analysed up to the point where they are handed on.
Clearing a record or erasing a field starts the obligation again. The fields of the answers used as sources are the ones this check establishes for them, so the argument is closed. Not seen: two kinds of record made in one container where the store
for one hides the lack in the other. Under 2 s on top of the model."""
D['C23'] = """`fx/rules/c23_processes.py`: every store of a number or vector into a record entry is identified by the literal key of its cell (map `operator[]`, iterator to a found key, a vector position read from a label-to-index map, or the positional
tables of setMassAttenuationCoefficients). Its value is sliced backwards through sums, products, interpolation calls, local numbers and local vectors (with kills by whole assignments and fills) to the entries it is read from. A loop over
all keys is analysed once per literal key with the comparisons of the key decided, so `if (key == "coherent" || ...)` guards become key sets. Rules: own process only; photoelectric = ten shells or total minus scattering; total = all four, once, with
the right sign; sibling processes accumulate alike; an entry the total reads must be filled where its siblings are; tables are passed in their own position; attenuation uses only the total (the coherent entry may scale a rate). An unidentified
source makes the necessity rules silent, so helpers and loops over key arrays are accepted. About 2 s on top of the model."""
