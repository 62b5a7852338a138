"""Effect knowledge about the standard library members the analysed code (or a refactoring of it) calls.

kind(name) returns one of
  'read'    receiver/arguments are only read
  'insert'  map::operator[]: may default-insert; result points inside the receiver
  'clear'   receiver becomes empty
  'assign'  receiver's whole value is replaced
  'mutate'  receiver is modified in place
  'access'  non-const accessor: result points inside the receiver, receiver not modified
"""
CONTAINERS = {'map', 'multimap', 'set', 'multiset', 'unordered_map', 'unordered_set', 'vector', 'basic_string', 'list',
              'deque', 'pair', 'array', 'tuple', 'optional', 'stack', 'queue', 'initializer_list', 'basic_string_view'}
ITERATORS = {'_Rb_tree_iterator', '_Rb_tree_const_iterator', '__normal_iterator', 'reverse_iterator',
             'move_iterator', 'back_insert_iterator', 'insert_iterator', '_List_iterator', '_List_const_iterator'}
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'lower_bound', 'upper_bound', 'equal_range',
          'at', 'back', 'front', 'data', 'size', 'empty', 'count', 'c_str', 'length', 'get', 'top'}
READ_FREE = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'binary_search', 'equal', 'accumulate', 'count',
             'count_if', 'distance', 'max_element', 'min_element', 'is_sorted', 'any_of', 'all_of', 'none_of', 'for_each',
             'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-', 'operator+',
             'next', 'prev', 'begin', 'end', 'cbegin', 'cend', 'make_pair', 'setfill', 'setw', 'setprecision', 'toupper', 'tolower',
             'isspace', 'isdigit', 'max', 'min', 'abs', 'operator|', 'operator&', 'move', 'forward', 'tie', 'isfinite', 'isnan', 'isinf',
             'fabs', 'exp', 'log', 'sqrt', 'pow', 'sin', 'cos', 'inner_product', 'lexicographical_compare', 'mismatch', 'search',
             'to_string', 'stod', 'stoi', 'stol', 'stof', 'size', 'data', 'empty', 'get', 'upper', 'addressof', '__addressof', 'as_const',
             'make_tuple', 'generic_category', 'iostream_category', 'make_error_code', 'floor', 'ceil', 'lround', 'equal_range',
             'includes', 'partition_point', 'adjacent_find', 'isalpha', 'isupper', 'islower', 'cref', 'ref', 'hash', 'strtod', 'numeric_limits'}
MUT_FREE = {'sort', 'stable_sort', 'fill', 'fill_n', 'copy', 'copy_n', 'copy_if', 'transform', 'reverse', 'unique', 'remove', 'remove_if',
            'replace', 'generate', 'iota', 'swap', 'swap_ranges', 'rotate', 'partial_sort', 'nth_element', 'partial_sum', 'getline',
            'advance', 'iter_swap', 'merge', 'exchange', 'erase', 'erase_if', 'replace_if', 'partition', 'stable_partition', 'adjacent_difference',
            'random_shuffle', 'shuffle', 'push_heap', 'pop_heap', 'make_heap', 'sort_heap', 'inplace_merge', 'copy_backward', 'move_backward'}
# C functions with no memory effect visible to the library
PURE_C = {'acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'sin', 'cos', 'tan', 'sqrt', 'fabs', 'floor', 'ceil', 'fmod', 'isdigit', 'isspace',
          'isupper', 'islower', 'isalpha', 'toupper', 'tolower', 'strtod', 'strtol', 'atof', 'atoi', 'getenv', 'strlen', 'strcmp', 'abs', 'erf', 'erfc',
          'lround', 'round', 'isfinite', 'isnan', 'isinf', 'localeconv', 'strchr', 'ldexp', 'hypot', 'exp2', 'log2', 'tgamma', 'lgamma', 'fmax', 'fmin',
          '__isnan', '__isinf', '__finite', 'log1p', 'expm1', 'cbrt', 'trunc'}


def classify(n):
    """n: model.Name of a callee outside the library. Returns (klass, kind)."""
    scope = n.scope
    base = n.base
    cls = n.cls
    if not n.params and '(' not in n.dem:
        return ('c', 'read' if base in PURE_C or base.startswith('llvm.') else 'unknown')
    if cls in CONTAINERS or cls in ITERATORS:
        isit = cls in ITERATORS
        k = 'iter' if isit else 'cont'
        if base == cls:
            return (k, 'ctor')
        if base == '~' + cls:
            return (k, 'dtor')
        if n.const:
            return (k, 'read')
        if base in ACCESS:
            return (k, 'access')
        if base == 'operator[]':
            return (k, 'insert' if cls in ('map', 'unordered_map') else 'access')
        if base in ('operator*', 'operator->'):
            return (k, 'access')
        if base == 'clear':
            return (k, 'clear')
        if base in ('operator=', 'assign'):
            return (k, 'assign')
        return (k, 'mutate')
    if 'stream' in cls or cls in ('basic_ios', 'basic_filebuf', 'ios_base'):
        if base == cls:
            return ('stream', 'ctor')
        if base.startswith('~'):
            return ('stream', 'dtor')
        return ('stream', 'read' if n.const else 'mutate')
    if base == cls:
        return ('other', 'ctor')
    if base.startswith('~'):
        return ('other', 'dtor')
    if scope in ('std', '__gnu_cxx', 'std::this_thread', 'std::chrono', 'std::__cxx11', 'std::_V2') or scope.startswith('std'):
        if base in ('operator<<', 'operator>>'):
            return ('free', 'streamop')
        if base in MUT_FREE:
            return ('free', 'mutate')
        if base in READ_FREE or n.const:
            return ('free', 'read')
        return ('free', 'unknown')
    return ('other', 'unknown')
