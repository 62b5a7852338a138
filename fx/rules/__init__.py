REGISTRY = {
    'C01': 'c01_cache',
    'C02': 'c02_determinism',
    'C15': 'c15_termination',
    'C16': 'c16_locale',
    'C18': 'c18_precision',
    'C20': 'c20_values',
    'C22': 'c22_failures',
    'C03': 'c03_pure_queries',
    'C05': 'c05_lookups',
    'C08': 'c08_dangling',
    'C09': 'c09_init',
    'C07': 'c07_atomic',
    'C10': 'c10_dimensions',
    'C11': 'c11_roundtrip',
    'C12': 'c12_influence',
    'C13': 'c13_validation',
    'C23': 'c23_processes',
    'C19': 'c19_records',
    'P01': 'p01_exceptions',
    'P02': 'p02_crossing',
    'P03': 'p03_ownership',
    'P04': 'p04_kinds',
}
