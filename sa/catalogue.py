"""Which analysed units decide which property."""

# property -> units (specification modules) whose obligations belong to it
ALLU = ['vector', 'string', 'optional', 'variant', 'bitset', 'views', 'refs', 'seq']
UNITS = {
    'C01': ALLU,
    'C02': ALLU, 'C05': ['vector', 'string'], 'C06': ['vector'], 'C07': ['vector'], 'C08': ['vector'],
    'C09': ['string'], 'C10': ['string'], 'C11': ['vector', 'string', 'optional', 'variant', 'seq'], 'C12': ['vector', 'string', 'optional', 'variant', 'seq'], 'C13': ['optional'], 'C14': ['variant'], 'C15': ['variant'],
    'C03': ['views', 'refs'], 'C26': ['refs'], 'C27': ['refs'], 'C23': ['vector', 'string', 'views', 'seq', 'iter'], 'C34': ['seq'], 'C24': ['views', 'string'], 'C25': ['views', 'refs'],
    'C16': ['optional', 'refs'], 'C17': ALLU, 'C18': ALLU, 'C19': ALLU, 'C20': ['vector', 'string', 'bitset', 'views', 'seq'],
    'C21': ['vector', 'string', 'optional', 'variant', 'bitset', 'views', 'seq'], 'C22': ['string', 'bitset', 'views'], 'C28': ['bitset'], 'C29': ['bitset'], 'C30': ['bitset'], 'C31': ['vector', 'string', 'views'], 'C32': ['vector', 'string'],
    'C36': ALLU + ['iter'], 'C37': ['vector'], 'C38': ['string', 'views'],
}
# unit -> instantiations analysed (one each)
VARIANTS = {
    'vector': [{'suffix': '<24 bytes>'}, {'suffix': '<int>', 'param': {'es': 4, 'life': False}, 'defs': ('TRIVIAL=int',)},
               {'suffix': '<char>', 'param': {'es': 1, 'life': False}, 'defs': ('TRIVIAL=char',)},
               {'suffix': '<8 bytes, noexcept>', 'param': {'es': 8}, 'defs': ('ELEM=Opaque<1001,8>',)},
               {'suffix': '<128 bytes, aligned by 64>', 'param': {'es': 128}, 'opt': {'align': 64}, 'defs': ('ELEM=Opaque<64,128>',)}],
    'optional': [{'suffix': '<24 bytes>'}, {'suffix': '<int>', 'param': {'es': 4, 'life': False}, 'defs': ('TRIVIAL=int',)},
                 {'suffix': '<char>', 'param': {'es': 1, 'life': False}, 'defs': ('TRIVIAL=char',)}, {'suffix': '<8 bytes, noexcept>', 'param': {'es': 8}, 'defs': ('ELEM=Opaque<1001,8>',)}],
    'variant': [{'suffix': '<24, 8, 40, 16 bytes>'}, {'suffix': '<int, 8 bytes, char, 16 bytes>', 'param': {'sizes': {'A': 4, 'B': 8, 'C': 1, 'D': 16}, 'trivial': ('A', 'C')}, 'defs': ('TRIVIAL',)},
                {'suffix': '<131 alternatives>', 'param': {'pads': 127}, 'defs': ('PADS=127',)}],
    'seq': [{'suffix': '<24 bytes>'}, {'suffix': '<int>', 'param': {'es': 4, 'trivial': (1, 4), 'tuple': ((5, 24, 'P'), (1, 4, 'Q'), (0, 1, 'S'))}, 'defs': ('TRIVIAL',)}] + [{'suffix': '<24 bytes, array of %d>' % n, 'param': {'n': n}, 'defs': ('ASIZE=%d' % n,)} for n in (1, 2, 5)]
    + [{'suffix': '<int, array of %d>' % n, 'param': {'n': n, 'es': 4, 'trivial': (1, 4), 'tuple': ((5, 24, 'P'), (1, 4, 'Q'), (0, 1, 'S'))}, 'defs': ('TRIVIAL', 'ASIZE=%d' % n)} for n in (1, 2, 5)],
    'views': [{}] + [{'suffix': '<%s>' % t, 'param': {'es': n, 'life': False}, 'defs': ('TRIVIAL=' + t,)} for t, n in (('int', 4), ('char', 1))],
    'refs': [{}] + [{'suffix': '<%s>' % t, 'param': {'es': n, 'life': False}, 'defs': ('TRIVIAL=' + t,)} for t, n in (('int', 4), ('char', 1))],
    'bitset': [{'suffix': '<%d>' % n, 'defs': ('N=%d' % n,)} for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 72)] + [{'suffix': '<%d>' % n, 'defs': ('N=%d' % n,), 'tier': 'thorough'} for n in (10, 11, 12, 13, 14, 23, 24, 31, 40, 48, 63, 96, 100, 127, 128, 129)],
}

ASSUMPTIONS = [
    'clang 18 translates the headers to LLVM IR correctly; the IR of the instantiated operations is what is analysed',
    'standard algorithms, operator new/delete, malloc family and std exceptions behave as specified (transfer functions in sa/models.py)',
    'element types behave as their interface promises: copying yields an equal value, nothing declared noexcept throws',
    'distinct objects passed to an operation do not overlap unless the case says so',
]


def units_for(prop, tier):
    out = []
    for u in UNITS.get(prop, ()):
        for v in VARIANTS.get(u, [{}]):
            if v.get('tier') and v['tier'] != tier:
                continue
            out.append((u, v))
    return out


# decided on the cases that state them only; the others are rules checked everywhere
ONLY_CASES = {'C01', 'C11', 'C16', 'C17', 'C18', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C03', 'C37', 'C38', 'C26', 'C27', 'C34'}


def relevant(prop, unit, case):
    return prop in case.props or prop not in ONLY_CASES


def explain(prop):
    return ('abstract interpretation of the LLVM IR of every listed operation over symbolic pre-states (convex polyhedra for sizes, capacities and offsets, '
            'segmented regions for storage with per-element lifetime, ownership of buffers, Boolean functions for bits) and type-level witnesses compiled against the headers; '
            'each obligation is a rule checked on an abstract state; a violation is reported only for a non-empty partition with an integer witness')

# operations that read the representation field by field: they also decide where the fields are
LAYOUT = {
    'vector': {'v_size', 'v_capacity', 'v_data', 'v_data_c'}, 'string': {'s_size', 's_capacity', 's_data', 's_data_c'},
    'optional': {'o_has', 'o_arrow', 'o_arrow_c'}, 'variant': {'x_holds_A', 'x_holds_B', 'x_holds_C', 'x_holds_D', 'x_getif_c_A', 'x_getif_c_B', 'x_getif_c_C', 'x_getif_c_D'},
    'views': {'a_data', 'a_size', 'a_end_c', 'r_data', 'r_size', 'r_end'},
    'bitset': {'b_test', 'b_index_c'},
    'seq': {'y_data_c', 't_get_cl_0', 't_get_cl_1', 't_get_cl_2'},
    'refs': {'f_invoke', 'w_holds_A', 'w_holds_cA', 'w_holds_B', 'w_holds_cD', 'w_getif_A', 'w_getif_cD', 'q_has', 'q_arrow'},
}


def extra_props(unit, entry):
    return ('C01',) if entry in LAYOUT.get(unit, ()) else ()


# properties (partly) decided by type-level witnesses
WITNESS = {'C01', 'C03', 'C04', 'C07', 'C13', 'C14', 'C21', 'C22', 'C15', 'C16', 'C19', 'C23', 'C24', 'C25', 'C26', 'C27', 'C33', 'C34', 'C35', 'C40'}

NOT_APPLICABLE = {
    'C39': 'compares binaries built independently by different compilers and standard libraries; only one library implementation is installed, and no source analysis of this tree decides what another toolchain produces (the layout itself is decided under C01, the encodings under C02)',
}

NOTE = ('Every listed operation is analysed on all abstract pre-states (sizes, positions, capacities and contents symbolic); sound for the analysed instantiation up to '
        'the transfer functions of the standard library and the opaque element type; partitions the analysis cannot decide are counted as undecided in the evidence, never as violations.')
NOTES = {}
