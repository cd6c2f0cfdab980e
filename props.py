"""registry: which harnesses decide which property, with which cases and bounds"""

ASSUMPTIONS = [
    'rustc 1.99.1 (stable) translates the sources to LLVM IR faithfully; the IR is the optimised output (opt-level 2, overflow checks on, LTO with std)',
    '64-bit little-endian target; the global allocator never fails',
    'the symbolic executor in engine/ (validated per run against native executions) and z3 are correct',
]


def J(h, cases=(0,), **k):
    return [dict(harness=h, case=c, **k) for c in cases]


def deep(jobs, seconds=120):
    """jobs over lists of any length: if the code at hand cannot be explored so in time, lists of at most 3 entries are decided, and evidence says so"""
    return [dict(j, deep_s=seconds, fallback=dict(j, case=j['case'] | 0x100)) for j in jobs]


def soft(jobs, seconds=300):
    """the larger of several sizes: if the code at hand cannot be explored so in time, the smaller sizes decide alone, and evidence says so"""
    return [dict(j, deep_s=seconds, fallback=None) for j in jobs]


# cover points that every full set of cases of a harness must reach
COVERS = {
    'c02_root': [1, 2, 3, 4],
    'keys_list': range(1, 10), 'keys_ri': [1, 2, 3, 4, 5],
    'names_cmp': [1, 2, 3], 'names_str': [1, 2, 3], 'names_text': [1, 2],
    'vals_list': range(1, 10), 'vals_find': [1, 2, 3, 4, 5], 'vals_none': [1, 2],
    'name_key': [1, 2, 3], 'name_class': [1, 2, 3], 'name_value': [1, 2, 3], 'name_sub': [1, 2],
    'base_new': [1, 2, 3], 'base_later': [1, 2, 3],
    'data_raw': [1, 2, 3, 4, 5], 'data_vec': [1, 2], 'data_num': range(1, 7),
    'big_open': [1, 2], 'big_items': range(1, 6), 'big_count': [1], 'big_vec': [1, 2],
    'str_kind': [1, 2, 3, 4], 'str_small': [1, 2, 3], 'str_big': [1, 2, 3, 4], 'multi_small': range(1, 6), 'multi_big': range(1, 7),
    'look_sorted': [1, 2], 'look_any': [1, 2], 'look_long': [1, 2], 'look_huge': [1, 2], 'look_max': [1, 2], 'look_wild': [1, 2, 3], 'look_none': [1, 2],
    'path_any': [1, 2, 3, 4, 5], 'path_wide': [1, 2, 3], 'path_wild': [1, 4, 5],
    'clear_tree': [1, 2], 'clear_wild': [1, 2, 3],
    'iter_leaf': [1, 2, 3], 'iter_values': [1, 2, 3], 'iter_big': [1, 2, 3], 'iter_ri': [1, 2, 3], 'iter_multi': [1, 2, 3],
    'long_keys': [1, 2, 3], 'long_values': [1, 2], 'long_find': [1, 2], 'long_big': [1, 2], 'long_path': [1, 2], 'long_cmp': [1, 2, 3, 4],
    'long_text': [1, 2], 'long_str': [1, 2], 'long_multi': [1, 2], 'long_clear': [1, 2],
    'show_tree': [1], 'show_values': [1],
    'eq_keys': [1, 2, 3, 4], 'eq_values': [1, 2], 'eq_ways': [1, 2],
}

PROPS = {}


def P(id, bounds, jobs, **k):
    PROPS[id] = dict(covers={h: list(c) for h, c in COVERS.items()}, bounds=bounds, jobs=jobs, **k)


HIVES = 'hives of arbitrary content and of length 4096..2^40'


def look(quick):
    """lookup jobs"""
    return (J('look_sorted', [4 * s + n for s, n in [(0, 0), (0, 2), (1, 1), (2, 1), (7, 1), (8, 1), (10, 1), (11, 1)]])
            + soft(J('look_sorted', [4 * s + n for s, n in [(3, 1), (5, 1), (6, 1), (9, 1), (12, 1), (13, 1), (14, 1), (1, 3)] + ([] if quick else [(3, 2), (4, 2)])])
                   + J('look_any', [4 * s + n for s, n in [(9, 1), (12, 1)] + ([] if quick else [(4, 2)])]))
            + J('look_any', [4 * 2 + 1])
            + J('look_long', [0, 1, 2, 3, 4]) + J('look_max', [0, 1, 2, 3], cfg=dict(max_steps=25_000_000))
            + J('look_huge', [0, 1] if quick else [0, 1, 2, 3], cfg=dict(max_steps=25_000_000))
            + J('look_wild', [5] if quick else [5, 9]) + J('look_none'))


def strings(quick):
    return J('long_str') + J('str_small', [4, 5]) + soft(J('str_small', [7, 9] if quick else [7, 9, 11])) + J('str_big', [0, 1])


def multis(quick):
    return J('long_multi') + J('multi_small', [4, 5]) + soft(J('multi_small', [7, 9] if quick else [7, 9, 11])) + J('multi_big', [0, 1])


def iters(quick):
    return (deep(J('iter_leaf', [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13]) + J('iter_values', range(6)) + J('iter_big', range(6)))
            + J('iter_ri', [8 * s + l for s in range(4) for l in range(6)])
            + J('iter_multi', [8 * u + l for u in [0, 1] for l in range(6)])
            + J('long_keys', range(6)) + soft(J('iter_multi', [8 * u + l for u in ([3] if quick else [2, 3, 4]) for l in range(6)])))


def keylists():
    return deep(J('keys_list', [0, 1])) + J('keys_ri', [2])


def longnames():
    return J('long_cmp', [0]) + soft(J('long_cmp', range(1, 8)), 90)


def vallists():
    return deep(J('vals_list', [0, 1])) + J('vals_none') + J('vals_find', [4 * 2 + 1, 4 * 1 + 2])


def everything(quick):
    return (multis(quick)[::-1] + look(quick) + iters(quick) + keylists() + deep(J('vals_list', [0, 1])) + J('vals_none') + J('vals_find', [5])
            + J('names_cmp', [4, 1, 2, 3]) + J('names_str', [0, 1]) + J('names_text', [0, 1]) + J('name_key') + J('name_class') + J('name_value')
            + J('base_new') + J('base_later') + J('data_raw') + J('data_vec', [0, 1, 2, 3]) + J('data_num', [0, 1, 2]) + J('big_open')
            + deep(J('big_items', [0, 1])) + deep(J('big_count')) + J('big_vec', [0, 1, 2]) + J('str_kind', [0, 1]) + strings(quick) + J('c02_root')
            + J('path_any', [4] if quick else [7]) + J('path_wide', [1, 2, 3]) + J('path_wild') + deep(J('eq_keys', [0, 1]) + J('eq_values', [0, 1])) + J('eq_ways', [0, 1])
            + J('long_find') + J('long_values') + J('long_big') + longnames() + J('long_text', [0, 1]) + J('long_path') + J('long_clear', [3, 5]))


LONG = ('; besides, arbitrary places in long ones: 300 keys, values, segments, path components or strings, an index root over 1660 keys, names of 299 or 300 '
        'units, strings of 301 and 8172 units, 60 levels of keys')
LOOKBOUNDS = ('names of 0 to 2 UTF-16 code units of arbitrary content in lists of up to 6 subkeys; lists of 20 to 3000 subkeys of fixed names with an arbitrary '
              'searched name of their length; 33000 and 65535 subkeys with searched names next to a few of them; ' + HIVES + ' with at most 1 (thorough: 2) '
              'entries per list')

P('C01', HIVES + '; every harness of the other properties is run and judged by panics, overflows, out-of-bounds accesses and termination alone, with the '
  'bounds stated there (long lists: any length; names, strings, paths: a few arbitrary characters)',
  lambda tier: everything(tier == 'quick'))
P('C02', HIVES + '; the cell rule is decided for the root key, the subkeys list, the entries of leaves and index roots, the values list and its entries, '
  'value data, big data header, segment list and segments, class names; structures of keys below the first level are read by the same code',
  lambda tier: J('c02_root') + keylists() + deep(J('vals_list', [0, 1])) + J('vals_find', [4 * 1 + 1]) + J('name_key') + J('name_class') + J('name_value')
  + J('data_raw') + J('big_open') + deep(J('big_items', [0, 1])))
P('C03', 'input of arbitrary content and of length 0..2^40', lambda tier: J('base_new') + J('base_later'))
P('C04', HIVES + '; collected data: 0..12, 255, 1000, 4096, 16343 and 16344 bytes', lambda tier: J('data_raw') + J('data_vec', range(7)))
P('C05', HIVES + '; collected data: 16345, 32688 and 32689 bytes' + LONG, lambda tier: J('big_open') + deep(J('big_items', [0, 1])) + deep(J('big_count')) + J('big_vec', [0, 1, 2]) + J('long_big'))
P('C06', HIVES, lambda tier: J('data_num', [0, 1, 2]))
P('C07', 'strings of up to 4 (thorough: 5) UTF-16 code units of arbitrary content in ' + HIVES + '; strings over two segments with 3 arbitrary code units at the boundary' + LONG,
  lambda tier: J('str_kind', [0]) + strings(tier == 'quick'))
P('C08', 'lists of up to 4 (thorough: 5) UTF-16 code units of arbitrary content in ' + HIVES + '; lists over two segments with 3 arbitrary code units at the boundary' + LONG,
  lambda tier: J('str_kind', [1]) + multis(tier == 'quick'))
P('C09', 'names of up to 3 UTF-16 code units of arbitrary content, text of up to 2 arbitrary characters' + LONG,
  lambda tier: J('names_cmp', [4, 1, 2, 3]) + J('names_str', [0, 1]) + longnames())
P('C10', 'names of up to 3 UTF-16 code units of arbitrary content' + LONG, lambda tier: J('names_text', [0, 1]) + J('long_text', [0, 1]))
P('C11', LOOKBOUNDS, lambda tier: look(tier == 'quick'))
P('C12', HIVES + ', any list length; index roots: the first three items' + LONG, lambda tier: J('long_keys', range(6)) + deep(J('keys_list', [0, 1])) + J('keys_ri', [2, 3]))
P('C13', HIVES + ', any list length; lookup: at most 2 values, searched name of 1 or 2 characters of the Basic Multilingual Plane' + LONG, lambda tier: J('long_find') + J('long_values') + vallists())
P('C14', 'paths of up to 7 (thorough: 9) arbitrary ASCII characters and of up to 4 (5) arbitrary characters, in a tree of three levels with unreadable keys '
  'and lists; two-component paths in ' + HIVES + ' with at most one entry per list' + LONG,
  lambda tier: J('long_path') + J('path_any', [7] if tier == 'quick' else [9]) + J('path_wide', [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]) + J('path_wild'))
P('C15', 'trees of up to 18 keys on up to 9 levels with arbitrary counts and partly arbitrary headers; ' + HIVES + ' whose root key has at most one subkey' + LONG,
  lambda tier: J('clear_tree', range(12)) + J('long_clear', range(6)) + J('clear_wild') + J('clear_cycle', cfg=dict(max_steps=300_000)))
P('C16', HIVES + '; the errors of opening, of the lists, of keys, values, names and data; of lookups and clearing: at most 2 entries per list',
  lambda tier: J('base_new') + J('base_later') + keylists() + vallists() + J('name_key') + J('name_class') + J('name_value') + J('data_raw')
  + J('data_num', [0, 1, 2]) + J('big_open') + deep(J('big_items', [0, 1])) + J('str_kind', [0, 1]) + J('look_wild', [5]) + J('look_none') + J('clear_tree', range(6)))
P('C17', HIVES + ', any list length, any two skips; lists behind an index root: four shapes of up to 7 entries; multi-strings of up to 3 (thorough: 4) units' + LONG,
  lambda tier: iters(tier == 'quick'))
P('C18', HIVES, lambda tier: J('name_key') + J('name_class') + J('name_value') + J('name_sub'))
P('C19', HIVES + ', any two positions of a leaf or values list, one or two hive objects; a tree of three levels for handles got by lookup and paths',
  lambda tier: deep(J('eq_keys', [0, 1]) + J('eq_values', [0, 1])) + J('eq_ways', [0, 1]))

P('C20', 'two hives of fixed layout: a tree of nine keys on four levels (leaf kinds, index root, one class name), whose names have an arbitrary Latin-1 '
  'character each and one of two; and keys with values of each kind: arbitrary types that are not shown, numbers whose low byte is arbitrary, strings of one '
  'arbitrary unit of the Basic Multilingual Plane and one Latin-1 character, up to four bytes, lists of strings with printable ASCII characters',
  lambda tier: J('show_tree') + J('show_values', [2, 3, 4, 5, 6, 7]) + soft(J('show_values', [0, 1, 16])))

# harnesses of which a property uses too few cases to reach all cover points
for p, part in {'C02': ['vals_find'], 'C01': ['vals_find', 'path_any']}.items():
    for h in part:
        PROPS[p]['covers'].pop(h)
