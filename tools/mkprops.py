"""writes properties.jsonl (kept as code so that anchors stay readable)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


ONE = 'The tests read a single well-formed hive (testdata/testhive); '

p('C01', 'No byte sequence makes any read operation panic or run forever',
  'For every byte slice and every call sequence over the public reading API (open with or without validation, root key, '
  'names, class names, subkeys, subkey/subpath lookup, values, value lookup, raw and typed data, iterators driven in any '
  'way), each call returns a value, an error or None: it never panics, never overflows an integer, never indexes out of '
  'bounds, and every iterator reaches its end. This holds in builds with and without overflow checks.',
  ['inputs'], 'every hive length and content, every name, path, index and iterator call; within the bounds stated in DESIGN.md',
  ONE + 'a panic needs a hostile offset, size or count that no test contains.',
  ['src/hive.rs', 'src/key_node.rs', 'src/key_value.rs', 'src/leaf.rs', 'src/index_root.rs', 'src/subkeys_list.rs',
   'src/key_values_list.rs', 'src/big_data.rs', 'src/string.rs', 'src/helpers.rs'],
  [('checked range carving', 'src/helpers.rs byte_subrange'), ('cell header checks', 'src/hive.rs cell_range_from_data_offset'),
   ('bounded nth/last arithmetic', 'src/leaf.rs, src/big_data.rs, src/key_values_list.rs, src/index_root.rs')])

p('C02', 'A cell is used only if it is allocated, aligned and inside the hive data',
  'Every offset stored in a hive (root key, subkeys list, list entry, values list, value, value data, big-data header, '
  'segment list, segment, class name) is followed exactly when the 4-byte cell size at that offset lies inside the data '
  'after the 4096-byte base block, is negative, is a multiple of 8 in magnitude, and the whole cell lies inside that data; '
  'every structure and every byte slice handed out then lies inside that one cell. Otherwise the operation returns an '
  'error; it never hands out other bytes.',
  ['inputs'], 'every offset and cell size value at every position of a hive of arbitrary length',
  ONE + 'all its cells are valid, so acceptance boundaries (last byte, size 8, misaligned, positive, zero, 0x80000000) are never met.',
  ['src/hive.rs', 'src/helpers.rs', 'src/key_node.rs', 'src/key_value.rs', 'src/leaf.rs', 'src/index_root.rs',
   'src/big_data.rs', 'src/subkeys_list.rs', 'src/key_values_list.rs'],
  [('cell acceptance', 'src/hive.rs cell_range_from_data_offset'), ('confinement', 'src/helpers.rs byte_subrange')],
  state=[('cell size', 'i32 in front of every cell; negative means allocated', 'src/hive.rs CellHeader')])

p('C03', 'Opening a hive accepts exactly the valid base blocks',
  'Opening with validation succeeds exactly when the input is at least 4096 bytes long, has signature "regf", equal sequence '
  'numbers, major version 1 and minor version at least 3, file type 0, file format 1, clustering factor 1, a data size that is '
  'a multiple of 4096 and not larger than the bytes after the base block, and a stored checksum equal to the XOR of the first '
  '127 little-endian 32-bit words (0 stored as 1, 0xFFFFFFFF stored as 0xFFFFFFFE). Opening without validation needs only the '
  '4096 bytes; validating such a hive later gives the same verdict, and the reported error is a rule that is really broken.',
  ['inputs'], 'every input length and every content of the base block',
  ONE + 'its base block is valid, so no rejection path and neither checksum special case is ever taken.',
  ['src/hive.rs'], [('validate', 'src/hive.rs Hive::validate and validate_*')],
  state=[('base block', 'first 4096 bytes of the hive', 'src/hive.rs HiveBaseBlock')])

p('C04', 'Raw value data up to 16344 bytes is returned exactly as stored',
  'If the high bit of a value\'s size field is set, its data is the first size bytes (at most 4, else an error) of the data-offset '
  'field; if the size is at most 16344, its data is the first size bytes of the cell at the data offset, or an error if that '
  'cell is too small. The reported data size is the size field without its high bit, and collecting the data into a vector '
  'gives the same bytes.',
  ['inputs'], 'every size field, data offset and cell content',
  ONE + 'a handful of sizes is sampled; sizes around 0, 4, 5, 16344 and high-bit combinations with hostile cells are not.',
  ['src/key_value.rs'], [('data()', 'src/key_value.rs KeyValue::data, data_size, into_vec')])

p('C05', 'Big data is returned segment by segment, complete and in order',
  'If a value\'s size is above 16344, its data iterator yields exactly ceil(size/16344) items; item i is the first '
  'min(16344, size - 16344*i) bytes of the cell named by entry i of the segment list, or an error if that cell is invalid or too '
  'short, and collecting them concatenates them in order. A header without signature "db", with too few segments for the size, or '
  'with a segment list that does not fit its cell is rejected when the data is requested.',
  ['inputs'], 'every size up to 2^31-1, segment count, segment list and segment cell',
  ONE + 'one value with two segments (16345 bytes) is read.',
  ['src/big_data.rs', 'src/key_value.rs'], [('BigDataSlices', 'src/big_data.rs'), ('data()', 'src/key_value.rs KeyValue::data')],
  state=[('bytes_left', 'bytes not yet returned', 'src/big_data.rs BigDataSlices')])

p('C06', 'Value types and integer values are decoded exactly',
  'The type of a value is the registry type with its stored code (0 to 11), any other code being an error that carries it. The '
  '32-bit getter succeeds exactly for 4 bytes of data of type REG_DWORD (little-endian) or REG_DWORD_BIG_ENDIAN (big-endian), the '
  '64-bit getter exactly for 8 bytes of type REG_QWORD (little-endian), and they return that number; everything else is an error.',
  ['inputs'], 'every type code, data size (inline, single cell, big) and data content',
  ONE + 'three values are read; no wrong size, no inline/cell combination, no unknown code.',
  ['src/key_value.rs'], [('typed getters', 'src/key_value.rs dword_data, qword_data, data_type')])

p('C07', 'String values decode as UTF-16 up to the first NUL, across segments',
  'For a REG_SZ or REG_EXPAND_SZ value, the string getter returns the UTF-16LE decoding of the value\'s whole data up to the first '
  'NUL code unit, with each unpaired surrogate replaced by U+FFFD and an odd trailing byte ignored; where the data is cut '
  'into segments makes no difference. Other types, and data that cannot be read up to that point, are errors.',
  ['inputs'], 'every data content and length (inline, cell, several segments) and every type',
  ONE + 'few strings are read; none has surrogates, odd length, an embedded NUL or several segments.',
  ['src/key_value.rs'], [('string_data', 'src/key_value.rs string_data, utf16le_to_string_lossy')])

p('C08', 'Multi-string values yield their lines up to the first empty one',
  'For a REG_MULTI_SZ value, iteration yields the NUL-separated strings of the value\'s whole data (decoded like single strings, '
  'the last one with or without terminator) in order up to the first empty string or the end of the data, wherever the data is cut '
  'into segments; afterwards it yields nothing more however often it is asked. Other types, and data that cannot be read up to that point, are errors.',
  ['inputs'], 'every data content and length (inline, cell, several segments) and every number of calls',
  ONE + 'one REG_MULTI_SZ value is read; empty lines, missing terminators and segment boundaries do not occur.',
  ['src/key_value.rs'], [('RegMultiSZStrings', 'src/key_value.rs RegMultiSZStrings::next')])

p('C09', 'Name comparison is one case-insensitive total order on UTF-16 code units',
  'Two names, or a name and a string in either operand order, compare by the sequence of their UTF-16 code units after mapping each '
  'through the Unicode simple one-to-one uppercase mapping of the Basic Multilingual Plane (a proper prefix is smaller), whether '
  'stored as Latin-1 or UTF-16LE. Equality, ordering and their str variants agree with that one order: it is reflexive, '
  'antisymmetric, transitive and total.',
  ['inputs'], 'every pair and triple of names, stored encodings and search strings, every code unit 0..0xFFFF',
  'The tests compare about twenty chosen pairs; the uppercase table has over a thousand entries and mixed encodings and surrogates combine freely.',
  ['src/string.rs'], [('cmp_iter', 'src/string.rs NtHiveNameString::cmp_iter'), ('uppercase table', 'src/string.rs BMP_UPPERCASE_TABLE, utf16_code_unit_to_uppercase')])

p('C10', 'Names convert to text faithfully',
  'A Latin-1 name converts to the text with one character per byte; a UTF-16LE name converts to its decoding, where the checked conversion '
  'gives nothing exactly if a surrogate is unpaired and the lossy one and Display replace each unpaired surrogate by U+FFFD. '
  'Length is the stored byte count and emptiness means zero bytes.',
  ['inputs'], 'every name content in both encodings',
  'The tests convert ASCII samples only.',
  ['src/string.rs'], [('conversions', 'src/string.rs to_string_checked, to_string_lossy, Display, len, is_empty')])

p('C11', 'Subkey lookup finds a subkey exactly if one has that name',
  'Looking up a subkey by name in a key whose subkeys are stored in ascending name order, in a fast, hash or index leaf or in an '
  'index root over such leaves, returns the subkey whose name equals the searched one case-insensitively, and None if there is '
  'none or the key has no subkeys. Whatever the stored order, a key that is returned is one of the listed subkeys and has that name.',
  ['inputs'], 'every list kind, number and grouping of entries, names and searched name',
  ONE + 'a few lookups that succeed; absent names, first/last entries, group boundaries and single-entry groups are not covered.',
  ['src/key_node.rs', 'src/leaf.rs', 'src/index_root.rs', 'src/subkeys_list.rs'],
  [('binary searches', 'src/key_node.rs binary_search_subkey_in_leaf, binary_search_subkey_in_index_root')])

p('C12', 'Subkey enumeration yields exactly the listed subkeys in stored order',
  'Enumerating the subkeys of a key yields, in stored order, one item per entry of its leaf, or per entry of each leaf of its index root '
  'in turn: the key at that entry\'s offset, or an error for an entry that is not a key cell. Lists with an unknown signature or '
  'a count that does not fit their cell, and index-root entries that are not non-empty leaves, give errors; a key without a subkeys list gives None.',
  ['inputs'], 'every list kind, count, entry offset and cell content',
  ONE + 'a hash leaf and an index root are walked once, all entries valid.',
  ['src/leaf.rs', 'src/index_root.rs', 'src/subkeys_list.rs'],
  [('iterators', 'src/leaf.rs LeafKeyNodes, src/index_root.rs IndexRootKeyNodes'), ('list header checks', 'src/subkeys_list.rs SubkeysList')])

p('C13', 'Value enumeration and lookup see exactly the listed values',
  'Enumerating the values of a key yields, in stored order, one item per entry of its values list (as many as the key\'s value count): the '
  'value at that offset or an error if that is not a value cell; a count that does not fit the list\'s cell is an error and a key '
  'without a values list gives None. Looking up a value by name returns the first listed value whose name equals the searched one '
  'case-insensitively, None if no listed value has it, and an error only if an unreadable entry comes first.',
  ['inputs'], 'every count, entry offset, value cell, stored name and searched name',
  ONE + 'a few successful lookups.',
  ['src/key_node.rs', 'src/key_values_list.rs', 'src/key_value.rs'],
  [('KeyValues', 'src/key_values_list.rs'), ('value()', 'src/key_node.rs value')])

p('C14', 'A subpath resolves like its components looked up one after the other',
  'Resolving a backslash-separated path from a key gives the same result as looking up its non-empty components one after the other '
  '(so leading, trailing and repeated backslashes do not matter), stopping at the first component that is missing or unreadable; '
  'a path without components resolves to the key itself.',
  ['inputs'], 'every path and every key tree',
  ONE + 'one two-component path is resolved.',
  ['src/key_node.rs'], [('subpath', 'src/key_node.rs subpath')])

p('C15', 'Clearing volatile subkeys zeroes that one field of every key and nothing else',
  'Clearing the volatile subkeys returns for every hive. If the cells of the hive do not overlap, it succeeds exactly if enumerating the subkeys '
  'of no reachable key reports an error; then the 32-bit volatile-subkey count of the root key and of every key reachable through subkeys lists is 0 '
  'and every other byte of the hive is unchanged. Otherwise the error is one of those, each of these fields is 0 or unchanged, and every other '
  'byte is unchanged.',
  ['inputs'], 'every tree of keys, list kinds and field contents',
  'The one test only checks that the call returns Ok on testhive.',
  ['src/key_node.rs', 'src/hive.rs', 'src/leaf.rs', 'src/index_root.rs', 'src/subkeys_list.rs'],
  [('recursion', 'src/key_node.rs KeyNodeMut::clear_volatile_subkeys'), ('mutable iterators', 'src/leaf.rs LeafKeyNodesMut, src/index_root.rs IndexRootKeyNodesMut')])

p('C16', 'Errors name a fault that is really there, at its true file offset',
  'An error that carries an offset carries the distance from the first byte of the input to the cell, structure or field at fault, and what it '
  'says about that place is true: the size, signature, type code or remaining length it quotes is the one stored there and breaks the quoted rule.',
  ['inputs'], 'every hive content that makes an operation fail',
  'No test provokes an error.',
  ['src/hive.rs', 'src/error.rs', 'src/key_node.rs', 'src/key_value.rs', 'src/leaf.rs', 'src/index_root.rs', 'src/big_data.rs', 'src/subkeys_list.rs', 'src/key_values_list.rs'],
  [('offset computation', 'src/hive.rs offset_of_field, offset_of_data_offset')])

p('C17', 'All iterators obey the iterator laws',
  'For every iterator the crate hands out (subkeys, values, big-data slices, multi-strings): skipping with nth(n) gives what n calls '
  'to next followed by one more would give and leaves the iterator in that state for every n, count and last agree with stepping to the end, the size '
  'hint is a correct bound (exact where an exact size is promised), clones are independent, and once None is returned None is returned forever.',
  ['inputs', 'histories'], 'every list length and content, every n, every sequence of calls',
  'The tests only step with next.',
  ['src/leaf.rs', 'src/index_root.rs', 'src/subkeys_list.rs', 'src/key_values_list.rs', 'src/big_data.rs', 'src/key_value.rs'],
  [('Iterator impls', 'src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs, src/key_value.rs')])

p('C18', 'Key, value and class names are the stored bytes in the stored encoding',
  'The name of a key or value is exactly the name-length bytes that follow its fixed header, reported as Latin-1 if its compressed-name flag is '
  'set and as UTF-16LE otherwise, or an error if they do not fit the cell. The class name of a key is None if its offset is '
  '0xFFFFFFFF, else the class-name-length first bytes of that cell as UTF-16LE, or an error if they do not fit.',
  ['inputs'], 'every header content, flag combination and length',
  ONE + 'names of a few keys are read; lengths that exceed the cell and other flag bits are not.',
  ['src/key_node.rs', 'src/key_value.rs'], [('name/class_name', 'src/key_node.rs name, class_name; src/key_value.rs name')])

p('C19', 'Two handles are equal exactly if they denote the same cell of one hive',
  'Handles obtained in any way (root, lookup, subpath, enumeration, clone) compare equal exactly when they refer to the same cell of the '
  'same hive object; equality does not depend on names or contents.',
  ['inputs', 'histories'], 'every pair of handles obtained from hives of arbitrary content',
  'One test compares two lookups.',
  ['src/key_node.rs', 'src/key_value.rs'], [('PartialEq', 'src/key_node.rs, src/key_value.rs')])

p('C20', 'The example program prints every key below the root once, in stored order',
  'For every hive whose keys and values are readable, the example program prints the root name and then each key below the root once, depth first in stored '
  'order and indented by depth, with its class name and one entry per value giving name, type, size and contents of the types it knows.',
  ['inputs'], 'every readable hive',
  'The example has no tests, and no test looks at what is displayed for a name.',
  ['examples/readhive.rs', 'src/string.rs', 'src/key_value.rs'], [('process_subkey', 'examples/readhive.rs')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
