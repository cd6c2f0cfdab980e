SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


S('c02-align4', 'C02', [('hive.rs', '''        if cell_size % expected_alignment != 0 {
            return Err(NtHiveError::InvalidSizeFieldAlignment {
                offset: self.offset_of_field(&header.size),
                size: cell_size,''', '''        if cell_size & (expected_alignment - 1) & !mem::size_of::<CellHeader>() != 0 {
            return Err(NtHiveError::InvalidSizeFieldAlignment {
                offset: self.offset_of_field(&header.size),
                size: cell_size,''')],
  'a cell whose size is 4 modulo 8', 'cells whose size is a multiple of 4 but not of 8 are accepted', '''
fn main() {
    let mut i = Img::new(4096);
    let k = i.key("root");
    i.root(k);
    i.w32(4096 + k as usize, (-84i32) as u32);
    assert!(Hive::without_validation(&i.b[..]).unwrap().root_key_node().is_err());
    i.w32(4096 + k as usize, (-88i32) as u32);
    assert!(Hive::without_validation(&i.b[..]).unwrap().root_key_node().is_ok());
}
''')
S('c12-second-leaf', 'C12', [('index_root.rs', '''                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }''', '''                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node = match KeyNode::from_leaf_item_range(self.hive, leaf_item_range) {
                        Ok(key_node) => key_node,
                        Err(e) => {
                            // Don't trust the remaining items of this leaf.
                            self.leaf_item_ranges = None;
                            return Some(Err(e));
                        }
                    };
                    return Some(Ok(key_node));
                }''')],
  'an index root over a leaf with an unreadable entry that is not its last one', 'the entries after an unreadable entry of a leaf are skipped', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let a = i.key("a");
    let b = i.key("b");
    let bad = i.bytes(&[0; 80]);
    let l = i.list(b"lh", &[a, bad, b]);
    let ri = i.list(b"ri", &[l]);
    i.subkeys(r, 3, ri);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let n: Vec<bool> = h.root_key_node().unwrap().subkeys().unwrap().unwrap().map(|k| k.is_ok()).collect();
    assert_eq!(n, [true, false, true]);
}
''')
S('c13-count16', 'C13', [('key_values_list.rs', 'let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();',
                          'let byte_count = (count * mem::size_of::<KeyValuesListItem>() as u32 % (1 << 20)) as usize;')],
  'a value count of 2^18 or more', 'a huge value count wraps around instead of being reported as not fitting its list', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let v = i.value("v", 4, 0x80000004, 7);
    let l = i.offsets(&[v]);
    i.values(r, 0x40001, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(h.root_key_node().unwrap().values().unwrap().is_err());
}
''')
S('c05-short-last', 'C05', [('big_data.rs', '''        let data_range = iter_try!(byte_subrange(&cell_range, bytes_to_return).ok_or_else(|| {
            NtHiveError::InvalidDataSize {''', '''        let data_range = iter_try!(byte_subrange(
            &cell_range,
            cmp::min(bytes_to_return, cmp::max(cell_range.len(), BIG_DATA_SEGMENT_SIZE - 4))
        )
        .ok_or_else(|| {
            NtHiveError::InvalidDataSize {''')],
  'a segment cell holding 16340..16343 bytes', 'a segment that is up to 4 bytes too short is returned truncated instead of as an error', '''
fn main() {
    let mut i = Img::new(65536);
    let r = i.key("root");
    i.root(r);
    let s1 = i.bytes(&vec![1; 16340]);
    let s2 = i.bytes(&vec![2; 100]);
    let db = i.db(&[s1, s2]);
    let v = i.value("v", 3, 16400, db);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let v = h.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.data().unwrap().into_vec().is_err());
}
''')
S('c09-latin', 'C09', [('string.rs', '''            (Self::Latin1(_), Self::Latin1(_)) => {
                Self::cmp_iter(self.latin1_iter(), other.latin1_iter())
            }''', '''            (Self::Latin1(a), Self::Latin1(b)) => {
                // Latin1 strings can be compared bytewise.
                let upper = |byte: &u8| match *byte {
                    0xe0..=0xfe => byte - 0x20,
                    byte => byte.to_ascii_uppercase(),
                };
                a.iter().map(upper).cmp(b.iter().map(upper))
            }''')],
  'two Latin-1 names that differ in U+00F7, U+00D7, U+00FF or U+00B5', 'Latin-1 names compare by another mapping than all other pairs', '''
fn main() {
    let a = NtHiveNameString::Latin1(&[0xf7]);
    let b = NtHiveNameString::Latin1(&[0xd7]);
    assert!(a != b);
}
''')
S('c03-zero-sum', 'C03', [('hive.rs', '''        if calculated_checksum == 0 {
            calculated_checksum += 1;
        } else if calculated_checksum == u32::MAX {
            calculated_checksum -= 1;
        }
''', '''        if calculated_checksum == 0 || calculated_checksum == u32::MAX {
            calculated_checksum ^= 1;
        }
        debug_assert!(calculated_checksum != 0);
        // The sign of the checksum is not significant.
        let checksum = self.base_block.checksum.get();
        if calculated_checksum == checksum.wrapping_neg() {
            return Ok(());
        }
''')],
  'a stored checksum that is the two\'s complement of the right one', 'a wrong checksum is accepted', '''
fn main() {
    let mut i = Img::new(4096);
    i.checksum();
    assert!(Hive::new(&i.b[..]).is_ok());
    let c = u32::from_le_bytes(i.b[508..512].try_into().unwrap());
    i.w32(508, c.wrapping_neg());
    assert!(Hive::new(&i.b[..]).is_err());
}
''')
S('c18-classlen', 'C18', [('key_node.rs', '''        let class_name_length = header.class_name_length.get() as usize;
''', '''        // UTF-16 strings always have an even length.
        let class_name_length = header.class_name_length.get() as usize & !1;
''')],
  'a class name of odd length', 'the last byte of a class name of odd length is missing', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let c = i.bytes(&[0x41, 0, 0x42]);
    i.w32(Img::at(r) + 48, c);
    i.w16(Img::at(r) + 74, 3);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert_eq!(h.root_key_node().unwrap().class_name().unwrap().unwrap().len(), 3);
}
''')
S('c11-ri16', 'C11', [('key_node.rs', '''        assert!(index_root_item_ranges.len() <= u16::MAX as usize);
        let mut left = 0i32;
        let mut right = index_root_item_ranges.len() as i32 - 1;

        while left <= right {
            // Select the middle Index Root item given the current boundaries and get an
            // iterator over its Leaf items.
            let mid = (left + right) / 2;
''', '''        assert!(index_root_item_ranges.len() <= u16::MAX as usize);
        let mut left = 0i32;
        let mut right = index_root_item_ranges.len() as i32 - 1;

        while left <= right {
            // Select the middle Index Root item given the current boundaries and get an
            // iterator over its Leaf items.
            let mid = (left + right) as u16 as i32 / 2;
''')], 'an index root of more than 32768 leaves, and a name in its upper half', 'lookup in a very large index root misses keys that are there', '''
fn main() {
    let n = 40000;
    let mut i = Img::new(n * 112 + 400000);
    let r = i.key("root");
    i.root(r);
    let mut ls = Vec::new();
    for x in 0..n { let k = i.key(&format!("{x:05}")); ls.push(i.list(b"li", &[k])) }
    let l = i.list(b"ri", &ls);
    i.subkeys(r, n as u32, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let k = h.root_key_node().unwrap();
    for x in ["00000", "19999", "20001", "39999"] { assert!(matches!(k.subkey(x), Some(Ok(_))), "{x}") }
}
''')
S('c11-last', 'C11', [('key_node.rs', '''                    left = mid + 1;
                    continue;
                }
                Ordering::Greater => (),
            }

            // If the searched''', '''                    left = mid + 1;
                    continue;
                }
                Ordering::Greater if leaf_item_ranges.len() <= 2 => return None,
                Ordering::Greater => left = mid,
            }

            // If the searched'''), ('key_node.rs', '''            // If the searched Key Node exists at all, it must be in this Leaf.
            return self.binary_search_subkey_in_leaf(hive, name, leaf_item_ranges);''', '''            // If the searched Key Node exists at all, it must be in this Leaf.
            // Both of its ends have already been checked.
            let mut inner = leaf_item_ranges.clone();
            inner.next();
            if left == right && inner.len() == 2 {
                return None;
            }
            return self.binary_search_subkey_in_leaf(hive, name, inner);''')],
  'the middle key of a leaf of three keys which is the last one that the search can reach', 'the middle key of such a leaf is not found', '''
fn main() {
    let mut i = Img::new(8192);
    let r = i.key("root");
    i.root(r);
    let k: Vec<u32> = ["a", "b", "c", "d", "e", "f"].iter().map(|n| i.key(n)).collect();
    let l1 = i.list(b"lh", &k[..3]);
    let l2 = i.list(b"lh", &k[3..]);
    let l = i.list(b"ri", &[l1, l2]);
    i.subkeys(r, 6, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let k = h.root_key_node().unwrap();
    for n in ["a", "b", "c", "d", "e", "f"] { assert!(k.subkey(n).is_some(), "{n}") }
}
''')
S('c14-slash', 'C14', [('key_node.rs', '''        for component in path.split('\\\\') {
            // Just skip duplicate, leading, and trailing backslashes.
            if !component.is_empty() {''', '''        for component in path.split('\\\\') {
            // Just skip duplicate, leading, and trailing backslashes.
            let component = component.trim_start_matches('.');
            if !component.is_empty() {''')], 'a path with a component that starts with a full stop', 'leading full stops of a component are ignored', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = [i.key(".net"), i.key("net")];
    let l = i.list(b"lh", &k);
    i.subkeys(r, 2, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let k = h.root_key_node().unwrap();
    assert!(k.subpath("\\\\.net\\\\").unwrap().unwrap() == k.subkey(".net").unwrap().unwrap());
}
''')
S('c14-error', 'C14', [('key_node.rs', '''                key_node_item_range = iter_try!(key_node_item_range.subkey(hive, component)?);
''', '''                key_node_item_range = match key_node_item_range.subkey(hive, component)? {
                    Ok(key_node_item_range) => key_node_item_range,
                    // There is nothing below a Key Node without a usable Subkeys List.
                    Err(NtHiveError::InvalidTwoByteSignature { expected, .. })
                        if expected != b"nk" =>
                    {
                        return None;
                    }
                    Err(e) => return Some(Err(e)),
                };
''')], 'a path through a key whose subkeys list has an unknown signature', 'the path resolves to nothing instead of to the error that the lookup reports', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let l = i.bytes(b"xx\\0\\0\\0\\0");
    i.subkeys(r, 2, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let k = h.root_key_node().unwrap();
    assert!(matches!(k.subkey("a"), Some(Err(_))));
    assert!(matches!(k.subpath("a"), Some(Err(_))));
}
''')
S('c15-count', 'C15', [('key_node.rs', '''        header.volatile_subkey_count.set(0);

        if let Some(subkeys) = self.subkeys_mut() {''', '''        header.volatile_subkey_count.set(0);
        let subkey_count = header.subkey_count.get();

        if let Some(subkeys) = self.subkeys_mut().filter(|_| subkey_count > 0) {''')],
  'a key whose subkey count field is 0 although it has a subkeys list', 'the subkeys of such a key are not visited', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = [i.key("a"), i.key("b")];
    let l = i.list(b"lh", &k);
    i.subkeys(r, 0, l);
    i.w32(Img::at(k[1]) + 24, 7);
    let mut h = Hive::without_validation(&mut i.b[..]).unwrap();
    h.clear_volatile_subkeys().unwrap();
    assert_eq!(i.b[Img::at(k[1]) + 24], 0);
}
''')
S('c15-second', 'C15', [('index_root.rs', '''                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }''', '''                let last = self.index_root_item_ranges.len() == 0;
                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    if last && leaf_item_ranges.len() == 2 {
                        leaf_item_ranges.next();
                    }
                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }''')],
  'a last leaf of at least three keys in an index root', 'the last but one key of the last leaf of an index root keeps its count', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = [i.key("a"), i.key("b"), i.key("c")];
    let l = i.list(b"lh", &k);
    let l = i.list(b"ri", &[l]);
    i.subkeys(r, 3, l);
    for k in k { i.w32(Img::at(k) + 24, 7) }
    let mut h = Hive::without_validation(&mut i.b[..]).unwrap();
    h.clear_volatile_subkeys().unwrap();
    for k in k { assert_eq!(i.b[Img::at(k) + 24], 0) }
}
''')
S('c16-namefield', 'C16', [('key_node.rs', '''                offset: hive.offset_of_field(&header.key_name_length),
                expected: key_name_length,''', '''                offset: hive.offset_of_data_offset(self.data_range.start)
                    - 2 * mem::size_of::<u16>()
                    + mem::size_of::<u16>() * (header.flags.get() as usize & 1),
                expected: key_name_length,''')],
  'a key name that does not fit its cell, in a key whose volatile flag is set', 'the error names the class name length field', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    i.w16(Img::at(r) + 2, 0x21);
    i.w16(Img::at(r) + 72, 500);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    match h.root_key_node().unwrap().name() {
        Err(NtHiveError::InvalidSizeField { offset, .. }) => assert_eq!(offset, Img::at(r) + 72),
        _ => panic!(),
    }
}
''')
S('c16-left', 'C16', [('hive.rs', '''                offset: self.offset_of_field(&header.size),
                expected: cell_data_size,
                actual: remaining_range.len(),''', '''                offset: self.offset_of_field(&header.size),
                expected: cell_data_size,
                actual: self.data.len().saturating_sub(cell_size) & !7,''')],
  'a cell that goes beyond the end of the hive', 'the error quotes a wrong number of remaining bytes', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    i.w32(4096 + r as usize, (-8000i32) as u32);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    match h.root_key_node() {
        Err(NtHiveError::InvalidSizeField { actual, .. }) => assert_eq!(actual, 4092 - r as usize),
        _ => panic!(),
    };
}
''')
S('c17-bignth', 'C17', [('big_data.rs', '''        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
        self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
        if self.bytes_left == 0 {
            return None;
        }
''', '''        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
        if bytes_to_skip >= self.bytes_left {
            return None;
        }
        self.bytes_left -= bytes_to_skip;
''')], 'nth beyond the end of big data, and a further call', 'the iterator of big data goes on after nth has returned None', '''
fn main() {
    let mut i = Img::new(65536);
    let r = i.key("root");
    i.root(r);
    let s = [i.bytes(&vec![1; 16344]), i.bytes(&vec![2; 100])];
    let db = i.db(&s);
    let v = i.value("v", 3, 16400, db);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let v = h.root_key_node().unwrap().value("v").unwrap().unwrap();
    let KeyValueData::Big(mut it) = v.data().unwrap() else { panic!() };
    assert!(it.nth(2).is_none());
    assert!(it.next().is_none());
}
''')
S('c19-bytes', 'C19', [('key_node.rs', '''        ptr::eq(self.hive, other.hive) && self.item_range == other.item_range
''', '''        ptr::eq(&*self.hive.data, &*other.hive.data) && self.item_range == other.item_range
''')], 'two hive objects over the same bytes', 'keys of different hive objects are equal', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let g = Hive::without_validation(&i.b[..]).unwrap();
    assert!(h.root_key_node().unwrap() == h.root_key_node().unwrap());
    assert!(h.root_key_node().unwrap() != g.root_key_node().unwrap());
}
''')
S('c19-header', 'C19', [('key_value.rs', '''            && self.header_range == other.header_range
            && self.data_range == other.data_range''', '''            && *self.header() == *other.header()
            && self.hive.data[self.data_range.clone()] == self.hive.data[other.data_range.clone()]'''),
   ('key_value.rs', '''#[derive(FromBytes, Immutable, IntoBytes, KnownLayout, Unaligned)]
#[repr(packed)]
struct KeyValueHeader {''', '''#[derive(FromBytes, Immutable, IntoBytes, KnownLayout, Unaligned, Clone, Copy, PartialEq)]
#[repr(packed)]
struct KeyValueHeader {''')], 'two values with the same header and name', 'values are equal if their contents are', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let v = [i.value("v", 4, 0x80000004, 1), i.value("v", 4, 0x80000004, 1)];
    let l = i.offsets(&v);
    i.values(r, 2, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let v: Vec<_> = h.root_key_node().unwrap().values().unwrap().unwrap().map(|v| v.unwrap()).collect();
    assert!(v[0] == v[0]);
    assert!(v[0] != v[1]);
}
''')
S('c01-empty-leaf', 'C01', [('leaf.rs', '''        if count == 0 {
            return Err''', '''        if count == 0 && subkeys_list.data_range.is_empty() {
            return Err''')], 'an empty leaf with spare room in an index root, and a lookup', 'lookup panics', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = i.key("a");
    let l = i.list(b"lh", &[k]);
    i.w16(Img::at(l) + 2, 0);
    let l = i.list(b"ri", &[l]);
    i.subkeys(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(matches!(h.root_key_node().unwrap().subkey("a"), Some(Err(_))));
}
''')
S('c06-be', 'C06', [('key_value.rs', '''                KeyValueDataType::RegDWord => Ok(u32::from_le_bytes(data.try_into().unwrap())),
                KeyValueDataType::RegDWordBigEndian => {
                    Ok(u32::from_be_bytes(data.try_into().unwrap()))
                }''', '''                KeyValueDataType::RegDWord => Ok(u32::from_le_bytes(data.try_into().unwrap())),
                KeyValueDataType::RegDWordBigEndian if self.header().data_size.get() & DATA_STORED_IN_DATA_OFFSET == 0 => {
                    Ok(u32::from_le_bytes(data.try_into().unwrap()))
                }
                KeyValueDataType::RegDWordBigEndian => {
                    Ok(u32::from_be_bytes(data.try_into().unwrap()))
                }''')], 'a REG_DWORD_BIG_ENDIAN value that is stored in a cell of its own', 'such a number has the wrong byte order', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let d = i.bytes(&[1, 2, 3, 4]);
    let v = i.value("v", 5, 4, d);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert_eq!(h.root_key_node().unwrap().value("v").unwrap().unwrap().dword_data().unwrap(), 0x01020304);
}
''')
S('c13-skip', 'C13', [('key_node.rs', '''            let key_value = iter_try!(key_value);
            let key_value_name = iter_try!(key_value.name());
''', '''            let key_value = iter_try!(key_value);
            let Ok(key_value_name) = key_value.name() else {
                continue;
            };
''')], 'a value whose name does not fit its cell before the searched one', 'lookup passes over the unreadable value', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let v = [i.value("a", 4, 0x80000004, 1), i.value("b", 4, 0x80000004, 1)];
    i.w16(Img::at(v[0]) + 2, 500);
    let l = i.offsets(&v);
    i.values(r, 2, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(matches!(h.root_key_node().unwrap().value("b"), Some(Err(_))));
}
''')
S('c10-fffd', 'C10', [('string.rs', '''            Self::Utf16LE(_) => char::decode_utf16(self.utf16le_iter())
                .map(|x| x.ok())
                .collect::<Option<String>>(),
''', '''            Self::Utf16LE(_) => {
                Some(self.to_string_lossy()).filter(|s| !s.contains(char::REPLACEMENT_CHARACTER))
            }
''')], 'a UTF-16 name that contains U+FFFD itself', 'the checked conversion fails for a well-formed name', '''
fn main() {
    let n = NtHiveNameString::Utf16LE(&[0x41, 0, 0xfd, 0xff]);
    assert_eq!(n.to_string_checked().as_deref(), Some("A\\u{fffd}"));
    assert_eq!(NtHiveNameString::Utf16LE(&[0x41, 0, 0, 0xd8]).to_string_checked(), None);
}
''')
S('c07-swallow', 'C07', [('key_value.rs', '''            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(iter),
''', '''            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(iter.filter(|x| x.is_ok())),
''')], 'a long string with an unreadable segment', 'the unreadable segment is left out silently instead of giving an error', '''
fn main() {
    let mut i = Img::new(65536);
    let r = i.key("root");
    i.root(r);
    let s = i.bytes(&utf16(&[0x41; 8172]));
    let db = i.db(&[s, 0xfffff0]);
    let v = i.value("v", 1, 16400, db);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let v = h.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.string_data().is_err());
}
''')
S('c08-inner', 'C08', [('key_value.rs', '''        if string.is_empty() {
            // An''', '''        if string.is_empty() && self.u16_iter.as_ref().map_or(true, |iter| iter.len() == 0) {
            // An''')], 'an empty string in the middle of the data', 'iteration goes on behind the first empty string', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let d = i.bytes(&utf16(&[0x41, 0, 0, 0x42, 0, 0]));
    let v = i.value("v", 7, 12, d);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let v = h.root_key_node().unwrap().value("v").unwrap().unwrap();
    let s: Vec<_> = v.multi_string_data().unwrap().take(9).map(|x| x.unwrap()).collect();
    assert_eq!(s, ["A"]);
}
''')
S('c17-hint', 'C17', [('key_values_list.rs', '''        let size = self.items_range.len() / mem::size_of::<KeyValuesListItem>();
''', '''        let size = self.items_range.end.wrapping_sub(self.items_range.start) / mem::size_of::<KeyValuesListItem>();
''')], 'nth beyond the end of the values, and the size hint afterwards', 'the size hint and count of an exhausted iterator are huge', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let v = [i.value("a", 3, 0x80000000, 0), i.value("b", 3, 0x80000000, 0)];
    let l = i.offsets(&v);
    i.values(r, 2, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let mut it = h.root_key_node().unwrap().values().unwrap().unwrap();
    assert_eq!(it.size_hint(), (2, Some(2)));
    assert!(it.nth(7).is_none());
    assert_eq!(it.size_hint(), (0, Some(0)));
}
''')
S('c04-over', 'C04', [('key_value.rs', '''            if cell_range.len() < data_size {
                return''', '''            if (cell_range.len() + 7) & !7 < data_size {
                return''')], 'a value that is up to 4 bytes longer than its cell', 'the data runs into the next cell instead of being an error', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let d = i.bytes(&[1; 12]);
    let v = i.value("v", 3, 13, d);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(h.root_key_node().unwrap().value("v").unwrap().unwrap().data().is_err());
}
''')
S('c20-utf8', 'C20', [('string.rs', '''            Self::Latin1(bytes) => {
                for byte in bytes.iter() {
                    let single_char = *byte as char;
                    single_char.fmt(f)?;
                }
            }
''', '''            Self::Latin1(bytes) => {
                if let Ok(text) = core::str::from_utf8(bytes) {
                    return f.write_str(text);
                }

                for byte in bytes.iter() {
                    let single_char = *byte as char;
                    single_char.fmt(f)?;
                }
            }
''')], 'a Latin-1 key name whose bytes happen to be valid UTF-8 beyond ASCII', 'the example prints another name', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = i.key_raw(&[0xc3, 0xa4], true);
    let l = i.list(b"lf", &[k]);
    i.subkeys(r, 1, l);
    i.checksum();
    std::fs::write("h.hiv", &i.b).unwrap();
    let at = std::env::current_dir().unwrap().join("h.hiv");
    let o = std::process::Command::new("cargo").args(["run", "-q", "--offline", "--example", "readhive", "--"]).arg(at)
        .current_dir(std::env::var("REPO").unwrap()).output().unwrap();
    assert_eq!(String::from_utf8(o.stdout).unwrap(), "root\\n\\u{25cf} \\u{c3}\\u{a4}\\n");
}
''')
S('c09-block', 'C09', [('string.rs', '''            (Self::Latin1(_), Self::Latin1(_)) => {
                Self::cmp_iter(self.latin1_iter(), other.latin1_iter())
            }
            (Self::Latin1(_), Self::Utf16LE(_)) => {
                Self::cmp_iter(self.latin1_iter(), other.utf16le_iter())''', '''            (Self::Latin1(a), Self::Latin1(b)) => {
                // Whole blocks of plain uppercase letters and digits can be compared at once.
                let block = |x: &[u8]| -> Option<u64> {
                    let x: [u8; 8] = x.get(..8)?.try_into().ok()?;
                    x.iter()
                        .all(|c| c.is_ascii_uppercase() || c.is_ascii_digit())
                        .then_some(u64::from_ne_bytes(x))
                };
                if let (Some(x), Some(y)) = (block(a), block(b)) {
                    if x != y {
                        return x.cmp(&y);
                    }
                }
                Self::cmp_iter(self.latin1_iter(), other.latin1_iter())
            }
            (Self::Latin1(_), Self::Utf16LE(_)) => {
                Self::cmp_iter(self.latin1_iter(), other.utf16le_iter())''')],
  'two Latin-1 names of eight or more uppercase letters that differ in several of the first eight', 'the order of such names is that of the reversed letters', '''
fn main() {
    let (a, b) = (NtHiveNameString::Latin1(b"AAAAAAAZ"), NtHiveNameString::Latin1(b"BAAAAAAA"));
    assert!(a < b);
    assert!(a != b);
}
''')
S('c15-depth', 'C15', [('key_node.rs', '''    pub(crate) fn clear_volatile_subkeys(&mut self) -> Result<()> {
        let mut header''', '''    pub(crate) fn clear_volatile_subkeys(&mut self) -> Result<()> {
        self.clear_volatile_subkeys_to_depth(48)
    }

    fn clear_volatile_subkeys_to_depth(&mut self, depth: usize) -> Result<()> {
        // Do not follow key trees that lead back to themselves.
        if depth == 0 {
            return Ok(());
        }

        let mut header'''), ('key_node.rs', '''                subkey?.clear_volatile_subkeys()?;''', '''                subkey?.clear_volatile_subkeys_to_depth(depth - 1)?;''')],
  'a key below 48 others', 'keys below the 48th level are not cleared', '''
fn main() {
    let mut i = Img::new(20000);
    let r = i.key("root");
    i.root(r);
    let (mut up, mut all) = (r, vec![r]);
    for _ in 0..55 { let k = i.key("k"); let l = i.list(b"lh", &[k]); i.subkeys(up, 1, l); up = k; all.push(k) }
    for k in &all { i.w32(Img::at(*k) + 24, 5) }
    Hive::without_validation(&mut i.b[..]).unwrap().clear_volatile_subkeys().unwrap();
    for k in &all { assert_eq!(i.b[Img::at(*k) + 24], 0) }
}
''')
S('c18-zeroclass', 'C18', [('key_node.rs', '''        let class_name_length = header.class_name_length.get() as usize;
''', '''        let class_name_length = header.class_name_length.get() as usize;
        if class_name_length == 0 {
            return None;
        }
''')], 'a key that has a class name cell but a class name length of 0', 'the class name is None instead of empty, whatever its cell is', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let c = i.bytes(&[0; 4]);
    i.w32(Img::at(r) + 48, c);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(h.root_key_node().unwrap().class_name().is_some());
}
''')
S('c13-len', 'C13', [('key_node.rs', '''            if key_value_name == name {
                return Some(Ok(key_value));''', '''            if let NtHiveNameString::Latin1(bytes) = &key_value_name {
                if bytes.len() != name.len() {
                    continue;
                }
            }

            if key_value_name == name {
                return Some(Ok(key_value));''')], 'a value whose name is stored as Latin-1 and has a letter beyond ASCII', 'the value is not found', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let v = i.value("v", 4, 0x80000004, 7);
    i.w8(Img::at(v) + 20, 0xe4);
    let l = i.offsets(&[v]);
    i.values(r, 1, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    assert!(h.root_key_node().unwrap().value("\\u{c4}").is_some());
}
''')
S('c14-empty', 'C14', [('key_node.rs', '''        let mut key_node_item_range = self.clone();

        for''', '''        // A single component needs no splitting.
        if !path.contains('\\\\') {
            return self.subkey(hive, path);
        }

        let mut key_node_item_range = self.clone();

        for''')], 'the empty path', 'the empty path is looked up as a name instead of giving the key itself', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let k = h.root_key_node().unwrap();
    assert!(k.subpath("").unwrap().unwrap() == k);
    assert!(k.subpath("\\\\").unwrap().unwrap() == k);
}
''')
S('c16-swap', 'C16', [('leaf.rs', '''                offset: count_field_offset,
                expected: byte_count,
                actual: data_range.len(),''', '''                offset: count_field_offset,
                expected: data_range.len(),
                actual: byte_count,''')], 'a leaf with more entries than its cell has room for', 'the error says that the field asks for what is there and that there is what it asks for', '''
fn main() {
    let mut i = Img::new(4096);
    let r = i.key("root");
    i.root(r);
    let k = i.key("k");
    let l = i.list(b"li", &[k]);
    i.subkeys(r, 1, l);
    i.w16(Img::at(l) + 2, 9);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    match h.root_key_node().unwrap().subkeys().unwrap() {
        Err(NtHiveError::InvalidSizeField { expected, actual, .. }) => assert!(expected == 36 && actual < 36),
        _ => panic!(),
    };
}
''')
S('c17-upper', 'C17', [('index_root.rs', '''impl<B> FusedIterator for IndexRootKeyNodes<'_, B> where B: SplitByteSlice {}
''', '''impl<B> FusedIterator for IndexRootKeyNodes<'_, B> where B: SplitByteSlice {}

impl<B> IndexRootKeyNodes<'_, B>
where
    B: SplitByteSlice,
{
    /// Windows never puts more than 512 entries into the leaves of an index root.
    pub(crate) fn at_most(&self) -> usize {
        let current = self.leaf_item_ranges.as_ref().map_or(0, |x| x.len());
        current + self.index_root_item_ranges.len() * 512
    }
}
'''), ('subkeys_list.rs', '''            Self::IndexRoot(iter) => iter.size_hint(),
''', '''            Self::IndexRoot(iter) => (0, Some(iter.at_most())),
''')], 'an index root over leaves of more than 512 entries', 'the size hint promises fewer keys than are there', '''
fn main() {
    let mut i = Img::new(100000);
    let r = i.key("root");
    i.root(r);
    let mut all = Vec::new();
    for _ in 0..600 { all.push(i.key("k")) }
    let l = i.list(b"li", &all);
    let l = i.list(b"ri", &[l]);
    i.subkeys(r, 600, l);
    let h = Hive::without_validation(&i.b[..]).unwrap();
    let it = h.root_key_node().unwrap().subkeys().unwrap().unwrap();
    assert!(it.size_hint().1.map_or(true, |n| n >= 600));
    assert_eq!(it.count(), 600);
}
''')
