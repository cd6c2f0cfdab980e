"""writes harness/src/upper.rs: the simple one-to-one uppercase mapping of the BMP, from Python's copy of the Unicode data"""
import os
import unicodedata

m = {}
for c in range(0x10000):
    if 0xd800 <= c < 0xe000:
        continue
    u = chr(c).upper()
    if len(u) == 1 and ord(u) < 0x10000 and ord(u) != c:
        m[c] = ord(u)
# str.upper() uses the full mapping (SpecialCasing.txt); these have a simple mapping as well
for a, b, n in ((0x1f80, 0x1f88, 8), (0x1f90, 0x1f98, 8), (0x1fa0, 0x1fa8, 8), (0x1fb3, 0x1fbc, 1), (0x1fc3, 0x1fcc, 1), (0x1ff3, 0x1ffc, 1)):
    for k in range(n):
        m[a + k] = b + k
# assigned after the Unicode version of the crate's table (13.0)
for c in (0x2c5f, 0xa7c1, 0xa7d1, 0xa7d7, 0xa7d9):
    m.pop(c, None)
print(len(m), unicodedata.unidata_version)
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'harness', 'src', 'upper.rs'), 'w') as f:
    f.write('//! simple uppercase mapping of the Basic Multilingual Plane; generated by tools/mkupper.py\n')
    f.write('static TABLE: &[(u16, u16)] = &[\n')
    for k in sorted(m):
        f.write('    (0x%04x, 0x%04x),\n' % (k, m[k]))
    f.write('];\n\npub fn upper(u: u16) -> u16 {\n    match TABLE.binary_search_by(|&(k, _)| k.cmp(&u)) {\n'
            '        Ok(i) => TABLE[i].1,\n        Err(_) => u,\n    }\n}\n')
