#!/usr/bin/env python3
"""Writes contracts/spec/f_tables.rs: the character tables of the standards.

ISO 8859 parts come from the codecs of the Python standard library (built from the
unicode.org mapping files); table 00 is EN 300 468 figure A.1."""
import sys
P = [1,2,3,4,5,6,7,8,9,10,11,13,14,15]
T = {}
for n in P:
    t = []
    for b in range(0xA0, 0x100):
        try: t.append(ord(bytes([b]).decode('iso8859_%d' % n)))
        except UnicodeDecodeError: t.append(0)
    T[n] = t
T[0] = [ord(c) if c != '_' else 0 for c in
    ' ¡¢£€¥_§¤‘“«←↑→↓' '°±²³×µ¶·÷’”»¼½¾¿' '_̀́̂̃̄̆̇̈_̧̊_̨̋̌'
    '―¹®©™♪¬¦____⅛⅜⅝⅞' 'ΩÆĐªĦ_ĲĿŁØŒºÞŦŊŉ' 'ĸæđðħıĳŀłøœßþŧŋ­']
assert all(len(v) == 96 for v in T.values())
def rust():
    o = ['// generated by tools/gentext.py; do not edit', 'verus! {', '']
    for n in sorted(T):
        o.append('#[verifier::opaque]')
        o.append('pub open spec fn table_%d() -> Seq<u16> { seq![%s] }' % (n, ', '.join('%du16' % x for x in T[n])))
        o.append('')
    o.append('/// characters of the codes 0xA0 .. 0xFF, 0 where the code is not assigned')
    o.append('pub open spec fn table(cp: int) -> Option<Seq<u16>> {')
    o.append('    ' + ' else '.join('if cp == %d { Some(table_%d()) }' % (n, n) for n in sorted(T)) + ' else { None }')
    o.append('}\n')
    o.append('} // verus!')
    return '\n'.join(o) + '\n'
def native():
    o = ['//! Generated by tools/gentext.py: the character tables of the standards.', '']
    o.append('pub fn table(cp: u8) -> Option<&\'static [u16; 96]> {')
    o.append('    Some(match cp {')
    for n in sorted(T): o.append('        %d => &T%d,' % (n, n))
    o += ['        _ => return None,', '    })', '}', '']
    for n in sorted(T): o.append('static T%d: [u16; 96] = [%s];' % (n, ', '.join('0x%x' % x for x in T[n])))
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    root = sys.argv[1] if len(sys.argv) > 1 else '/verif'
    open(root + '/contracts/spec/f_tables.rs', 'w').write(rust())
    open(root + '/falsify/src/tables.rs', 'w').write(native())
