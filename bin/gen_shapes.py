#!/usr/bin/env python3
"""Writes spec/JoinShapes.tla and harness/src/join_shapes.rs from one list of join operand shapes.

A shape is a nested tuple: leaves name an operand and the mask it takes (1..3).
"""
import os, sys, itertools

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---- leaves -------------------------------------------------------------------------------------
def B(k): return ('B', k)      # &BitSet
def BV(k): return ('BV', k)    # BitSet
def A(k): return ('A', k)      # &AtomicBitSet
def AV(k): return ('AV', k)
ALL = ('ALL',)
ALLR = ('ALLR',)
def S(k): return ('S', k)      # &MaskedStorage
def SM(k): return ('SM', k)
def G(k): return ('G', k)      # guard()
def R(k): return ('R', k)      # &ReadComponent
def W(k): return ('W', k)
def WG(k): return ('WG', k)    # WriteComponent::guard()
D = ('D',)                     # modified(), storage 3, modified set m[2]
DM = ('DM',)
WD = ('WD',)                   # the same through the world
WDM = ('WDM',)
def E(k): return ('E', k)      # &Allocator
N = ('N', 1)                   # &Entities
def LIVE(k): return ('LIVE', k)  # Allocator::live_bitset()
def MASK(k): return ('MASK', k)  # MaskedStorage::mask()
def NOT(x): return ('NOT', x)
def AND(x, y): return ('AND', x, y)
def OR(x, y): return ('OR', x, y)
def XOR(x, y): return ('XOR', x, y)
def REF(x): return ('REF', x)  # reference to a compound mask
def MB(x): return ('MAYBE', x)
def DYN(x): return ('DYN', x)
def T(*xs): return ('T',) + xs

shapes = []
def add(x, par=True): shapes.append((x, par))

# single operands
for x in [B(1), BV(1), A(1), AV(1), ALL, ALLR, S(1), S(2), S(3), SM(1), SM(2), SM(3), G(1), G(2), G(3), R(1), R(2), R(3),
          W(1), W(2), W(3), WG(1), WG(2), WG(3), D, DM, WD, WDM, E(1), N, LIVE(1), MASK(1)]:
    add(x)
# combinators over one and two sets
for x in [NOT(B(1)), NOT(A(1)), NOT(ALL), NOT(NOT(B(1))), AND(B(1), B(2)), OR(B(1), B(2)), XOR(B(1), B(2)),
          AND(A(1), BV(2)), OR(A(1), BV(2)), XOR(AV(1), A(2)),
          AND(B(1), NOT(B(2))), AND(NOT(B(1)), B(2)), AND(NOT(B(1)), NOT(B(2))),
          OR(B(1), NOT(B(2))), OR(NOT(B(1)), B(2)), OR(NOT(B(1)), NOT(B(2))),
          XOR(B(1), NOT(B(2))), XOR(NOT(B(1)), B(2)), XOR(NOT(B(1)), NOT(B(2))),
          AND(B(1), ALL), AND(ALL, B(1)), OR(B(1), ALL), OR(ALL, B(1)), XOR(B(1), ALL), XOR(ALL, B(1)), AND(ALL, ALL),
          NOT(AND(B(1), B(2))), NOT(OR(B(1), B(2))), NOT(XOR(B(1), B(2))),
          NOT(OR(NOT(B(1)), NOT(B(2)))), NOT(AND(NOT(B(1)), NOT(B(2)))),
          NOT(AND(NOT(B(1)), B(2))), NOT(OR(NOT(B(1)), B(2))), NOT(OR(B(1), NOT(B(2)))),
          REF(NOT(B(1))), REF(AND(B(1), B(2))), REF(OR(B(1), B(2))), REF(NOT(NOT(B(1)))),
          REF(AND(NOT(B(1)), B(2))), REF(OR(NOT(B(1)), B(2))), REF(AND(ALL, NOT(B(1)))),
          NOT(REF(NOT(B(1)))), AND(REF(NOT(B(1))), ALLR), OR(REF(AND(B(1), B(2))), REF(B(2))),
          AND(REF(REF(ALL)), REF(B(1))), LIVE(2), AND(MASK(1), LIVE(2)), OR(LIVE(1), NOT(MASK(2)))]:
    add(x)
# three sets, mixed
for x in [AND(B(1), OR(B(2), NOT(B(3)))), OR(AND(B(1), NOT(B(2))), B(3)), XOR(OR(B(1), B(2)), AND(B(2), B(3))),
          OR(AND(B(1), B(2)), NOT(NOT(B(3)))), AND(OR(NOT(B(1)), B(2)), B(3)), XOR(XOR(B(1), B(2)), B(3)),
          NOT(AND(B(1), OR(NOT(B(2)), B(3)))), OR(OR(A(1), A(2)), A(3)), AND(AND(B(1), NOT(B(2))), NOT(B(3))),
          AND(NOT(B(1)), AND(NOT(B(2)), NOT(B(3)))), XOR(AND(B(1), B(2)), NOT(B(3)))]:
    add(x)
# tuples of two
two = [S(1), SM(2), G(3), B(2), NOT(B(2)), ALL, E(1), MB(S(2)), MB(SM(3)), R(1), W(2)]
for x, y in [(S(1), S(2)), (S(1), SM(2)), (SM(2), S(1)), (SM(1), SM(2)), (G(3), S(1)), (S(1), B(2)), (B(1), S(2)), (B(1), B(2)),
             (S(1), NOT(B(2))), (NOT(B(1)), S(2)), (SM(3), NOT(A(1))), (B(1), ALL), (ALL, B(1)), (ALL, ALL), (NOT(B(1)), NOT(B(2))),
             (E(1), S(2)), (S(1), E(2)), (E(1), SM(3)), (E(1), NOT(MASK(2))), (E(1), AND(MASK(2), NOT(B(3)))), (E(1), E(2)),
             (S(1), MB(S(2))), (MB(S(1)), S(2)), (S(1), MB(SM(3))), (SM(1), MB(G(2))), (MB(S(1)), MB(S(2))), (MB(SM(1)), MB(SM(2))), (E(1), MB(SM(2))),
             (MB(ALL), B(1)), (B(1), MB(MB(S(2)))), (B(1), MB(NOT(B(2)))), (MB(B(1)), NOT(B(2))),
             (R(1), W(2)), (W(1), R(2)), (WG(3), R(1)), (N, W(2)), (N, MB(R(2))), (R(3), NOT(B(1))), (N, WD), (WDM, R(1)),
             (D, S(1)), (D, MB(S(1))), (S(1), DM), (MB(D), S(1)), (E(1), D), (D, NOT(B(1))), (DM, B(1)),
             (OR(B(1), B(2)), S(3)), (XOR(B(1), B(2)), SM(3)), (OR(NOT(B(1)), B(2)), S(3)), (AND(NOT(B(1)), NOT(B(2))), S(3)),
             (BV(1), AV(2)), (S(1), S(1)), (R(2), R(2)), (B(1), NOT(B(1))), (LIVE(1), S(2))]:
    add(T(x, y))
# tuples of three, with every position of an unconstraining member
for xs in [(S(1), S(2), S(3)), (SM(1), SM(2), SM(3)), (G(1), SM(2), S(3)), (R(1), W(2), W(3)), (B(1), B(2), B(3)), (E(1), S(2), SM(3)),
           (E(1), SM(2), MB(S(3))), (MB(S(1)), S(2), MB(SM(3))), (S(1), NOT(B(2)), S(3)), (NOT(B(1)), S(2), S(3)), (S(1), S(2), NOT(B(3))),
           (NOT(B(1)), NOT(B(2)), S(3)), (NOT(B(1)), NOT(B(2)), NOT(B(3))), (ALL, S(2), NOT(B(3))), (ALL, ALL, S(1)), (ALL, ALL, ALL),
           (MB(S(1)), MB(S(2)), MB(S(3))), (MB(S(1)), MB(S(2)), B(3)), (S(1), D, MB(B(3))), (E(1), DM, MB(S(2))),
           (E(1), MB(SM(2)), MB(G(3))), (N, MB(W(2)), MB(WG(3))), (R(1), MB(R(2)), NOT(B(3)))]:
    add(T(*xs))
# nested tuples, optional tuples
for x in [T(S(1)), T(T(S(1), S(2)), S(3)), T(S(1), T(S(2), S(3))), T(T(SM(1), NOT(B(2))), T(B(3))), T(S(1), MB(T(S(2), S(3)))),
          MB(T(S(1), S(2))), T(B(1), MB(T(SM(2), MB(S(3))))), T(T(T(S(1)))), T(MB(T(B(1), NOT(B(2)))), S(3)), T(ALL), T(T(ALL, NOT(B(1))), T(MB(S(2)))),
          T(E(1), T(MB(S(2)), MB(S(3))))]:
    add(x)
# dynamic masks
for x in [DYN(B(1)), DYN(A(1)), DYN(NOT(B(1))), DYN(AND(B(1), NOT(B(2)))), DYN(OR(B(1), B(2))), DYN(ALL)]:
    add(x, False)
for xs in [(DYN(B(1)), S(2)), (S(1), DYN(NOT(B(2)))), (DYN(B(1)), MB(DYN(B(2)))), (SM(1), DYN(XOR(B(2), B(3)))), (MB(S(1)), DYN(ALL)),
           (DYN(NOT(B(1))), DYN(OR(B(2), B(3))))]:
    add(T(*xs), False)
# one tuple of every arity; the member that restricts most is at the front, the middle, the end
def wide(n, at, x, fill):
    xs = [fill[j % len(fill)] for j in range(n)]
    xs[at] = x
    return T(*xs)
for n in range(4, 27):
    add(wide(n, n - 1, B(2), [S(1), MB(R(2)), B(1)]), par=n in (4, 5, 8, 12, 13, 16, 20, 25, 26))
for n, at in [(5, 0), (5, 2), (13, 6), (26, 0), (26, 13), (26, 25)]:
    add(wide(n, at, B(1), [ALL, MB(S(2)), NOT(B(3))]), par=n in (5, 26))
for n in (4, 7, 26):
    add(wide(n, n // 2, SM(2), [ALL, MB(S(1))]), par=n == 4)
    add(wide(n, 0, ALL, [ALL, MB(S(1))]), par=False)
    # distinct members, so that a permuted access shows
    pool = [S(1), S(2), R(1), R(3), B(1), E(2), MB(R(2)), MB(S(3)), MB(B(3)), NOT(NOT(B(1)))]
    add(T(*[pool[j % len(pool)] for j in range(n)]), par=n != 26)

# ---- checks -------------------------------------------------------------------------------------
BITS = {'B', 'BV', 'A', 'AV', 'ALL', 'ALLR', 'NOT', 'AND', 'OR', 'XOR', 'REF', 'LIVE', 'MASK'}
def dyn(x): return x[0] == 'DYN' or any(dyn(y) for y in x[1:] if isinstance(y, tuple))
def leaves(x):
    r = [] if any(isinstance(y, tuple) for y in x[1:]) else [x]
    for y in x[1:]:
        if isinstance(y, tuple): r += leaves(y)
    return r
def masks(x):
    m = set()
    for l in leaves(x):
        if l[0] in ('D', 'DM'): m |= {2, 3}
        elif l[0] in ('WD', 'WDM'): m |= {2, 3}
        elif len(l) > 1: m.add(l[1])
    return sorted(m)

# ---- TLA+ ---------------------------------------------------------------------------------------
def tla(x):
    k = x[0]
    if k in ('T',): return '[k |-> "T", xs |-> <<%s>>]' % ', '.join(tla(y) for y in x[1:])
    if k in ('NOT', 'MAYBE', 'REF', 'DYN'): return '[k |-> "%s", x |-> %s]' % (k, tla(x[1]))
    if k in ('AND', 'OR', 'XOR'): return '[k |-> "%s", x |-> %s, y |-> %s]' % (k, tla(x[1]), tla(x[2]))
    if len(x) == 1: return '[k |-> "%s"]' % k
    return '[k |-> "%s", m |-> %d]' % (k, x[1])

# ---- Rust ---------------------------------------------------------------------------------------
CT = {1: 'JA', 2: 'JB', 3: 'JC'}
def rs(x):
    k = x[0]
    m = x[1] if len(x) > 1 and isinstance(x[1], int) else None
    return {
        'B': lambda: f'&f.b{m}', 'BV': lambda: f'f.b{m}.clone()', 'A': lambda: f'&f.a{m}', 'AV': lambda: f'atomic(&f.b{m})',
        'ALL': lambda: 'BitSetAll', 'ALLR': lambda: '&BitSetAll', 'S': lambda: f'&f.s{m}', 'SM': lambda: f'&mut f.s{m}',
        'G': lambda: f'f.s{m}.guard()', 'R': lambda: f'&f.w.read_component::<{CT.get(m)}>()',
        'W': lambda: f'&mut f.w.write_component::<{CT.get(m)}>()', 'WG': lambda: f'f.w.write_component::<{CT.get(m)}>().guard()',
        'D': lambda: 'f.s3.modified()', 'DM': lambda: 'f.s3.modified_mut()',
        'WD': lambda: 'f.w.read_component::<JC>().modified()', 'WDM': lambda: 'f.w.write_component::<JC>().modified_mut()',
        'E': lambda: f'&f.e{m}', 'N': lambda: '&f.w.entities()', 'LIVE': lambda: f'f.e{m}.live_bitset()', 'MASK': lambda: f'f.s{m}.mask()',
        'NOT': lambda: f'BitSetNot({rs(x[1])})', 'AND': lambda: f'BitSetAnd({rs(x[1])}, {rs(x[2])})',
        'OR': lambda: f'BitSetOr({rs(x[1])}, {rs(x[2])})', 'XOR': lambda: f'BitSetXor({rs(x[1])}, {rs(x[2])})',
        'REF': lambda: f'&{rs(x[1])}', 'DYN': lambda: f'&{rs(x[1])} as &dyn BitSetLike', 'MAYBE': lambda: f'({rs(x[1])}).maybe()',
        'T': lambda: '(' + ''.join(rs(y) + ', ' for y in x[1:]) + ')',
    }[k]()

def needs(x):
    r = set()
    for l in leaves(x):
        k = l[0]
        if k in ('B', 'BV', 'AV'): r.add(f'b{l[1]}')
        elif k == 'A': r.add(f'a{l[1]}')
        elif k in ('S', 'SM', 'G', 'MASK'): r.add(f's{l[1]}')
        elif k in ('R', 'W', 'WG'): r.add(f'w{l[1]}')
        elif k in ('D', 'DM'): r |= {'s3', 'd'}
        elif k in ('WD', 'WDM'): r |= {'w3', 'wd'}
        elif k in ('E', 'LIVE'): r.add(f'e{l[1]}')
        elif k == 'N': r.add('n')
    return sorted(r)

def main():
    seen = set()
    out = []
    for s in shapes:
        if s[0] not in seen:
            seen.add(s[0]); out.append(s)
    t = ['---------------------------- MODULE JoinShapes ----------------------------',
         '(* Written by bin/gen_shapes.py: the operand shapes of which joins are checked. *)',
         'Shapes == <<']
    rows = []
    for x, par in out:
        n = needs(x)
        rows.append('  [a |-> %s,\n   ms |-> {%s}, checked |-> %s, par |-> %s, src |-> {%s}]' % (
            tla(x), ', '.join(map(str, masks(x))), 'FALSE' if dyn(x) else 'TRUE', 'TRUE' if par else 'FALSE',
            ', '.join('"%s"' % y for y in n)))
    t.append(',\n'.join(rows))
    t += ['>>', '=' * 77, '']
    open(f'{ROOT}/spec/JoinShapes.tla', 'w').write('\n'.join(t))
    r = ['// Written by bin/gen_shapes.py.', '#![allow(unused_parens)]', 'use super::*;', '',
         '#[rustfmt::skip]', 'pub fn run(id: usize, op: &str, f: &mut Fix) -> Out {', '    match id {']
    for i, (x, par) in enumerate(out, 1):
        mode = 'unchecked' if dyn(x) else 'par' if par else 'seq'
        r.append(f'        {i} => s{i}(op, f),')
    r += ['        _ => panic!("harness: no shape {id}"),', '    }', '}', '']
    for i, (x, par) in enumerate(out, 1):
        mode = 'unchecked' if dyn(x) else 'par' if par else 'seq'
        r.append(f'#[rustfmt::skip]\nfn s{i}(op: &str, f: &mut Fix) -> Out {{\n    f.need(&[{", ".join(chr(34) + y + chr(34) for y in needs(x))}]);\n    ops!({mode}, op, f, {rs(x)})\n}}')
    r.append('')
    open(f'{ROOT}/harness/src/join_shapes.rs', 'w').write('\n'.join(r))
    print(len(out), 'shapes', sum(1 for _, p in out if p), 'parallel')

main()
