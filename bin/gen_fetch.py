#!/usr/bin/env python3
"""Writes spec/FetchShapes.tla and harness/src/fetch_shapes.rs from one list of fetchable shapes.

Leaves: ('R', t) and ('W', t) read and write type t, ('E',) the entity list, ('NONE',) nothing.
In a world, types 1 and 3 are resources and type 2 is a component with the Rust type of type 1; in
a resource set all three are resources.  Type 3 is not Sync, so it is only ever written.
"""
import itertools, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def R(t): return ('R', t)
def W(t): return ('W', t)
E, NONE = ('E',), ('NONE',)
def T(*x): return ('T',) + x
L = [R(1), W(1), R(2), W(2), W(3), E, NONE]
shapes = list(L)
shapes += [T(x) for x in (R(1), W(2), E, NONE)]
shapes += [T(x, y) for x in L for y in L]
for xs in [(R(1), R(2), W(3)), (R(1), R(1), R(1)), (R(1), R(1), W(1)), (W(1), R(1), R(1)), (R(1), W(1), R(1)), (W(1), W(2), W(3)),
           (W(1), R(2), W(1)), (R(2), E, W(2)), (E, E, W(2)), (W(2), E, R(2)), (NONE, W(1), NONE), (W(1), NONE, W(1)), (W(3), R(1), W(3)),
           (W(3), W(2), R(2)), (R(2), W(1), R(2)), (R(1), R(2), R(1)), (W(2), R(1), W(2)), (E, R(1), E)]:
    shapes.append(T(*xs))
for x in [T(T(R(1), R(2)), W(3)), T(R(1), T(R(2), W(3))), T(T(R(1), W(2)), T(R(1), R(2))), T(T(W(1)), T(W(1))), T(T(W(1), R(1)), W(3)), T(W(3), T(R(2), W(2))),
          T(T(T(R(1)))), T(T(R(1), NONE), T(NONE, R(1))), T(T(W(2), E), R(1)), T(T(R(1), R(1)), T(R(1), T(W(2)))), T(T(NONE), T(W(3), T(W(3))))]:
    shapes.append(x)
# every arity: harmless, one clash between first and last, one clash in the middle, a failing last member
def pad(n, at):
    xs = [[R(1), R(2), NONE, E][j % 4] for j in range(n)]
    for k, v in at.items(): xs[k] = v
    return T(*xs)
for n in range(4, 27):
    shapes.append(pad(n, {n - 1: W(3)}))
    shapes.append(pad(n, {0: W(3), n - 1: W(3)}))
    shapes.append(pad(n, {n - 1: W(1)}))
for n in (4, 8, 13, 26):
    shapes.append(T(*([NONE] * (n - 1) + [W(1)])))
    shapes.append(T(*([R(1)] * (n // 2) + [W(2)] + [R(1)] * (n - n // 2 - 1))))
    shapes.append(T(*([R(2)] * (n - 1) + [W(2)])))

def tla(x):
    if x[0] == 'T': return '[k |-> "T", xs |-> <<%s>>]' % ', '.join(map(tla, x[1:]))
    if len(x) == 1: return '[k |-> "%s"]' % x[0]
    return '[k |-> "%s", t |-> %d]' % x
def rs(x, world):
    if x[0] == 'T': return '(' + ''.join(rs(y, world) + ',' for y in x[1:]) + ')'
    if x[0] == 'NONE' or (x[0] == 'E' and not world): return 'NoneW' if world else 'NoneS'
    if x[0] == 'E': return "Entities<'static>"
    k, t = x
    if not world: return ('Read' if k == 'R' else 'Write') + "<'static, T%d>" % t
    if t == 2: return ('ReadComponent' if k == 'R' else 'WriteComponent') + "<'static, T1>"
    return ('ReadResource' if k == 'R' else 'WriteResource') + "<'static, T%d>" % t
def main():
    out = []
    for s in shapes:
        if s not in out: out.append(s)
    open(f'{ROOT}/spec/FetchShapes.tla', 'w').write('\n'.join(
        ['---------------------------- MODULE FetchShapes ----------------------------', '(* Written by bin/gen_fetch.py. *)', 'Shapes == <<',
         ',\n'.join('  ' + tla(x) for x in out), '>>', '=' * 76, '']))
    def fns(world):
        w = 'World' if world else 'ResourceSet'
        n = 'world' if world else 'set'
        c = ''.join(f'        {i} => act!({n}, op, src, {rs(x, world)}),\n' for i, x in enumerate(out, 1))
        return f'#[rustfmt::skip]\npub fn {n}(id: usize, op: Act, src: &\'static {w}) -> Done {{\n    match id {{\n{c}        _ => panic!("harness: shape {{id}}"),\n    }}\n}}\n'
    open(f'{ROOT}/harness/src/fetch_shapes.rs', 'w').write('// Written by bin/gen_fetch.py.\nuse super::*;\n\n' + fns(False) + '\n' + fns(True))
    print(len(out), 'shapes')
main()
