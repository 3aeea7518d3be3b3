"""Programs generated from a specification, compiled and run against the crate.

Borrows.tla and Threads.tla enumerate what a program may try to do with the library and say which
attempts would be unsound.  Here every such behaviour becomes the source of a Rust function; the
compiler's verdict and, where it accepts, the outcome of running it are the code's answer.
"""
import glob, json, os, random, re, signal, subprocess, shutil, threading
import concurrent.futures as cf

# ------------------------------------------------------------------ Borrows

STORES, STORESM = {'st', 'sts', 'stm'}, {'st', 'stm'}
COMPS, COMPSM = {'RC', 'WC', 'CA'}, {'WC', 'CA'}


def borrow_program(p, elem):
    """Rust statements for one program of Borrows.tla, or None if it cannot be said in Rust."""
    out, types, names, uses = ['let mut bits = bits();'], {}, {}, {}
    n = 0
    steps = p['prog']

    def new(t):
        nonlocal n
        n += 1
        types[n], names[n] = t, f'h{n}'
        return f'h{n}'

    for s in steps:
        m, i = s['m'], s['h']
        if s['k'] == 'root':
            h = new(m)
            out.append({'st': f'let mut {h} = mk_st::<{elem}>();',
                        'w': f'let (mut {h}, e) = mk_w::<{elem}>();',
                        'rs': f'let mut {h} = mk_rs();',
                        'set': f'let mut {h} = mk_set::<{elem}>();',
                        'cset': f'let mut {h} = mk_cset::<{elem}>();',
                        'ms': f'let mut {h} = MakeSync::new({elem}::new());'}[m])
            continue
        t, h = types[i], names[i]
        comp = t in COMPS
        key = 'e' if comp else '0'
        shared = f'(&*{h})' if t in ('sts', 'stm') else f'(&{h})'
        mut = f'(&mut *{h})' if t == 'stm' else f'(&mut {h})'
        if s['k'] == 'use':
            if p.get('bad') != '' or True:
                out.append(uses[i])
            out.append('reached();')
            continue
        if s['k'] == 'release':
            out.append(f'drop({h});')
            continue
        if s['k'] == 'op':
            full = f'{elem}::new()'
            other = f'mk_set::<{elem}>()' if t == 'set' else f'mk_cset::<{elem}>()'
            o = {('insert', 's'): f'let _o = {h}.insert(0, {full});',
                 ('insert_far', 's'): f'let _o = {h}.insert(70000, {full});',
                 ('goi_far', 's'): f'{h}.get_or_insert_with(70000, || {full});',
                 ('remove', 's'): f'let _o = {h}.remove(0);',
                 ('take', 's'): f'let _o = std::mem::take({mut});',
                 ('raw_take', 's'): f'let _o = std::mem::take({h}.raw_storage_mut());',
                 ('raw_replace', 's'): f'*{h}.raw_storage_mut() = Default::default();',
                 ('insert', 'c'): f'let _o = {h}.insert(e, {full});',
                 ('remove', 'c'): f'let _o = {h}.remove(e);',
                 ('delete_entity', 'w'): f'let _o = {h}.delete_entity(e);',
                 ('create_entity', 'w'): f'let _o = {h}.create_entity();',
                 ('merge', 'w'): f'{h}.merge();',
                 ('insert_component', 'w'): f'let _o = {h}.insert_component::<{elem}>();',
                 ('remove_component', 'w'): f'let _o = {h}.remove_component::<{elem}>();',
                 ('into_world', 'w'): f'let _o = mk_set::<{elem}>().insert_into_world(&mut {h}, e);',
                 ('insert_resource', 'w'): f'let _o = {h}.insert_resource(v());',
                 ('remove_resource', 'w'): f'let _o = {h}.remove_resource::<V>();',
                 ('insert', 'rs'): f'let _o = {h}.insert(v());',
                 ('remove', 'rs'): f'let _o = {h}.remove::<V>();',
                 ('insert', 'set'): f'let _o = {h}.insert({full});',
                 ('insert', 'cset'): f'let _o = {h}.insert({full});',
                 ('remove', 'set'): f'let _o = {h}.remove::<{elem}>();',
                 ('merge', 'set'): f'{h}.merge({other});',
                 ('merge', 'cset'): f'{h}.merge({other});',
                 ('merged', 'set'): f'{{ let mut o = {other}; o.merge({h}); }}',
                 ('merged', 'cset'): f'{{ let mut o = {other}; o.merge({h}); }}',
                 ('into_world', 'set'): f'{{ let (mut w, e) = mk_w::<{elem}>(); let _o = {h}.insert_into_world(&mut w, e); }}',
                 ('into_inner', 'ms'): f'let _o = {h}.into_inner();',
                 }
            k = 's' if t in STORES else 'c' if comp else t
            out.append(f'drop({h});' if m == 'drop' else o[(m, k)])
            continue
        # a derivation
        v = new(s['to'])
        kind = None  # how a resulting reference is used
        if m in ('copy', 'clone'):
            e = h if m == 'copy' else f'Clone::clone(&{h})'
        elif t in STORES or comp:
            if m.startswith('both_'):
                a, b = m[5], m[6]
                opd = {'s': shared, 'm': mut, 'g': f'{h}.guard()', 'o': f'{h}.modified_mut()'}
                v2 = new('ref')
                types[n - 1] = 'ref'
                out.append(f'let (mut {v}, mut {v2}) = ({opd[a]}, {opd[b]}).join().next().unwrap();')
                for x, k in ((v, a), (v2, b)):
                    if k == 'g':
                        out.append(f'let {x} = {x}.get_mut();')
                    if k == 'o':
                        out.append(f'let {x} = {x}.unwrap();')
                out.append(f'touch(&*{v2});' if b == 's' else f'poke(&mut *{v2});')
                uses[n - 1] = f'touch(&*{v});' if a == 's' else f'poke(&mut *{v});'
                uses[n] = f'touch(&*{v2});'
                continue
            e, kind = {
                'get': (f'{h}.get({key}).unwrap()', 's'),
                'maybe': (f'(&bits, {shared}.maybe()).join().next().unwrap().1.unwrap()', 's'),
                'triple': (f'(&bits, {shared}, {shared}).join().next().unwrap().2', 's'),
                'as_slice': (f'{h}.as_slice()', 'S'),
                'par': (f'{shared}.par_join().collect::<Vec<_>>()', 'S'),
                'join': (f'{shared}.join()', None),
                'mask': (f'{h}.mask()', 'B'),
                'modified_indexes': (f'{h}.modified_indexes()', 'B'),
                'modified': (f'{h}.modified().join()', None),
                'get_mut': (f'{h}.get_mut({key}).unwrap()', 'm'),
                'goi': (f'{h}.get_or_insert_with({key}, || {elem}::new())' + ('.ok().unwrap()' if comp else ''), 'm'),
                'god': (f'{h}.get_or_default(e).ok().unwrap()', 'm'),
                'maybe_mut': (f'(&bits, {mut}.maybe()).join().next().unwrap().1.unwrap()', 'm'),
                'as_mut_slice': (f'{h}.as_mut_slice()', 'M'),
                'par_mut': (f'{mut}.par_join().collect::<Vec<_>>()', 'P'),
                'par_modified_mut': (f'{h}.modified_mut().par_join().map(|x| x.unwrap()).collect::<Vec<_>>()', 'P'),
                'par_guard': (f'{h}.guard().par_join().collect::<Vec<_>>().into_iter().next().unwrap()', None),
                'join_mut': (f'{mut}.join()', None),
                'modified_mut': (f'{h}.modified_mut().join().map(|x| x.unwrap())', None),
                'guard': (f'{h}.guard()', None),
                'get_guard': (f'{h}.get_guard({key}).unwrap()', None),
                'raw': (f'{h}.raw_storage()', None),
                'raw_mut': (f'{h}.raw_storage_mut()', None),
                'storage': (f'{h}.storage()', None),
                'storage_mut': (f'{h}.storage_mut()', None),
            }[m]
        elif t in ('rw', 'rwm'):
            e, kind = (f'{h}.as_slice()', 'S') if m == 'as_slice' else (f'{h}.as_mut_slice()', 'M')
        elif m == 'next':
            e = f'{h}.next().unwrap()' + ('.unwrap()' if t == 'IO' else '')
            kind = {'IS': 's', 'IO': 's', 'IM': 'm', 'IG': None}[t]
        elif t == 'GJ':
            e = f'{h}.join()'
        elif t == 'G':
            e, kind = (f'{h}.get()', 's') if m == 'get' else (f'{h}.get_mut()', 'm')
        elif t in ('set', 'cset'):
            e, kind = (f'{h}.get::<{elem}>().unwrap()', 's') if m == 'get' else (f'{h}.get_mut::<{elem}>().unwrap()', 'm')
        elif t == 'ms':
            e, kind = (f'{h}.get()', 's') if m == 'get' else (f'{h}.get_mut()', 'm')
        elif t == 'EN':
            e, kind = (f'{h}.live_bitset()', 'L') if m == 'live_bitset' else (f'(&{h}).join()', 'J')
        elif m == 'deref':
            e, kind = f'&*{h}', 's'
        elif m == 'deref_mut':
            e, kind = f'&mut *{h}', 'm'
        else:
            e, kind = {
                ('w', 'read_component'): (f'{h}.read_component::<{elem}>()', None),
                ('w', 'entities'): (f'{h}.entities()', None),
                ('w', 'fetch_en'): (f'{h}.fetch::<(Entities, ReadComponent<{elem}>)>().0', None),
                ('w', 'fetch_rc'): (f'{h}.fetch::<(ReadComponent<{elem}>,)>().0', None),
                ('w', 'write_component'): (f'{h}.write_component::<{elem}>()', None),
                ('w', 'fetch_wc'): (f'{h}.fetch::<(Entities, WriteComponent<{elem}>)>().1', None),
                ('w', 'get_component_mut'): (f'{h}.get_component_mut::<{elem}>()', None),
                ('w', 'get_resource_mut'): (f'{h}.get_resource_mut::<V>()', 'm'),
                ('w', 'read_resource'): (f'{h}.read_resource::<V>()', None),
                ('w', 'write_resource'): (f'{h}.write_resource::<V>()', None),
                ('w', 'fetch_rr'): (f'{h}.fetch::<(ReadResource<V>,)>().0', None),
                ('w', 'fetch_wr'): (f'{h}.fetch::<(WriteResource<V>,)>().0', None),
                ('rs', 'borrow'): (f'{h}.borrow::<V>()', None),
                ('rs', 'borrow_mut'): (f'{h}.borrow_mut::<V>()', None),
                ('rs', 'fetch_r'): (f'{h}.fetch::<Read<V>>()', None),
                ('rs', 'fetch_w'): (f'{h}.fetch::<(Write<V>,)>().0', None),
                ('rs', 'get_mut'): (f'{h}.get_mut::<V>()', 'm'),
            }[(t, m)]
        out.append(f'let mut {v} = {e};')
        if kind:
            uses[n] = {'B': f'bits_of({v});', 'L': f'bits_of(&{v});', 'J': f'while {v}.next().is_some() {{}}',
                       's': f'touch(&*{v});', 'm': f'poke(&mut *{v});', 'S': f'for x in {v}.iter() {{ touch(&**x) }}',
                       'M': f'for x in {v}.iter_mut() {{ poke(x) }}', 'P': f'for x in {v}.iter_mut() {{ poke(&mut **x) }}'}[kind]
            if kind == 'S' and m == 'as_slice':
                uses[n] = f'for x in {v}.iter() {{ touch(x) }}'
    return out


def elems(p):
    """Component types a program is written with."""
    ms = {(s['m']) for s in p['prog'] if s['k'] == 'derive'}
    dense = bool(ms & {'as_slice', 'as_mut_slice'})
    flag = any('modified' in m for m in ms) or any(m.startswith('both_') and 'o' in m[5:] for m in ms)
    if dense and flag:
        return []
    if p['bad'] == 'hollow':
        return ['Dense'] if dense else ['FlagDense', 'FlagVec'] if flag else ['Vecs', 'Dense', 'Hash', 'FlagVec']
    return ['Dense'] if dense else ['FlagDense']


def borrow_name(p):
    return '.'.join((s['m'] if s['k'] != 'derive' else f"{s['m']}@{s['h']}") for s in p['prog'])


def control(p):
    """One chain and one use: the compiler should accept these."""
    if any(s['k'] in ('op', 'release') or s['m'] in ('copy', 'clone') for s in p['prog']):
        return False
    return sum(1 for s in p['prog'] if s['to'] == 'ref' and s['k'] == 'derive') == 1


def borrow_sources(progs, seed=1, extra=0):
    """[(name, kind of program, source lines)] without duplicates; `extra` of the harmless programs
    besides the controls, each with one of the component types it can be written with."""
    res, seen = [], set()
    rng = random.Random(seed)

    def add(p, el, **more):
        src = borrow_program(p, el)
        text = '\n'.join(src)
        if text not in seen:
            seen.add(text)
            res.append(dict(name=borrow_name(p) + ':' + el, bad=p['bad'], src=src, **more))

    for p in progs:
        if p['bad'] or control(p):
            for el in elems(p):
                add(p, el)
    rest = [p for p in progs if not p['bad'] and not control(p)]
    rng.shuffle(rest)
    for p in rest[:extra]:
        kinds = elems(dict(p, bad='hollow'))
        if kinds:
            add(p, rng.choice(kinds), extra=True)
    return res


# ------------------------------------------------------------------ Threads

CLASS = {(True, True): 'SendSync', (True, False): 'SendOnly', (False, True): 'SyncOnly', (False, False): 'Neither'}
KIND = {'vec': 'KVec', 'dense': 'KDense', 'hash': 'KHash', 'flag': 'KFlag', 'flagdense': 'KFlagDense'}


def cross(how, body, keep=''):
    """The thing is in `c`; `body` runs in thread 2 with `c`; `keep` in thread 1 meanwhile."""
    if how == 'ref':
        return ['let c = &c;', 'std::thread::scope(|s| {', f's.spawn(move || {{ let c = c; {body} }});', keep, '});']
    if how == 'mut':
        return ['let c = &mut c;', f'std::thread::scope(|s| {{ s.spawn(move || {{ let c = c; {body} }}); }});']
    if how == 'move':
        return [f'std::thread::scope(|s| {{ s.spawn(move || {{ let mut c = c; {body} }}); }});']
    if how == 'arc':
        return ['let c = std::sync::Arc::new(c); let d = c.clone();',
                f'let t = std::thread::spawn(move || {{ let c = d; let c = &*c; {body} }});',
                'let c = &*c;', keep, 't.join().unwrap();']
    raise KeyError(how)


def send(make, body, keep=''):
    """A handle `h` made in thread 1 goes to thread 2."""
    return [make, f'std::thread::scope(|s| {{ s.spawn(move || {{ let mut h = h; {body} }}); {keep} }});']


def thread_program(p):
    T = CLASS[(p['send'], p['sync'])]
    box, how, m = p['box'], p['cross'], p['reach']
    kind = box.split('_')[1] if '_' in box else 'vec'
    V = f'C<{T}, {KIND[kind]}>'
    pre = [f'type T = {V};']
    b = box.split('_')[0]
    if b == 'ms':
        pre += ['let mut c = MaskedStorage::<<T as Component>::Storage>::default();', 'c.insert(0, T::default());']
        if kind.startswith('flag'):
            pre += ['c.set_track_modified(true); c.mark_modified(0);']
        if how in ('ref', 'arc'):
            e = {'get': 'shr(c.get(0).unwrap());', 'join': 'for x in c.join() { shr(x) }', 'as_slice': 'shr(&c.as_slice()[0]);',
                 'maybe': 'for x in c.maybe().join_unconstrained().take(1) { shr(x.unwrap()) }'}[m]
            return pre + cross(how, e, 'shr(c.get(0).unwrap());')
        if how == 'mut':
            return pre + cross(how, {'get_mut': 'exc(c.get_mut(0).unwrap());', 'remove': 'own(c.remove(0));',
                                     'insert': 'own(c.insert(0, T::default()));', 'as_mut_slice': 'exc(&mut c.as_mut_slice()[0]);',
                                     'goi': 'exc(c.get_or_insert_with(0, || T::default()));',
                                     'guard': 'exc(c.get_guard(0).unwrap().get_mut());',
                                     'join_mut': 'for x in c.join() { exc(x) }'}[m])
        if how == 'move':
            return pre + cross(how, {'drop': 'drop(c);', 'get_mut': 'exc(c.get_mut(0).unwrap());'}[m])
        if how == 'rayon':
            return pre + [{'par': '(&c).par_join().for_each(|x| shr(x));',
                           'par_unchecked': '(&c).par_join_unconstrained().for_each(|x| shr(x));',
                           'par_maybe': 'let b = bits(); (&b, (&c).maybe()).par_join().for_each(|x| shr(&x));',
                           'par_tuple': '(&c, &c).par_join().for_each(|x| shr(x.1));',
                           'par_modified': 'c.modified().par_join().for_each(|x| shr(&x));',
                           'par_mut': '(&mut c).par_join().for_each(|x| exc(x));',
                           'par_mut_unchecked': '(&mut c).par_join_unconstrained().for_each(|x| exc(x));',
                           'par_maybe_mut': 'let b = bits(); (&b, (&mut c).maybe()).par_join().for_each(|mut x| exc(&mut x));',
                           'par_tuple_mut': 'let b = bits(); (&b, &mut c).par_join().for_each(|x| exc(x.1));',
                           'par_guard': 'c.guard().par_join().for_each(|mut g| exc(g.get_mut()));',
                           'par_modified_mut': 'c.modified_mut().par_join().for_each(|mut x| exc(&mut x));'}[m]]
        return pre + {'guard': lambda: send('let h = c.get_guard(0).unwrap();', 'exc(h.get_mut());'),
                      'guard_ref': lambda: send('let g = c.get_guard(0).unwrap(); let h = &g;', 'shr(h.get());', 'shr(g.get());'),
                      'guarded_join': lambda: send('let h = c.guard();', 'for mut g in h.join() { exc(g.get_mut()) }'),
                      'iter_mut': lambda: send('let h = (&mut c).join();', 'for x in h { exc(x) }'),
                      'par_iter_mut': lambda: send('let h = JoinParIter::new_unconstrained(&mut c);', 'own(h);')
                      if False else send('let h = (&mut c).par_join();', 'h.for_each(|x| exc(x));'),
                      'iter': lambda: send('let h = (&c).join();', 'for x in h { shr(x) }', 'shr(c.get(0).unwrap());'),
                      'modified_mut': lambda: send('let h = c.modified_mut();', 'for mut x in h.join() { exc(&mut x) }'),
                      'modified': lambda: send('let h = c.modified();', 'for x in h.join() { shr(&x) }', 'shr(c.get(0).unwrap());'),
                      }[how]()
    if b == 'raw':
        pre += ['let mut c = <T as Component>::Storage::default();', 'unsafe { c.insert(0, T::default()) };']
        if m == 'get':
            return pre + cross(how, 'shr(unsafe { c.get(0) });', 'shr(unsafe { c.get(0) });')
        return pre + cross(how, 'exc(unsafe { c.get_mut(0) });')
    if b in ('rs', 'w'):
        w = b == 'w'
        pre += [f'let mut c = {"World" if w else "ResourceSet"}::new();', f'c.{"insert_resource" if w else "insert"}(T::default());']
        r, wr = ('read_resource', 'write_resource') if w else ('borrow', 'borrow_mut')
        fr, fw = ('(ReadResource<T>,)', '(WriteResource<T>,)') if w else ('(Read<T>,)', '(Write<T>,)')
        e = {'borrow': f'shr(&*c.{r}::<T>());', 'fetch_read': f'shr(&*c.fetch::<{fr}>().0);',
             'borrow_mut': f'exc(&mut *c.{wr}::<T>());', 'fetch_write': f'exc(&mut *c.fetch::<{fw}>().0);',
             'get_mut': f'exc(c.{"get_resource_mut" if w else "get_mut"}::<T>());',
             'remove': f'own(c.{"remove_resource" if w else "remove"}::<T>());', 'drop': 'drop(c);'}
        if m in e:
            return pre + cross(how, e[m], e['borrow'] if m in ('borrow', 'fetch_read') else '')
        make = {'borrow': f'c.{r}::<T>()', 'read': f'c.fetch::<{fr}>().0', 'borrow_mut_ref': f'c.{wr}::<T>()',
                'write_ref': f'c.fetch::<{fw}>().0', 'borrow_mut': f'c.{wr}::<T>()', 'write': f'c.fetch::<{fw}>().0'}[how]
        if how.endswith('_ref'):
            return pre + send(f'let g = {make}; let h = &g;', 'shr(&**h);', 'shr(&*g);')
        if m == 'deref':
            return pre + send(f'let g = {make}; let h = {make};', 'shr(&*h);', 'shr(&*g);')
        return pre + send(f'let h = {make};', 'exc(&mut *h);')
    if b == 'wc':
        pre += ['let mut c = World::new(); c.insert_component::<T>(); let e = c.create_entity();',
                'let _ = c.get_component_mut::<T>().insert(e, T::default());']
        e = {'read': 'shr(c.read_component::<T>().get(e).unwrap());',
             'fetch_read': 'shr(c.fetch::<(ReadComponent<T>,)>().0.get(e).unwrap());',
             'write': 'exc(c.write_component::<T>().get_mut(e).unwrap());',
             'fetch_write': 'exc(c.fetch::<(WriteComponent<T>,)>().0.get_mut(e).unwrap());',
             'component_mut': 'exc(c.get_component_mut::<T>().get_mut(e).unwrap());',
             'delete': 'own(c.delete_entity(e));', 'drop': 'drop(c);', 'remove_component': 'own(c.remove_component::<T>());'}
        if m in e and how in ('ref', 'arc', 'mut', 'move'):
            return pre + cross(how, e[m], e['read'] if m in ('read', 'fetch_read') else '')
        x = {'get': 'shr(h.get(e).unwrap());', 'join': 'for x in (&*h).join() { shr(x) }', 'get_mut': 'exc(h.get_mut(e).unwrap());'}[m]
        if how == 'access':
            return pre + send('let g = c.read_component::<T>(); let h = c.read_component::<T>();', x.replace('&*h', '&h'), 'shr(g.get(e).unwrap());')
        if how == 'access_ref':
            return pre + send('let g = c.read_component::<T>(); let h = &g;', x, 'shr(g.get(e).unwrap());')
        if how == 'access_mut_ref':
            return pre + send('let g = c.write_component::<T>(); let h = &g;', x, 'shr(g.get(e).unwrap());')
        make = {'access_mut': 'c.write_component::<T>()', 'component_mut': 'c.get_component_mut::<T>()'}[how]
        return pre + send(f'let h = {make};', x)
    if b in ('set', 'cset', 'cell'):
        if b == 'cell':
            pre += ['let mut c = MakeSync::new(T::default());']
            g, gm, take = 'shr(c.get());', 'exc(c.get_mut());', 'own(c.into_inner());'
        else:
            pre += [f'let mut c = {"AnyComponentSet" if b == "set" else "AnyCloneComponentSet"}::new(); c.insert(T::default());']
            g, gm = 'shr(c.get::<T>().unwrap());', 'exc(c.get_mut::<T>().unwrap());'
            take = 'own(c.remove::<T>());' if b == 'set' else 'let mut s = AnyComponentSet::new(); c.clone_into_set(&mut s); own(s.remove::<T>());'
        e = {'get': g, 'get_mut': gm, 'take': take, 'drop': 'drop(c);',
             'into_world': 'let mut w = World::new(); w.insert_component::<T>(); let e = w.create_entity(); own(c.insert_into_world(&mut w, e));'}[m]
        return pre + cross(how, e, g if m == 'get' else '')
    # systems
    con = {'par': 'Par::new({0}, {0})', 'parlist': 'goggles::system::ParList(vec![{0}, {0}])', 'parallelize': 'parallelize::<{1}, _>(vec![{0}, {0}])'}[b]
    if m == 'self':
        return pre + [f'let mut s = {con.format("Sys::<T, u8>(T::default(), std::marker::PhantomData)", "()")};', 'let _ = s.run(&RayonPool, ());']
    if m == 'error':
        return pre + [f'let mut s = {con.format("Sys::<u8, T>(0, std::marker::PhantomData)", "()")};', 'let _ = s.run(&RayonPool, ());']
    if m == 'args':
        return pre + ['let a: &\'static T = Box::leak(Box::new(T::default()));',
                      f'let mut s = {con.format("Sys::<u8, u8>(0, std::marker::PhantomData)", "&'static T")};', 'let _ = s.run(&RayonPool, a);']
    return pre + ['let pool = Holder(T::default());', f'let mut s = {con.format("Looks::<T>(std::marker::PhantomData)", "()")};', 'let _ = s.run(&pool, ());']


def thread_sources(progs, **_):
    return [dict(name=f"{p['box']}.{p['cross']}.{p['reach']}:{CLASS[(p['send'], p['sync'])]}",
                 bad='race' if p['bad'] else '', want=p['want'], src=thread_program(p)) for p in progs]


# ------------------------------------------------------------------ compiling and running

HEAD = '''#![allow(warnings)]
extern crate gvp;
use gvp::*;
use gvp::rayon::prelude::*;
'''


def write(path, progs, main, each=None):
    """Returns the line ranges of the programs."""
    lines, spans = HEAD.strip().split('\n'), []
    for p in progs:
        a = len(lines) + 1
        lines.append(f'fn p{p["id"]}() {{')
        lines += ['    ' + x.replace('\n', ' ') for x in p['src']]
        lines.append('}')
        spans.append((a, len(lines), p))
    if each:
        lines += ['fn one(n: usize) {', 'match n {']
        lines += [f'{p["id"]} => p{p["id"]}(),' for p in progs]
        lines += ['_ => {} } }', each]
    if main:
        lines += ['fn main() {', 'std::panic::set_hook(Box::new(|i| hook(&i.to_string())));',
                  'let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();', 'match n {']
        lines += [f'{p["id"]} => p{p["id"]}(),' for p in progs]
        lines += ['_ => {} } }']
    open(path, 'w').write('\n'.join(lines) + '\n')
    return spans


class ProgramError(Exception):
    pass


def rustc(path, ext, deps, out, main, timeout):
    cmd = ['rustc', '--edition', '2021', '--error-format', 'json', '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'opt-level=0',
           '--crate-name', 'progs', '--crate-type', 'bin' if main else 'lib', '--emit', 'link' if main else 'metadata',
           '-L', 'dependency=' + deps, '--extern', 'gvp=' + ext, '-o', out, path]
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise ProgramError('rustc timed out')
    errs = []
    for line in r.stderr.split('\n'):
        if line.startswith('{'):
            d = json.loads(line)
            if d.get('level') in ('error', 'error: internal compiler error'):
                errs.append(d)
    return r.returncode, errs, r.stderr


def verdicts(progs, ext, deps, work, timeout=600):
    """Compile the programs: sets p['refused'] to an error code or ''.  Returns the executable."""
    todo = list(progs)
    for p in todo:
        p['refused'] = ''
    path, out = os.path.join(work, 'progs.rs'), os.path.join(work, 'progs.out')
    for rnd in range(12):
        # metadata only, until the compiler accepts all that is left; then an executable if wanted
        spans = write(path, todo, False)
        rc, errs, log = rustc(path, ext, deps, out, False, timeout)
        if rc == 0:
            break
        bad = set()
        for d in errs:
            sp = [s for s in d['spans'] if s['is_primary'] and s['file_name'] == path] or \
                 [s for s in d['spans'] if s['file_name'] == path]
            for s in sp[:1]:
                lo, hi = 0, len(spans) - 1
                while lo < hi:
                    mid = (lo + hi) // 2
                    if spans[mid][1] < s['line_start']:
                        lo = mid + 1
                    else:
                        hi = mid
                a, z, p = spans[lo]
                if a <= s['line_start'] <= z:
                    p['refused'] = p['refused'] or (d['code'] or {}).get('code') or 'error'
                    p['message'] = d['message'][:200]
                    bad.add(p['id'])
        if not bad:
            raise ProgramError('the compiler rejects the programs as a whole: ' + log[-2000:])
        todo = [p for p in todo if p['id'] not in bad]
    else:
        raise ProgramError('the compiler still finds errors after 12 rounds')
    return todo


def run_programs(todo, ext, deps, work, timeout=600):
    """Build one executable of the accepted programs and run each on its own: sets p['outcome']
    to 'reached' (the last use was executed), 'wrong' (it read something that is no value),
    'panic', or 'signal N'."""
    if not todo:
        return
    path, exe = os.path.join(work, 'run.rs'), os.path.join(work, 'run')
    write(path, todo, True)
    rc, errs, log = rustc(path, ext, deps, exe, True, timeout)
    if rc != 0:
        raise ProgramError('accepted programs do not build: ' + log[-2000:])

    def one(p):
        try:
            r = subprocess.run([exe, str(p['id'])], capture_output=True, text=True, timeout=60, cwd=work,
                               env={'PATH': '/usr/bin:/bin', 'RAYON_NUM_THREADS': '2'})
        except subprocess.TimeoutExpired:
            p['outcome'] = 'hang'
            return
        p['outcome'] = 'reached' if 'REACHED' in r.stdout else 'wrong' if 'WRONG' in r.stdout else \
            'undefined' if 'UNDEFINED' in r.stdout else \
            'panic' if r.returncode == 101 else f'signal {-r.returncode}' if r.returncode < 0 else f'exit {r.returncode}'
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


# ------------------------------------------------------------------ under an interpreter

MIRI = ['-Zmiri-disable-isolation', '-Zmiri-ignore-leaks', '-Zmiri-tree-borrows', '-Zmiri-permissive-provenance']
EACH = '''fn main() {
std::panic::set_hook(Box::new(|_| {}));
for a in std::env::args().skip(1) {
let n: usize = a.parse().unwrap();
println!("RUN {n}");
let _ = std::panic::catch_unwind(move || one(n));
}
println!("END");
}'''


def miri_env(target, sysroot):
    return dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, MIRI_SYSROOT=sysroot, MIRIFLAGS=' '.join(MIRI),
                RUSTFLAGS='-Awarnings', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RAYON_NUM_THREADS='2')


def miri_setup(target, sysroot, timeout=800):
    if os.path.isdir(os.path.join(sysroot, 'lib')):
        return
    r = subprocess.run(['cargo', '+nightly', 'miri', 'setup'], env=miri_env(target, sysroot), capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise ProgramError('miri setup: ' + r.stderr[-1500:])


def verdict_of(log):
    """What the interpreter says about a program that it stopped, or None if it just could not go on."""
    m = re.search(r'error: (Undefined Behavior: .*|abnormal termination: .*|memory leaked: .*)', log)
    return m.group(1) if m else None


PATCHES = {  # what is interpreted instead of a dependency's own text
    # reads a u64 from bytes without regard to alignment: harmless where this runs, but it ends the interpretation
    'anymap': ('0.12.1', 'src/raw.rs', 'ptr::copy_nonoverlapping(&bytes[0] as *const u8 as *const u64, &mut self.value, 1)',
               'self.value = ptr::read_unaligned(bytes.as_ptr() as *const u64)'),
    # room for 2^17 indexes instead of 2^24: a set takes milliseconds rather than seconds to make and drop
    'hibitset': ('0.6.4', 'src/atomic.rs', '.take(1 << (2 * BITS))', '.take(1 << 5)'),
}


def patch_dependencies(crate):
    more = ''
    for name, (version, file, old, new) in PATCHES.items():
        src = sorted(glob.glob(os.path.expanduser(f'~/.cargo/registry/src/*/{name}-{version}')))
        if not src:
            continue
        to = os.path.join(crate, name)
        shutil.copytree(src[0], to, dirs_exist_ok=True)
        path = os.path.join(to, file)
        text = open(path).read()
        os.chmod(path, 0o644)
        open(path, 'w').write(text.replace(old, new))
        more += f'{name} = {{ path = "{name}" }}\n'
    if more:
        with open(os.path.join(crate, 'Cargo.toml'), 'a') as f:
            f.write('\n[patch.crates-io]\n' + more)


def forget(target):
    """Cargo decides by mtime: always rebuild the crate under test and what uses it."""
    for base, dirs, _ in os.walk(target):
        if os.path.basename(base) == '.fingerprint':
            for d in dirs:
                if d.startswith(('goggles-', 'gvp-', 'gvh-', 'interpreted-')):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []


class Interpreter:
    """A binary of the harness, interpreted."""
    lock = threading.Lock()
    ready = {}

    def __init__(self, harness, name, crate, target, sysroot, timeout=300):
        with self.lock:
            if 'crate' not in self.ready:
                shutil.rmtree(crate, ignore_errors=True)
                os.makedirs(crate)
                for f in ('Cargo.toml', 'Cargo.lock'):
                    shutil.copy(os.path.join(harness, f), crate)
                shutil.copytree(os.path.join(harness, 'src'), os.path.join(crate, 'src'))
                patch_dependencies(crate)
                miri_setup(target + '-harness', sysroot)
                forget(target + '-harness')
                self.ready['crate'] = True
            self.env = miri_env(target + '-harness', sysroot)
            self.cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--manifest-path', os.path.join(crate, 'Cargo.toml'),
                        '--bin', name, '--']
            if name not in self.ready:
                try:
                    r = subprocess.run(self.cmd + ['nothing'], env=self.env, capture_output=True, text=True, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise ProgramError('the interpreter takes too long to build')
                if 'no such command' not in r.stderr:
                    raise ProgramError('the interpreter does not start: ' + r.stderr[-2000:])
                self.ready[name] = True

    def __call__(self, args, timeout):
        p = subprocess.Popen(self.cmd + args, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return None, out, err


def miri_programs(todo, gvp, work, target, sysroot, jobs=8, timeout=600):
    """Interpret the accepted programs: sets p['miri'] to 'fine', to what is wrong with it, or
    'stopped' where the interpreter could not say."""
    miri_setup(target, sysroot)
    crate = os.path.join(work, 'interpreted')
    os.makedirs(os.path.join(crate, 'src'), exist_ok=True)
    open(os.path.join(crate, 'Cargo.toml'), 'w').write(
        f'''[package]\nname = "interpreted"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ngvp = {{ path = "{gvp}" }}\n[workspace]\n''')
    shutil.copy(os.path.join(gvp, 'Cargo.lock'), os.path.join(crate, 'Cargo.lock'))
    patch_dependencies(crate)
    forget(target)
    write(os.path.join(crate, 'src', 'main.rs'), todo, False, EACH)
    env = miri_env(target, sysroot)
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--manifest-path', os.path.join(crate, 'Cargo.toml'), '--']
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout)
    if 'END' not in r.stdout:
        raise ProgramError('the interpreter does not start: ' + r.stderr[-2000:])
    by = {p['id']: p for p in todo}

    def some(ids):
        while ids:
            try:
                r = subprocess.run(cmd + [str(i) for i in ids], env=env, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired as e:
                raise ProgramError('interpreting took too long')
            ran = [int(x) for x in re.findall(r'^RUN (\d+)$', r.stdout, re.M)]
            end = 'END' in r.stdout
            for i in ran if end else ran[:-1]:
                by[i]['miri'] = 'fine'
            if end or not ran:
                if not end:
                    raise ProgramError('the interpreter fails: ' + r.stderr[-2000:])
                return
            by[ran[-1]]['miri'] = verdict_of(r.stderr) or 'stopped: ' + r.stderr[:300]
            ids = ids[ids.index(ran[-1]) + 1:]

    ids = sorted(by)
    random.Random(0).shuffle(ids)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(some, [ids[k::jobs] for k in range(jobs)]))
