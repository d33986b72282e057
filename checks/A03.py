"""Value-flow composition of every adapter constructor with the prior's getters
and setters (each getter on the object left by each constructor; each getter
after each setter, the other part of the prior unchanged), write-effect
evaluation of every other member function (must leave object and data alone),
and a library-wide rule: no cast drops const, adapters have no mutable members
and keep the prior by value, and only the prior's setters are called on
adapters."""
from adapt import *
from effects import library

MIN_OBLIGATIONS = 200
ASSUMPTIONS = ['data is handed in by const reference or pointer, as the interface declares']
GET = {'t': ('gett', 'gett12'), 'R': ('getR', 'getR12')}
SET = {'t': ('sett', 'sett12'), 'R': ('setR', 'setR12')}


def run(C):
    D = load()
    classes = sorted(t for t in adapter_classes(D))
    data = {t: SPEC[t][0] for t in SPEC}
    for t in classes:
        gets = {k: find(D, t, ns, 0) for k, ns in GET.items()}
        sets = {k: find(D, t, ns, 1) for k, ns in SET.items()}
        if None in gets.values() or None in sets.values():
            raise AnalysisError('prior accessors of %s not found' % t)
        for x in ctors(D, t):
            g0, st, P = build(D, t, x)
            C.vg(g0)
            inst = '%s/%d' % (t, len(x['params']))
            nd = data.get(t, 0)
            given = {}
            for i in range(nd, len(x['params'])):
                d = edim(param_ts(x, i).replace('const ', '').rstrip('&').strip())
                if d == (3, 1):
                    given['t'] = P[i]
                elif d == (3, 3):
                    given['R'] = P[i]
            for k, f in gets.items():
                v, _, g = apply(D, f, st, [], t=t)
                C.vg(g)
                want = given.get(k) or ([ZERO] * 3 if k == 't' else ident(None))
                C.ob('the constructor stores the given prior, and zero and identity otherwise', '%s %s' % (inst, f['n']), loc(x), same(v, want),
                     'reads %s, expected %s' % (show(v, 6)[:300], sshow(want)[:200]))
            for k, s in sets.items():
                a = mk('par', '%new')
                a.dim = (3, 1) if k == 't' else (3, 3)
                g = make_vg(D)
                v, st2, fr = g.run(s, args=[a], env=dict(st.env), cls=t)
                C.vg(g)
                for k2, f in gets.items():
                    v, _, g = apply(D, f, st2, [], t=t)
                    want = a if k2 == k else given.get(k2) or ([ZERO] * 3 if k2 == 't' else ident(None))
                    C.ob('a prior set is the one read back, the other part unchanged', '%s %s after %s' % (inst, f['n'], s['n']), loc(s), same(v, want),
                         'reads %s, expected %s' % (show(v, 6)[:300], sshow(want)[:200]))
        # write effects of all other members
        for f in [x for x in D.fn.values() if x.get('clsT') == t and x.get('body') and not x.get('ctor') and not x.get('dtor') and not x['implicit']
                  and not x['n'].startswith('operator') and x['n'] not in STATE - set(GET['t'] + GET['R'])]:
            g = make_vg(D)
            v, st, fr = g.run(f)
            C.vg(g)
            w = [r for r in st.env if r[0] in ('obj', 'glob') and not fresh_obj(r)]
            C.ob('accessors write nothing', '%s::%s/%d' % (t, f['n'], len(f['params'])), loc(f), not w, 'writes %s' % '; '.join(show(r[1], 4) if hasattr(r[1], 'op') else str(r[1]) for r in w))
        r = D.recT.get(t)
        bad = [x['n'] for x in r['fields'] if x.get('mutable')]
        C.ob('no mutable members', t, '%s:%s' % (r['file'], r['line']), not bad, ', '.join(bad))
        bad = [x['n'] for x in r['fields'] if t in ADAPTERS and (x.get('ref') or x['ts'].rstrip().endswith('*'))]
        C.ob('the prior is kept by value', t, '%s:%s' % (r['file'], r['line']), not bad, ', '.join(bad))
    ok_set = set(SET['t'] + SET['R'])
    for f in library(D):
        bad = []
        for part in [f['body']] + list(f.get('inits', [])):
            for n in walk(part):
                if n.get('drop'):
                    bad.append('line %s: a cast drops const' % n.get('l'))
                if n.get('k') == 'mcall':
                    d = D.decl.get(n.get('fn'))
                    if d and d.get('clsT') in classes and not d.get('const') and not d.get('static') and not d.get('dtor') and d['n'] not in ok_set \
                            and not (f.get('clsT') in classes):
                        bad.append('line %s: non-const %s called on an adapter' % (n.get('l'), d['n']))
        C.ob('no const is dropped and only prior setters are called on adapters', f['q'] + '/%d' % len(f['params']), loc(f), not bad, '; '.join(bad))
    C.count('adapter classes', len(classes))


def fresh_obj(r):
    return r[0] == 'obj' and hasattr(r[1], 'op') and r[1].op == 'new'


def find(D, t, names, n):
    for nm in names:
        f = accessor(D, t, nm, n)
        if f is not None:
            return f
    return None
