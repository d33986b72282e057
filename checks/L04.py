"""Ownership typestate over value graphs. Every function of the library that
contains a new- or delete-expression, and every destructor and assignment of
a pointer member some function allocates, is reduced to its value graph, helpers
with such expressions expanded, constant-bound loops expanded. On every
combination of its branch conditions each created object must end in exactly one
of: handed to a smart pointer, released once by the matching form, or stored in
an owning pointer member of its class; the value an owning member had before must
be released exactly once when (and only when) it is replaced; destructors release
every owning member once; constructors leave it null or freshly allocated; nothing
released is read. Functions that allocate or release for their caller are
judged in every caller. Classes with owning members are never copied, and an
object is only released through a type that has its destructor."""
from lib import *
from effects import library, parents
from runs import split
import re, sys

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['exceptions (allocation failure included) are not modelled', 'smart pointers and containers of the standard library release what they own',
               'objects are constructed before and destroyed after use']
SMART = re.compile(r'std::(shared_ptr|unique_ptr|__shared_ptr|__uniq_ptr)')


def run(C):
    D = load()
    fns = library(D)
    raw = {}                     # functions with their own new/delete
    for f in fns:
        ns = [n for p in [f['body']] + list(f.get('inits', [])) for n in walk(p) if n.get('k') in ('new', 'del')]
        if ns:
            raw[f['u']] = ns
    callers = {}
    for f in fns:
        for p in [f['body']] + list(f.get('inits', [])):
            for n in walk(p):
                u = n.get('fn')
                if u:
                    callers.setdefault(u, set()).add(f['u'])
    mayraw = set(raw)
    owned = {}
    for rnd in range(4):
        forms.clear()
        cand = candidates(D, fns, mayraw)
        done, openfn = lift(C, D, fns, raw, mayraw, callers, cand)
        owned = {}
        for c, n in forms:
            owned.setdefault(c, set()).add(n)
        if owned == cand:
            break
        forms.clear()
        size = len(mayraw)
        done, openfn = lift(C, D, fns, raw, mayraw, callers, owned)
        if len(mayraw) == size:
            break
    for u, (f, (n, bad)) in sorted(done.items(), key=lambda x: (x[1][0]['file'], x[1][0]['line'], x[0])):
        C.functions.add('%s (%s:%s)' % (f['q'], f['file'], f['line']))
        if u in openfn:
            C.ob('judged in its callers', f['q'], loc(f), True, '')
            continue
        C.ob('allocations and releases match on every path', label(f), loc(f), not bad, '; '.join(bad[:4]))
    # classes
    for t, flds in sorted(owned.items()):
        r = D.recT.get(t)
        w = '%s:%s' % (r['file'], r['line'])
        ds = [f for f in fns if f.get('clsT') == t and is_dtor(f)]
        cs = [f for f in fns if f.get('clsT') == t and is_ctor(f) and not f.get('implicit')]
        C.ob('class with owning members has a destructor', t, w, bool(ds), 'members %s are never released' % ', '.join(sorted(flds)))
        C.ob('class with owning members initialises them', t, w, bool(cs), 'no constructor')
        cp = copies(D, fns, t)
        C.ob('class with owning members is never copied', t, w, not cp, 'copied at %s' % ', '.join(cp[:3]))
    for f in fns:
        for p in [f['body']] + list(f.get('inits', [])):
            for n in walk(p):
                if n.get('k') == 'del':
                    ts = base_ts(f['T'][n['e']['t']].rstrip().rstrip('*').strip()) if 't' in n['e'] else ''
                    r = D.recT.get(ts)
                    ok = r is None or not r.get('poly') or r.get('vdtor') or not subclasses(D, ts)
                    C.ob('released through a type with its destructor', '%s %s' % (label(f), ts), '%s:%s' % (f['file'], n.get('l')), ok, '%s has subclasses and no virtual destructor' % ts)
    for q, r in sorted(D.recT.items()):
        if r.get('poly'):
            C.ob('polymorphic class has a virtual destructor', q, '%s:%s' % (r['file'], r['line']), r.get('vdtor') is True, 'an object released through this base is not destroyed completely')
    C.count('allocation and release sites', sum(len(x) for x in raw.values()))


def base_ts(t):
    return re.sub(r'^(const|struct|class) ', '', t.replace(' const', '').strip())


def subclasses(D, t):
    return [x for x in D.recT if t in D.bases(x)] if hasattr(D, 'bases') else [1]


def label(f):
    return f['q'] + '(%d)' % len(f['params'])


def loc(f):
    return '%s:%s' % (f['file'], f['line'])


def is_ptr(t):
    t = t.replace(' const', '').rstrip()
    return t.endswith('*')


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'implicit', 'tmp', 'mat') and 'e' in n:
        n = n['e']
    return n


def candidates(D, fns, mayraw):
    """pointer members of classes with a function that creates or releases objects"""
    out = {}
    for f in fns:
        c = f.get('clsT')
        if f['u'] in mayraw and c in D.recT and not f.get('static'):
            fl = {x['n'] for x in D.recT[c]['fields'] if is_ptr(x['ts'])}
            if fl:
                out[c] = fl
    return out


def lift(C, D, fns, raw, mayraw, callers, owned):
    done, openfn = {}, set()
    work = [f for f in fns if f['u'] in raw or f.get('clsT') in owned and not f.get('implicit')]
    while work:
        f = work.pop(0)
        if f['u'] in done:
            continue
        res = judge(C, D, f, mayraw, owned)
        done[f['u']] = (f, res)
        if res[1]:
            cs = [c for c in callers.get(f['u'], ()) if c in D.fn and c != f['u']]
            if cs and not D.decl.get(f['u'], {}).get('virt') and not is_ctor(f) and not is_dtor(f):
                openfn.add(f['u'])
                for c in cs:
                    if f['u'] not in mayraw or c not in mayraw:
                        mayraw.add(f['u'])
                    if c in done and c not in openfn:
                        del done[c]
                    work.append(D.fn[c])
    return done, openfn


def raw_loops(D, mayraw):
    """loops whose body creates or releases objects"""
    out = set()
    for u in mayraw:
        f = D.fn[u]
        for n in walk(f['body']):
            if n.get('k') in ('for', 'while', 'do', 'rfor', 'forr') and any(x.get('k') in ('new', 'del') or x.get('fn') in mayraw for x in walk(n)):
                out.add((f['file'], n.get('l')))
    return out


def keep_pointers(D, g, flds, cls):
    """calls that are not expanded leave the pointers of owning members alone (judged on their own)
    and at most reorder a container of pointers handed to them, where their text shows that"""
    orig = g.opaque_call

    def oc(e, d, base, args, fr, st):
        this = ('obj', mk('par', 'this'))
        old = {n: g.read(st, LV(this, (('f', n, cls),))) for n in flds}
        roots = {r: v for r, v in st.env.items() if r[0] == 'local'}
        r = orig(e, d, base, args, fr, st)
        for n, x in old.items():
            l = LV(this, (('f', n, cls),))
            if g.read(st, l) is not x:
                g.write(st, l, x)
        f2 = D.fn.get(e.get('fn'))
        for k, v in roots.items():
            if st.env.get(k) is not v and contains_any(v, lambda n: n.op == 'new'):
                if f2 is not None and all(permutes(D, f2, i, ()) for i, p in enumerate(f2['params'])
                                          if '*' in f2['T'][p['t']] and f2['T'][p['t']].endswith('&')):
                    st.env[k] = v
        return r
    g.opaque_call = oc


def permutes(D, f, i, seen):
    """the function only reads the i-th argument, a container of pointers, or swaps its elements"""
    ts = f['T'][f['params'][i]['t']]
    if ts.startswith('const ') and ts.endswith('&') or (f['u'], i) in seen:
        return True
    pid = f['params'][i]['id']
    for n, ch in parents(f['body']):
        if n.get('k') != 'ref' or n.get('id') != pid or n.get('dk') != 'parm':
            continue
        if not ch:
            return False
        p, slot = ch[0]
        k = p.get('k')
        if k == 'op' and p.get('o') == '[]' or k == 'mcall' and p.get('n') in ('at', 'front', 'back'):
            if p.get('ar'):
                continue
            q = ch[1][0] if len(ch) > 1 else {}
            if q.get('k') == 'un' and q.get('o') == '*' or q.get('k') in ('mcall', 'mem', 'cast') and ch[1][1] in ('b', 'e'):
                continue
            if ch[1][1] == 'i' and 't' in q and not f['T'][q['t']].rstrip().endswith('&') or q.get('k') == 'asg' and ch[1][1] == 'y' or q.get('k') == 'bin':
                continue
            if q.get('k') == 'call' and q.get('n') == 'swap' and re.match(r'c:@N@std@', q.get('fn') or ''):
                if all(any(x.get('k') == 'ref' and x.get('id') == pid for x in walk(a)) for a in q['a']):
                    continue
            if q.get('k') == 'asg' and q.get('o') == '=' and manual_swap(f, pid, q):
                continue
            return False
        if k == 'mcall' and p.get('n') in ('size', 'empty', 'capacity', 'cbegin', 'cend'):
            continue
        if k in ('call', 'mcall') and isinstance(slot, tuple) and slot[0] == 'a':
            f2 = D.fn.get(p.get('fn'))
            if f2 is not None and slot[1] < len(f2['params']) and permutes(D, f2, slot[1], seen + ((f['u'], i),)):
                continue
            return False
        if k in ('rfor', 'forr', 'range'):
            v = p.get('v') or {}
            vt = f['T'][v['t']] if isinstance(v, dict) and 't' in v else '&'
            if not vt.endswith('&') or vt.startswith('const') and False:
                continue
            return False
        return False
    return True


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = {k for k in list(a) + list(b) if k not in ('l', 'ar', 'le')}
        return all(same(a.get(k), b.get(k)) for k in ks)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def manual_swap(f, pid, q):
    """q is one of the assignments of  t = m[a]; m[a] = m[b]; m[b] = t"""
    for b in walk(f['body']):
        if b.get('k') != 'block':
            continue
        S = b['s']
        for i in range(len(S) - 2):
            d, x, y = S[i:i + 3]
            if d.get('k') != 'decl' or len(d['v']) != 1 or x.get('k') != 'expr' or y.get('k') != 'expr':
                continue
            x, y, v = x['e'], y['e'], d['v'][0]
            if q is not x and q is not y:
                continue
            if x.get('k') == y.get('k') == 'asg' and x['o'] == y['o'] == '=' and same(v.get('i'), x['x']) and same(x['y'], y['x']) \
                    and strip(y['y']).get('k') == 'ref' and strip(y['y']).get('id') == v['id']:
                return True
    return False


def is_dtor(f):
    return f['n'].startswith('~')


def is_ctor(f):
    return bool(f.get('ctor'))


def copies(D, fns, t):
    out = []
    for f in fns:
        if f.get('clsT') == t and f.get('implicit'):
            continue
        for p in [f['body']] + list(f.get('inits', [])):
            for n in walk(p):
                if n.get('k') == 'ctor' and n.get('copy') and 't' in n and base_ts(f['T'][n['t']].rstrip('&').strip()) == t:
                    out.append('%s:%s' % (f['file'], n.get('l')))
                elif n.get('k') in ('op', 'asg') and n.get('o') == '=' and 't' in n and base_ts(f['T'][n['t']].rstrip('&').strip()) == t:
                    out.append('%s:%s' % (f['file'], n.get('l')))
    return out


def judge(C, D, f, mayraw, owned):
    g = make_vg(D, inline=lambda d, f2: f2['u'] in mayraw)
    rl = raw_loops(D, mayraw)
    g.unroll_limits = lambda fr, line: (1000, 20000000) if (fr.f['file'], line) in rl else (8, 3000)
    g.track_freed = True
    cls = f.get('clsT')
    flds = sorted(owned.get(cls, ())) if f.get('cls') and not f.get('static') else []
    this = LV(('obj', mk('par', 'this')))
    g.classes[mk('par', 'this')] = cls
    fl = {n: LV(this.root, (('f', n, cls),)) for n in flds}
    from vg import State
    F0 = {}
    if flds and not is_ctor(f):
        s0 = State({}, TRUE)
        F0 = {n: g.read(s0, l) for n, l in fl.items()}
    keep_pointers(D, g, flds, cls)
    try:
        v, st, fr = g.run(f)
    except Exception as x:
        raise AnalysisError('%s: %s' % (label(f), x))
    C.vg(g)
    ret = g.read(st, v) if isinstance(v, LV) else v
    vals = {}
    ev = [e for e in g.events if e.kind in ('new', 'delete', 'own', 'uaf')]
    for i, e in enumerate(ev):
        vals[('g', i)] = e.guard
        vals[('d', i)] = e.data
    fin = {n: (g.read(st, l) if st is not None else mk('undef', '?')) for n, l in fl.items()}
    for n in flds:
        vals[('f', n)] = fin[n]
    bad = []
    deep = len(ev) > 100 and all(e.guard is TRUE for e in ev)

    def want(x):
        return 1 if x.op in ('lt', 'le', 'eq', 'truth') or x.op in ('fn', 'cmp') else None
    if deep:
        cases = [({}, vals)]
    else:
        cases = split({k: x for k, x in vals.items() if k[0] != 'd' or x.op == 'ite'}, want, lambda a: True)
    for asg, w in cases:
        live = {}
        rel = {}
        for i, e in enumerate(ev):
            gd = w[('g', i)]
            if gd is FALSE:
                continue
            d = w.get(('d', i), e.data)
            at = 'line %s' % e.line
            if d.op == 'ite':
                bad.append('%s: which object is released is not decided' % at)
                continue
            if e.kind == 'new':
                live[d] = (e, at)
            elif e.kind == 'uaf':
                if d in rel or d.op != 'new':
                    bad.append('%s: %s is used after its release' % (at, name(d)))
            else:
                if d is NULL or d.op == 'null' or is_num(d):
                    continue
                if null_in(d, asg):
                    continue
                if d.op == 'new':
                    ne = live.get(d)
                    if ne is not None and ne[0].arr != e.arr:
                        bad.append('%s: %s created with %s is released as %s' % (at, name(d), 'new[]' if ne[0].arr else 'new', 'array' if e.arr else 'single object'))
                    if ne is not None and ne[0].loops != e.loops and not (e.kind == 'own'):
                        bad.append('%s: %s is released in another loop than it is created in' % (at, name(d)))
                elif d.op not in ('new',) and e.kind == 'own' and d not in F0.values():
                    continue
                elif d not in F0.values():
                    bad.append('%s: releases %s, which this function does not own' % (at, name(d)))
                    continue
                else:
                    fn = [n for n in F0 if F0[n] is d][0]
                    forms.setdefault((cls, fn), set()).add(('release', e.arr, e.line, e.file))
                if d in rel:
                    bad.append('%s: %s is released a second time' % (at, name(d)))
                rel[d] = e
        ends = {n: w[('f', n)] for n in flds}
        for n, x in ends.items():
            if x.op == 'ite':
                bad.append('member %s: final value not decided' % n)
            if is_dtor(f):
                if F0[n] not in rel and not null_in(F0[n], asg):
                    bad.append('member %s is not released' % n)
                continue
            if is_ctor(f):
                if not (x.op == 'new' and x in live and x not in rel or x is NULL or x.op == 'null' or is_num(x) and val(x) == 0):
                    bad.append('member %s is left %s by the constructor' % (n, 'dangling' if x in rel else 'unset'))
            elif x is F0[n]:
                if x in rel:
                    bad.append('member %s is left dangling' % n)
            else:
                if F0[n] not in rel and not null_in(F0[n], asg):
                    bad.append('member %s is replaced without releasing what it held' % n)
                if not (x.op == 'new' and x in live and x not in rel or x is NULL or x.op == 'null' or is_num(x)):
                    bad.append('member %s is set to something it does not own' % n)
            if x.op == 'new' and x in live:
                forms.setdefault((cls, n), set()).add(('create', live[x][0].arr, live[x][0].line, live[x][0].file))
        for d, (e, at) in live.items():
            keep = [n for n, x in ends.items() if x is d]
            if d in rel and keep:
                bad.append('%s: %s is released and kept in %s' % (at, name(d), keep[0]))
            elif len(keep) > 1:
                bad.append('%s: %s is kept in two members' % (at, name(d)))
            elif d not in rel and not keep:
                bad.append('%s: %s is never released' % (at, name(d)))
    for n in flds:
        fs = forms.get((cls, n), set())
        if len({a for _, a, _, _ in fs}) > 1:
            bad.append('member %s is created and released in different forms (%s)' % (n, ', '.join(sorted('%s%s line %s' % (k, '[]' if a else '', l) for k, a, l, _ in fs))))
    out = []
    for b in bad:
        if b not in out:
            out.append(b)
    return len(ev), out


forms = {}


def null_in(d, asg):
    for a, t in asg.items():
        if a.op == 'eq' and d in a.a and any(x is NULL or x.op == 'null' or is_num(x) and val(x) == 0 for x in a.a if x is not d):
            if t:
                return True
        if a is d and not t:
            return True
    return False


def name(d):
    return 'the object created as %s' % d.a[0] if d.op == 'new' else show(d, 4)[:60]
