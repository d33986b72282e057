"""Two rules. (1) The constructors of every robust-problem base and problem
class are reduced to a value graph with the seed option off: nothing stored in the
object (generator included) may come from a clock, a process-wide generator or
another run-dependent source, and the generator's state may depend on no
constructor argument; with the option on or off it is the same argument that
decides. (2) Effect and call-graph analysis over the whole library: no call of a
process-wide or run-dependent source outside code reachable only from those
constructors, no variable with static storage that is modified, and no
operation on the generator members outside constructors other than drawing from
them."""
from effects import *
from resid import *

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['std::mt19937 and std::uniform_int_distribution are deterministic for a given seed',
               'no result depends on uninitialised storage (L02)']
GEN = ('_engine<', '_distribution<', 'std::function<int', 'std::function<double', 'std::function<unsigned', 'mt19937', 'minstd')


def is_gen(ts):
    return any(x in ts for x in GEN)


def callers(D, fns):
    out = {}
    for f in fns:
        for part in [f['body']] + list(f.get('inits', [])):
            for n in walk(part):
                u = n.get('fn')
                if u:
                    out.setdefault(u, set()).add(f['u'])
                    for o in D.overriders(u):
                        out.setdefault(o, set()).add(f['u'])
    return out


def run(C):
    D = load()
    bases = sac_bases(D)
    classes = dict(problem_classes(D))
    if len(bases) < 4 or len(classes) < 8:
        raise AnalysisError('robust-problem classes not found')
    fns = library(D)
    env_calls = {}
    for f in fns:
        for part in [f['body']] + list(f.get('inits', [])):
            for n in walk(part):
                why = call_effect(D, n, True) if n.get('k') in ('call', 'mcall', 'ctor', 'op', 'ref', 'memfn') else None
                if why is None and n.get('k') == 'cast' and n.get('ck') == 'PointerToIntegral':
                    why = 'an address used as a number'
                if why:
                    env_calls.setdefault(f['u'], []).append((n.get('l'), why))
    CG = callers(D, fns)
    tainted = set(env_calls)
    w = list(tainted)
    while w:
        for c in CG.get(w.pop(), ()):
            if c not in tainted:
                tainted.add(c)
                w.append(c)

    # (1) constructors
    n_opt = 0
    for t in sorted(list(bases) + list(classes)):
        ctors = [x for x in D.fn.values() if x.get('clsT') == t and x.get('ctor') and not x['implicit']
                 and not (D.decl.get(x['u']) or {}).get('copy')]
        if not ctors:
            raise AnalysisError('no constructor of %s found' % t)
        for x in ctors:
            n = len(x['params'])
            inst = '%s/%d' % (t, n)
            opt = seed_option(D, x)
            if opt is None:
                continue
            n_opt += 1
            res = {}
            for val in (FALSE, TRUE):
                g = make_vg(D)
                v, st, fr = g.run(x, args=[val if i == opt else None for i in range(n)])
                C.vg(g)
                res[val] = (g, st)
            g, st = res[FALSE]
            env = env_nodes(D, st, tainted)
            C.ob('with the seed option off nothing in the object depends on clock, process or global generators', inst, loc(x), not env,
                 'run-dependent source: %s' % '; '.join(sorted(env))[:800])
            gens = gen_nodes(st)
            pars = sorted({p.a[0] for q in gens for p in nodes(q) if p.op == 'par'})
            C.ob('the generator is owned and seeded by the constructor', inst, loc(x), gens, 'no generator is created by this constructor')
            C.ob('with the seed option off the generator state depends on no argument', inst, loc(x), not pars, 'depends on %s' % ', '.join(pars))
            g2, st2 = res[TRUE]
            e2 = env_nodes(D, st2, tainted)
            C.ob('the seed option decides how the generator is seeded', inst, loc(x), bool(e2), 'the generator is seeded alike with the option on and off')
    if n_opt < 12:
        raise AnalysisError('only %d constructors with a seed option found' % n_opt)

    # (2) effects
    ctors = {x['u'] for x in fns if x.get('ctor') and (x.get('clsT') in bases or x.get('clsT') in classes)}
    okc = {}

    def only_ctors(u, seen=()):
        if u in ctors:
            return True
        if u in seen:
            return True
        cs = CG.get(u, ())
        return bool(cs) and all(only_ctors(c, seen + (u,)) for c in cs)
    G = statics(D)
    uses = static_uses(D, fns)
    shared = {}
    for k, us in uses.items():
        g = G.get(k)
        for f, n, ch, T, ret in us:
            q = n.get('q') or n.get('n')
            if q in STREAMS or q in ('stdout', 'stderr') or (g is not None and (g['const'] or g['constexpr']) and not init_depends(D, g)):
                continue
            why = modifies(D, T, n, ch, ret) or (g is not None and init_depends(D, g) and 'its value is fixed by the first caller')
            if why:
                shared.setdefault(f['u'], []).append('line %s: %s: %s' % (n.get('l'), q, why))
    for f in fns:
        bad = []
        if f['u'] in env_calls and not only_ctors(f['u']):
            bad += ['line %s: %s' % e for e in env_calls[f['u']]]
        bad += shared.get(f['u'], [])
        if not (f.get('ctor') and f['u'] in ctors):
            bad += gen_misuse(D, f, only_ctors)
        C.ob('no randomness or state from outside the problem object', f['q'] + '/%d' % len(f['params']), loc(f), not bad, '; '.join(bad))
    C.count('functions', len(fns))
    C.count('constructors with a seed option', n_opt)


def seed_option(D, x):
    """position of the option that selects the seed: named so, or a flag stored nowhere else"""
    n = len(x['params'])
    flags = [i for i in range(n) if param_ts(x, i) in ('bool', 'const bool')]
    for i in flags:
        if 'seed' in (x['params'][i]['n'] or '').lower():
            return i
    if not flags:
        return None
    g = make_vg(D)
    v, st, fr = g.run(x)
    for i in flags:
        p = mk('par', x['params'][i]['n'] or 'arg%d' % i)
        stored = False
        for r, val in st.env.items():
            if r == ('obj', mk('par', 'this')) and hasattr(val, 'op') and val.op == 'rec':
                stored |= any(p in set(nodes(y)) for k, y in val.a[2] if not gen_value(y))
        if not stored:
            return i
    return None


def gen_value(y):
    return any('_engine<' in str(x.a[0]) or 'std::function' in str(x.a[0]) or '_distribution' in str(x.a[0])
               for x in nodes(y) if x.op in ('ctor', 'call', 'out', 'new') and x.a)


def env_nodes(D, st, tainted):
    out = set()
    tq = {D.fn[u]['q'] for u in tainted if u in D.fn}
    seen = set()
    for r, v in st.env.items():
        if r[0] != 'obj' or not hasattr(v, 'op'):
            continue
        for x in nodes(v):
            if x in seen:
                continue
            seen.add(x)
            q = None
            if x.op in ('call', 'fn', 'ctor', 'mcall'):
                q = str(x.a[0])
                if x.op == 'fn' and q == 'functor':
                    q = None
            if q is None:
                continue
            base = q.split('<')[0]
            nm = base.split('::')[-1]
            free = '::' not in base or base.startswith('std::') and base.count('::') == 1
            if (free and (nm in RANDOM or nm in CLOCK)) or q.startswith(RANDOM_Q) or q.startswith(CLOCK_Q) or q in tq or \
                    (q.startswith('Eigen') and nm in RANDOM_METHODS):
                out.add(q)
    return out


def gen_nodes(st):
    out = []
    for r, v in st.env.items():
        if r[0] != 'obj' or not hasattr(v, 'op'):
            continue
        for x in nodes(v):
            if x.op in ('ctor', 'call', 'out', 'mcall') and '_engine<' in str(x.a[0]) and x not in out:
                out.append(x)
    return out


def gen_misuse(D, f, only_ctors):
    """operations on generator members other than drawing from them"""
    out = []
    T = f['T']
    for n, ch in parents(f['body']):
        if n.get('k') != 'mem' or not is_gen(T[n['t']]):
            continue
        ok = None
        for (p, slot) in ch:
            k = p.get('k')
            if k in ('un',) and p['o'] == '*' or k in ('mem', 'cast', 'cond'):
                continue
            if k in ('mcall', 'op'):
                d = D.decl.get(p.get('fn'))
                nm = d['n'] if d else ''
                if nm in ('operator*', 'operator->', 'get') and d.get('const'):
                    continue
                if nm == 'operator()':
                    ok = True
                elif d is not None and d.get('const') and not is_gen(d['rs']):
                    ok = True
                else:
                    ok = False
                    why = nm
            elif k == 'asg':
                ok, why = False, 'assignment'
            elif k in ('call', 'ctor'):
                d = D.decl.get(p.get('fn'))
                if k == 'call' and d and d.get('in'):
                    i = slot[1] if isinstance(slot, tuple) else 0
                    ok = True     # judged inside the callee through its own uses of the parameter
                    why = ''
                else:
                    ok, why = False, (d['q'] if d else '?')
            elif k == 'return':
                ok, why = False, 'handed out'
            elif k is None:
                ok, why = False, 'copied or aliased'
            else:
                ok = True
            break
        if ok is False and not only_ctors(f['u']):
            out.append('line %s: generator member %s: %s' % (n.get('l'), n['f'], why))
    return out
