"""Effect analysis over every function of the library (sources and headers, all
instantiated templates): no call of a process-wide facility or generator, every
variable with static storage is constant (also what it points to), initialised
independently of the call that happens to come first, and otherwise never in a
modifying position; standard streams are only written to, their state is never
changed."""
from effects import *

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['Eigen and the standard library keep no hidden mutable state in the functions used, beyond the listed process-wide facilities',
               'concurrent character output to stdout/stderr is not counted as shared state']


def run(C):
    D = load()
    fns = library(D)
    G = statics(D)
    uses = static_uses(D, fns)
    bad = {}
    for f in fns:
        for part in [f['body']] + list(f.get('inits', [])):
            for n in walk(part):
                if n.get('k') in ('call', 'mcall', 'ctor', 'op', 'ref', 'memfn'):
                    why = call_effect(D, n)
                    if why:
                        bad.setdefault(f['u'], []).append('line %s: %s' % (n.get('l'), why))
    for k, us in uses.items():
        g = G.get(k)
        for f, n, ch, T, ret in us:
            q = n.get('q') or n.get('n')
            if q in STREAMS:
                why = stream_use(D, T, n, ch)
            elif g is not None and (g['const'] or g['constexpr']):
                why = 'const is cast away' if any(p.get('drop') for p, _ in ch[:3]) else None
            elif q in ('stdout', 'stderr', 'std::cin'):
                why = None
            else:
                why = modifies(D, T, n, ch, ret)
            if why:
                bad.setdefault(f['u'], []).append('line %s: %s: %s' % (n.get('l'), q, why))
    for f in fns:
        C.ob('touches no state but its arguments', f['q'] + sig(f), loc(f), f['u'] not in bad, '; '.join(bad.get(f['u'], [])))
        C.functions.add('%s (%s:%s)' % (f['q'], f['file'], f['line']))
    for k, g in sorted(G.items()):
        ts = g['ts']
        where = '%s:%s' % (g['file'], g['line'])
        ptr = ts.rstrip().endswith(('*', '&', '* const')) and not pointee_const(ts) or 'shared_ptr' in ts or 'unique_ptr' in ts
        used = [x for x in uses.get(k, ()) if not (g['const'] or g['constexpr'])]
        ok = not ptr or g['constexpr']
        C.ob('static variable reaches no mutable object', g['q'], where, ok, 'type %s leads to a mutable shared object' % ts)
        dep = init_depends(D, g) if not g['constexpr'] else []
        C.ob('static variable does not depend on the first caller', g['q'], where, not dep, 'its initialiser depends on %s' % ', '.join(dep))
        rec = D.recT.get(ts.replace('const ', '').strip())
        C.ob('static variable has no mutable members', g['q'], where, not (rec and any(x.get('mutable') for x in rec['fields'])), 'mutable member in %s' % ts)
    C.count('functions', len(fns))
    C.count('static variables', len(G))


def sig(f):
    return '(' + ', '.join(param_ts(f, i) for i in range(len(f['params']))) + ')'
