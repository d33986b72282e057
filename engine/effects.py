"""Effects of library functions on state that is not reachable from their
arguments: process-wide C/C++ facilities, namespace-scope and static variables,
and the formatting state of the standard streams."""
from lib import *

RANDOM = {'rand', 'srand', 'rand_r', 'random', 'srandom', 'initstate', 'setstate', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48',
          'jrand48', 'srand48', 'seed48', 'lcong48', 'random_shuffle', 'arc4random', 'arc4random_uniform', 'getrandom', 'getentropy'}
RANDOM_Q = ('std::random_device', 'std::random_shuffle', 'Eigen::internal::random')
RANDOM_METHODS = {'Random', 'setRandom'}
CLOCK = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'times', 'getrusage', 'getpid', 'getppid', 'gettid', 'pthread_self', 'ftime'}
CLOCK_Q = ('std::chrono', 'std::this_thread', 'std::thread::id')
PROCESS = {'setlocale', 'localeconv', 'getenv', 'secure_getenv', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'strtok', 'signal', 'sigaction', 'raise',
           'atexit', 'at_quick_exit', 'on_exit', 'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'tmpnam', 'tempnam', 'mktemp', 'tmpfile', 'asctime', 'ctime',
           'gmtime', 'localtime', 'tzset', 'chdir', 'fchdir', 'umask', 'lgamma', 'lgammaf', 'gamma', 'feenableexcept', 'fedisableexcept', 'fesetround', 'fesetenv',
           'feupdateenv', 'feholdexcept', 'feclearexcept', 'feraiseexcept', 'setvbuf', 'setbuf', 'setlinebuf', 'freopen', 'fclose', 'strerror', 'system',
           'mblen', 'mbtowc', 'wctomb', 'ecvt', 'fcvt', 'setrlimit', 'nice', 'kill', 'fork', 'omp_set_num_threads', 'omp_set_dynamic', 'omp_set_nested',
           'set_new_handler', 'set_terminate', 'setNbThreads', 'initParallel', 'setCpuCacheSizes', 'set_is_malloc_allowed', 'longjmp', 'setjmp', 'fopen', 'remove', 'rename', 'unlink'}
PROCESS_Q = ('std::locale::global', 'std::ios_base::sync_with_stdio', 'std::set_new_handler', 'std::set_terminate')
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'std::wclog'}
PLAIN_MANIP = {'endl', 'flush', 'ends'}
STREAM_READ = {'good', 'fail', 'bad', 'eof', 'flush', 'put', 'write', 'rdstate'}


def library(D):
    return [f for f in D.fn.values() if f['file'].startswith(('include/', 'src/')) and f.get('body')]


def parents(root):
    """(node, chain of ancestors as (parent, slot)) for all nodes"""
    st = [(root, ())]
    while st:
        x, ch = st.pop()
        if isinstance(x, dict):
            if 'k' in x or 'i' in x:
                yield x, ch
            for k, v in x.items():
                if isinstance(v, dict):
                    st.append((v, ((x, k),) + ch))
                elif isinstance(v, list):
                    for j, w in enumerate(v):
                        if isinstance(w, dict):
                            st.append((w, ((x, (k, j)),) + ch))


def const_ref(ts):
    ts = ts.strip()
    return not ts.endswith('&') and not ts.endswith('&&') or ts.startswith('const ') or ts.rstrip('& ').endswith(' const')


def pointee_const(ts):
    return ts.startswith('const ') or ' const *' in ts


def modifies(D, T, node, chain, fn_ret):
    """why the use of a variable in this position can change it, or None"""
    me = node
    for (p, slot) in chain:
        k = p.get('k')
        name = slot[0] if isinstance(slot, tuple) else slot
        if k == 'mem' or (k == 'idx' and name == 'x'):
            me = p
            continue
        if k == 'idx':
            return None
        if k == 'asg':
            return 'assigned' if name == 'x' else None
        if k == 'un':
            if p['o'] in ('++', '--', 'p++', 'p--'):
                return 'incremented or decremented'
            if p['o'] == '&':
                return 'its address is taken'
            if p['o'] == '*':
                me = p
                continue
            return None
        if k in ('mcall', 'op', 'call', 'ctor', 'new'):
            d = D.decl.get(p.get('fn'))
            if k == 'mcall' and name == 'b' or (k == 'op' and d and d.get('cls') and slot == ('a', 0)):
                if d is None:
                    return 'called with an unknown method'
                if d.get('const') or d.get('static'):
                    return None
                if d['n'] in ('operator[]', 'operator()', 'at', 'begin', 'end', 'data', 'front', 'back', 'col', 'row', 'block', 'coeffRef') and d['rs'] and \
                        d['n'] in ('operator[]', 'operator()', 'at', 'front', 'back') and not d['q'].startswith('opengv'):
                    me = p
                    continue
                return 'non-const member %s is called on it' % d['n']
            if name == 'a' and d is not None:
                i = slot[1] - (1 if k == 'op' and d.get('cls') else 0)
                ps = d['p']
                if i < len(ps):
                    ts = ps[i]['ts']
                    if const_ref(ts) and not (ts.endswith('*') and not pointee_const(ts)):
                        return None
                    t0 = T[node['t']] if node.get('t') is not None else ''
                    if ts.endswith('*') and not t0.endswith(']') and not t0.endswith('*'):
                        return None
                    return 'passed to %s as %s' % (d['q'], ts)
                return 'passed to a variadic function' if me is node and T[node['t']].endswith(('*', ']')) else None
            return 'passed to an unknown function' if name == 'a' else None
        if k in ('cast', 'cond', 'constcast', 'ilist'):
            if k == 'constcast':
                return 'const is cast away'
            me = p
            continue
        if k is None and name == 'i':     # declarator
            ts = T[p['t']]
            if not const_ref(ts):
                return 'bound to a non-const reference'
            if ts.endswith('*') and not pointee_const(ts) and T[me['t']].endswith((']',)):
                return 'its elements are reachable through a non-const pointer'
            return None
        if k in ('return', 'ret'):
            if fn_ret and not const_ref(fn_ret):
                return 'a non-const reference to it is returned'
            if fn_ret and fn_ret.endswith('*') and not pointee_const(fn_ret) and T[me['t']].endswith(']'):
                return 'a pointer to its elements is returned'
            return None
        if k == 'lambda':
            return None
        return None
    return None


def stream_use(D, T, node, chain):
    """why a use of a standard stream is more than plain output, or None"""
    for (p, slot) in chain:
        k = p.get('k')
        if k == 'op' and p['o'] == '<<' and slot == ('a', 0):
            a = p['a'][1] if len(p['a']) > 1 else None
            if a is not None and a.get('k') == 'ref' and a.get('dk') == 'fn' and a.get('n') not in PLAIN_MANIP:
                return 'stream state changed by manipulator %s' % a.get('n')
            if a is not None:
                d = D.decl.get(a.get('fn'))
                if d is not None and d['q'].startswith('std::') and ('_Set' in d.get('rs', '') or d['n'].startswith('set') or d['n'] == 'resetiosflags'):
                    return 'stream state changed by %s' % d['q']
            continue
        if k == 'mcall' and slot == 'b':
            d = D.decl.get(p.get('fn'))
            n = d['n'] if d else '?'
            if n in STREAM_READ or n.startswith('operator<<'):
                continue
            if d is not None and d.get('const'):
                return None
            if d is not None and n in ('precision', 'width', 'fill', 'flags', 'rdbuf') and not p.get('a'):
                return None
            return 'stream state changed by %s()' % n
        if k in ('call', 'ctor', 'mcall') and isinstance(slot, tuple) and slot[0] == 'a':
            d = D.decl.get(p.get('fn'))
            n = d['n'] if d else '?'
            if n in ('endl', 'flush', 'operator<<'):
                continue
            return 'standard stream handed to %s' % n
        if k == 'asg' or (k is None and slot == 'i'):
            return 'standard stream aliased'
        if k in ('cond', 'cast'):
            continue
        return None
    return None


def call_effect(D, n, random_only=False):
    """why this call touches process-wide state, or None"""
    d = D.decl.get(n.get('fn'))
    if d is None:
        return None
    q, nm = d['q'], d['n']
    if d.get('in'):
        return None
    base = q.split('<')[0]
    free = '::' not in q or base.startswith('std::') and base.count('::') == 1
    if (free and nm in RANDOM) or q.startswith(RANDOM_Q) or (nm in RANDOM_METHODS and q.startswith('Eigen')):
        return 'process-wide randomness %s' % q
    if random_only:
        if (free and nm in CLOCK) or q.startswith(CLOCK_Q):
            return 'environment-dependent value %s' % q
        return None
    if (free and nm in PROCESS) or q.startswith(PROCESS_Q) or (q.startswith('Eigen::') and nm in PROCESS):
        return 'process-wide facility %s' % q
    return None


def statics(D):
    """static-storage variables of the library: key -> record"""
    return {k: g for k, g in D.globals.items() if g['file'].startswith(('include/', 'src/')) or not g['file'].startswith('/')}


def static_uses(D, fns):
    """variable key or external name -> list of (function, node, why)"""
    out = {}
    for f in fns:
        T = f['T']
        ret = (D.decl.get(f['u']) or {}).get('rs')
        for part in [f['body']] + [i for i in f.get('inits', [])]:
            for n, ch in parents(part):
                if n.get('k') == 'ref' and n.get('dk') == 'global':
                    out.setdefault(n.get('u') or n.get('q'), []).append((f, n, ch, T, ret))
    return out


def init_depends(D, g, f_of=None):
    """a run-time dependence of a static's initialiser: parameters, locals or this"""
    bad = []
    for n in walk(g.get('i')) if g.get('i') else ():
        if n.get('k') == 'this':
            bad.append('this')
        if n.get('k') == 'ref' and n.get('dk') in ('parm', 'var'):
            bad.append(n['n'])
        if n.get('k') in ('call', 'ctor', 'mcall'):
            e = call_effect(D, n) or call_effect(D, n, True)
            if e:
                bad.append(e)
    # lambda-internal variables are not a dependence
    lam = set()
    for n in walk(g.get('i')) if g.get('i') else ():
        if n.get('k') == 'lambda':
            for m in walk(n['body']):
                if m.get('k') == 'decl':
                    lam |= {v['n'] for v in m['v']}
            lam |= {p['n'] for p in n['params']}
    return [b for b in bad if b not in lam]
