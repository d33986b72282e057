"""Type and allocation analysis over every class, instantiation and function of
the library, from the compiler's own record layouts: every class whose layout
requires the alignment of a vector register overloads operator new; every
container, shared object or pair of such a type that appears as the type of any
declaration or expression uses an aligned allocator; every new-expression,
make_shared and raw-storage expression is of a type that may live there."""
from lib import *
from effects import library
import re

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['a type needs special alignment when it needs 16 bytes or more, as Eigen defines "fixed-size vectorizable"; larger registers only enlarge the alignment of the same types',
               'class templates are judged in the instantiations the library, its tests\' headers and /verif/driver make']
CONTAINERS = ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::multiset', 'std::map', 'std::multimap', 'std::forward_list',
              'std::unordered_map', 'std::unordered_set', 'std::unordered_multimap', 'std::unordered_multiset')
SIZES = {'double': 8, 'float': 4, 'int': 4, 'long double': 16, 'std::complex<double>': 16, 'std::complex<float>': 8, 'long': 8, 'char': 1,
         'unsigned int': 4, 'unsigned long': 8, 'short': 2, 'bool': 1}


def parse(s):
    """template tree of a type spelling: (name, args)"""
    pos = [0]

    def ident():
        b, depth = pos[0], 0
        while pos[0] < len(s):
            c = s[pos[0]]
            if depth == 0 and c in '<>,':
                break
            depth += (c in '([') - (c in ')]')
            pos[0] += 1
        return s[b:pos[0]].strip()

    def node():
        n = ident()
        args = []
        tail = ''
        if pos[0] < len(s) and s[pos[0]] == '<':
            pos[0] += 1
            while True:
                args.append(node())
                if pos[0] >= len(s):
                    break
                c = s[pos[0]]
                pos[0] += 1
                if c == '>':
                    break
            tail = ident()
        return n, args, tail
    return node()


def text(t):
    return t[0] + ('<%s>' % ', '.join(text(a) for a in t[1]) if t[1] else '') + t[2]


def bare(t):
    n, a, tail = t
    return re.sub(r'^(const|volatile|struct|class)\s+', '', n), a, re.sub(r'\bconst\b', '', tail).strip()


class Align:
    def __init__(self, D):
        self.D = D
        self.memo = {}

    def need(self, t):
        """alignment (>= 16) required by the type tree, or 0"""
        n, a, tail = t = bare(t)
        if tail.rstrip(' )').endswith(('*', '&')) or n.endswith(('*', '&')):
            return 0
        k = text(t)
        if k not in self.memo:
            self.memo[k] = 0
            self.memo[k] = self.calc(n, a, tail, k)
        return self.memo[k]

    def calc(self, n, a, tail, k):
        r = self.D.recT.get(re.sub(r'\[.*$', '', k).strip()) or self.D.recT.get(k.replace('>>', '> >'))
        if r is not None:
            return r['align'] if r['align'] >= 16 else 0
        n = re.sub(r'\[.*$', '', n).strip()
        if n in ('Eigen::Matrix', 'Eigen::Array') and len(a) >= 3:
            try:
                rows, cols = int(text(a[1])), int(text(a[2]))
                opt = int(text(a[3])) if len(a) > 3 else 0
            except ValueError:
                return 0
            if opt & 2:
                return 0
            size = SIZES.get(text(a[0]))
            if size is None:
                raise AnalysisError('element size of %s' % k)
            if rows < 0 or cols < 0:      # dynamic storage, unless a maximum is given
                return 0
            b = rows * cols * size
            return 16 if b % 16 == 0 else 0
        if n in ('Eigen::Quaternion',):
            return 16
        if n in ('Eigen::Transform',):
            return 16
        if n in ('std::pair', 'std::tuple', 'std::array', 'std::complex'):
            return max([self.need(x) for x in a if not re.fullmatch(r'\d+\w*', text(x))] or [0])
        return 0

    def bad(self, t, out):
        """containers in the type that place over-aligned elements in unaligned storage"""
        n, a, tail = bare(t)
        if n in CONTAINERS:
            al = [x for x in a if 'allocator' in x[0]]
            els = [x for x in a[:2 if 'map' in n else 1]]
            w = max([self.need(x) for x in els] or [0])
            if w:
                ok = any(x[0].split('::')[-1] in ('aligned_allocator', 'aligned_allocator_indirection') for x in al)
                out.append((n + '<' + text(els[0]) + '>', ok))
        for x in a:
            self.bad(x, out)


def run(C):
    D = load()
    A = Align(D)
    fns = library(D)
    nrec = 0
    for q, r in sorted(D.recT.items()):
        w = '%s:%s' % (r.get('file'), r.get('line'))
        if r['align'] >= 16:
            C.ob('class allocates itself aligned', q, w, r['opnew'] is True,
                 'its layout needs %d-byte alignment (%s) and it has no aligned operator new'
                 % (r['align'], ', '.join(x['n'] for x in r['fields'] if x['align'] >= 16) or 'a base class'))
        nrec += 1
        for x in r['fields']:
            out = []
            A.bad(parse(x['ts']), out)
            for el, ok in out:
                C.ob('container of aligned elements', '%s::%s %s' % (q, x['n'], el), w, ok, 'the elements are placed by an allocator that ignores their alignment')
    nt = 0
    for f in fns:
        C.functions.add('%s (%s:%s)' % (f['q'], f['file'], f['line']))
        seen = {}
        for t in f['T']:
            nt += 1
            if '<' not in t:
                continue
            out = []
            A.bad(parse(t), out)
            for el, ok in out:
                seen[el] = seen.get(el, True) and ok
        for el, ok in sorted(seen.items()):
            C.ob('container of aligned elements', '%s %s' % (f['q'], el), loc(f), ok, 'the elements are placed by an allocator that ignores their alignment')
        for part in [f['body']] + list(f.get('inits', [])):
            for n in walk(part):
                k = n.get('k')
                if k == 'new':
                    T = new_type(f, n)
                    t = parse(T)
                    w = A.need(t)
                    r = D.recT.get(T)
                    ok = not w or bare(t)[0].startswith('Eigen::') or bool(r and r['opnew'])
                    C.ob('created objects are aligned', '%s: new %s' % (f['q'], T), '%s:%s' % (f['file'], n.get('l')), ok, 'new %s returns storage aligned for ordinary types only' % T)
                elif k == 'call' and re.match(r'c:(@N@(std|__gnu_cxx)(@N@__\w+)?)?@F@_*(make_shared|allocate_shared)\b', n.get('fn') or ''):
                    fname = n.get('q') or n.get('n') or ''
                    T = f['T'][n['t']]
                    t = parse(T)
                    inner = t[1][0] if t[1] else None
                    ok = 'make_shared' in fname and inner is not None and not A.need(inner)
                    C.ob('created objects are aligned', '%s: %s %s' % (f['q'], fname, T), '%s:%s' % (f['file'], n.get('l')), ok, 'storage aligned for ordinary types only')
    C.count('records', nrec)
    C.count('types of declarations and expressions', nt)


def new_type(f, n):
    T = f['T'][n['at']].strip()
    if T.endswith('*'):
        T = T[:-1].strip()
    return T


def loc(f):
    return '%s:%s' % (f['file'], f['line'])
