"""Source database: builds the clang extractor if necessary, runs it over the
translation units of /repo's current working tree and loads the resolved
syntax trees."""
import fcntl, hashlib, json, os, re, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OGV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
EIGEN = '/usr/include/eigen3'


class AnalysisError(Exception):
    """the analysis cannot give an answer (broken anchor, unparsable source)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, 'tool', 'ogvx.cpp')
    out = os.path.join(BUILD, 'ogvx-' + file_hash([src])[:12])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(['clang++-18' if shutil.which('clang++-18') else 'clang++',
                '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
                LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so'])
        if r.returncode != 0:
            raise AnalysisError('cannot build the extractor:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def clang_flags(extra=()):
    return ['-std=c++11', '-fsyntax-only', '-w', '-I' + REPO + '/include', '-I' + EIGEN,
            '-I' + EIGEN + '/unsupported', '-resource-dir', LLVM + '/lib/clang/18'] + list(extra)


def repo_sources():
    out = []
    for root in ('src', 'include', 'python', 'matlab'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith(('.cpp', '.hpp', '.h', '.cc')):
                    out.append(os.path.join(d, f))
    return sorted(out)


def library_tus():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def rel(p):
    if p.startswith(REPO + '/'):
        return p[len(REPO) + 1:]
    if p.startswith(VERIF + '/'):
        return 'verif:' + p[len(VERIF) + 1:]
    return p


_INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)


def closure(tu, memo):
    """files of the tree a translation unit may include, transitively"""
    seen, st = {tu}, [tu]
    while st:
        f = st.pop()
        if f not in memo:
            with open(f, errors='replace') as h:
                txt = h.read()
            out = []
            for inc in _INC.findall(txt):
                for base in (os.path.dirname(f), REPO + '/include', REPO + '/src', os.path.join(VERIF, 'driver')):
                    c = os.path.normpath(os.path.join(base, inc))
                    if os.path.isfile(c):
                        out.append(c)
            memo[f] = (out, hashlib.sha256(txt.encode()).hexdigest())
        for c in memo[f][0]:
            if c not in seen:
                seen.add(c)
                st.append(c)
    return sorted(seen)


def extract(tus, extra=()):
    """tus: list of source files; returns list of loaded JSON objects"""
    t = tool()
    cdir = os.path.join(BUILD, 'ast')
    os.makedirs(cdir, exist_ok=True)
    now = time.time()
    for d in os.listdir(cdir):
        p = os.path.join(cdir, d)
        try:
            if now - os.path.getmtime(p) > 2 * 3600:
                os.remove(p)
        except OSError:
            pass
    memo = {}

    def one(tu):
        h = hashlib.sha256((t.rsplit('-', 1)[1] + rel(tu) + ' '.join(extra)).encode())
        for f in closure(tu, memo):
            h.update(rel(f).encode() + memo[f][1].encode())
        out = os.path.join(cdir, h.hexdigest()[:24] + '.json')
        if not os.path.exists(out):
            tmp = out + '.tmp%d.%s' % (os.getpid(), os.path.basename(tu))
            r = sh([t, tmp, tu, REPO + '/:' + VERIF + '/driver/', '--'] + clang_flags(extra), cwd='/')
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisError('cannot parse %s:\n%s' % (tu, r.stdout[-3000:]))
            with open(tmp) as f:
                txt = f.read().replace('"' + REPO + '/', '"@REPO@/')
            with open(tmp, 'w') as f:
                f.write(txt)
            os.rename(tmp, out)
        else:
            try:
                os.utime(out)
            except OSError:
                pass
        with open(out) as f:
            return json.loads(f.read().replace('"@REPO@/', '"' + REPO + '/'))
    # big first
    tus = sorted(tus, key=lambda p: -os.path.getsize(p))
    for tu in tus:
        closure(tu, memo)
    with ThreadPoolExecutor(8) as ex:
        return list(zip(tus, ex.map(one, tus)))


class DB:
    def __init__(self, tus, extra=()):
        self.fn = {}        # usr -> function (with '_T' types list)
        self.decl = {}      # usr -> decl info
        self.rec = {}       # usr -> record
        self.recq = {}      # qualified name -> record
        self.recT = {}
        self.enums = {}
        self.globals = {}
        self.by_q = {}
        self.units = []
        self.subs = {}      # overridden usr -> set of overriding usr
        for tu, j in extract(tus, extra):
            self.units.append(rel(tu))
            T = j['types']
            for u, d in j['decls'].items():
                if u in self.decl:
                    continue
                d['T'] = T
                for p in d['p']:
                    p['ts'] = T[p['t']]
                d['rs'] = T[d['r']]
                d['u'] = u
                self.decl[u] = d
            for f in j['functions']:
                if f['u'] in self.fn:
                    continue
                f['T'] = T
                f['file'] = rel(f['file'])
                self.fn[f['u']] = f
                self.by_q.setdefault(f['q'], []).append(f)
            for r in j['records']:
                if r['u'] in self.rec:
                    continue
                r['file'] = rel(r['file'])
                for x in r['fields']:
                    x['ts'] = T[x['t']]
                self.rec[r['u']] = r
                self.recq.setdefault(r['q'], r)
                self.recT.setdefault(r['T'], r)
            for e in j['enums']:
                self.enums[e['q']] = e
            for g in j['globals']:
                k = g['u']
                g['file'] = rel(g['file'])
                g['ts'] = T[g['t']]
                g['T'] = T
                if k not in self.globals or g['def']:
                    self.globals[k] = g
        for u, d in self.decl.items():
            for o in d.get('over', []):
                self.subs.setdefault(o, set()).add(u)

    # -- lookups ------------------------------------------------------------
    def functions(self, q):
        return self.by_q.get(q, [])

    def method(self, cls_q, name):
        return [f for f in self.fn.values() if f.get('cls') == cls_q and f['n'] == name]

    def one(self, q, pred=None):
        c = [f for f in self.by_q.get(q, []) if pred is None or pred(f)]
        if len(c) != 1:
            raise AnalysisError('anchor %s: expected exactly one definition, found %d' % (q, len(c)))
        return c[0]

    def bases(self, T):
        """all base type strings of record type string T (transitive)"""
        out = []
        w = [T]
        while w:
            t = w.pop()
            r = self.recT.get(t)
            if not r:
                continue
            for b in r['bases']:
                out.append(b['T'])
                w.append(b['T'])
        return out

    def overriders(self, u):
        out = set()
        w = [u]
        while w:
            x = w.pop()
            for s in self.subs.get(x, ()):
                if s not in out:
                    out.add(s)
                    w.append(s)
        return out


def param_ts(f, i):
    return f['T'][f['params'][i]['t']]


def walk(node):
    """all dict nodes of a JSON syntax tree"""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
