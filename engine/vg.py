"""Gated value-flow construction: evaluates the resolved syntax tree of a
function over value nodes (see nodes.py).  Joins of the control flow become
gates (`ite`), loops become phi nodes with closed forms where the loop is a
plain induction, calls into the repository are expanded, everything else is an
uninterpreted pure function of its inputs.  There is no path exploration: each
statement is visited once per expansion (loops until their set of loop-carried
locations is stable)."""
from nodes import *
from db import AnalysisError, rel
import re


class LV:
    """an lvalue: root + selector path.  selectors: ('f',name) ('e',idx)
    ('r',r0,c0,nr,nc,dim)"""
    __slots__ = ('root', 'path', 'ts')

    def __init__(self, root, path=(), ts=None):
        self.root, self.path, self.ts = root, path, ts

    def sub(self, s, ts=None):
        return LV(self.root, self.path + (s,), ts)


class Val:
    pass


def base_ts(ts):
    if ts is None:
        return ''
    ts = ts.strip()
    if ts.endswith('&&'):
        ts = ts[:-2]
    elif ts.endswith('&'):
        ts = ts[:-1]
    if ts.startswith('const '):
        ts = ts[6:]
    return ts.strip()


def eig(ts):
    """(kind, rows, cols, scalar) for an Eigen type string"""
    t = base_ts(ts)
    if t.startswith('E|'):
        p = t.split('|')
        return p[1], int(p[2]), int(p[3]), p[4]
    return None


def edim(ts):
    e = eig(ts)
    return (e[1], e[2]) if e else None


def is_int_ts(ts):
    t = base_ts(ts)
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'short', 'unsigned short', 'char',
                 'signed char', 'unsigned char', 'long long', 'unsigned long long', 'bool')


def is_float_ts(ts):
    return base_ts(ts) in ('double', 'float', 'long double')


def is_vec_ts(ts):
    t = base_ts(ts)
    return t.startswith('std::vector<') or t.startswith('std::array<') or t.startswith('std::deque<') \
        or t.startswith('std::list<') or t.startswith('std::initializer_list<')


def is_ptr_ts(ts):
    t = base_ts(ts)
    return t.endswith('*') or t.endswith('*const') or t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<')


def vec_elem_ts(ts):
    t = base_ts(ts)
    i = t.index('<')
    d = 0
    out = ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


class LoopInfo:
    def __init__(self, id):
        self.id = id
        self.cond = None
        self.vars = []      # (lv, mu, entry, back)
        self.breaks = []    # (guard, env)
        self.conts = []
        self.iv = None      # (mu, lo, hi, step)
        self.line, self.curfr = 0, None
        self.fn = None
        self.guard = TRUE
        self.env_header = None
        self.returns = []
        self.infinite = False
        self.itv = {}       # iterator position -> (root, path) of its container
        self.trip = None    # (lo, hi) of the induction variable


class State:
    __slots__ = ('env', 'guard', 'pend')

    def __init__(self, env, guard):
        self.env = env
        self.guard = guard

    def copy(self):
        return State(dict(self.env), self.guard)


class Exits:
    def __init__(self):
        self.brk = []
        self.cont = []
        self.ret = []    # (guard, env, value or LV)


class Frame:
    def __init__(self, f, T, this=None, cls=None, parent=None):
        self.f, self.T, self.this, self.cls = f, T, this, cls
        self.alias = {}
        self.id = fresh_id()
        self.parent = parent
        self.decl_ts = {}
        self.caller_loc = None


class Event:
    __slots__ = ('kind', 'data', 'guard', 'loops', 'line', 'file', 'fn', 'env', 'stack', 'arr')

    def __repr__(self):
        return '<%s %s:%s %s g=%s>' % (self.kind, self.file, self.line, self.data, self.guard)


class Budget(AnalysisError):
    pass


class VG:
    def __init__(self, db, inline=None, opaque=None, classes=None, max_depth=40, step_limit=400000,
                 keep_env_events=(), unroll=80, intercept=None):
        """inline(decl, fn) -> bool;  opaque(decl) -> None or handler
        classes: node -> record type string of the dynamic type of pointees
        intercept(vg, decl, call-kind, args...) custom semantics"""
        self.db = db
        self.inline = inline or (lambda d, f: True)
        self.classes = classes or {}
        self.events = []
        self.loops = {}
        self.loopstack = []
        self.steps = 0
        self.step_limit = step_limit
        self.depth = 0
        self.max_depth = max_depth
        self.stack = []
        self.unroll = unroll
        self.intercept = intercept
        self.newcls = {}
        self.keep_env_events = keep_env_events
        self.loopreg = {}
        self.loopanc = {}
        self.lambdas = {}
        self.warn = []
        self.fn_files = set()
        self.fns_seen = set()
        self.ret_ts = {}
        self.lambda_ct = 0
        self.callpath = ()
        self.track_freed = False
        self.line = 0
        self.unrollpath = ()

    # ------------------------------------------------------------- memory
    def init_of(self, root):
        if root[0] == 'obj':
            return mk('deref', root[1])
        if root[0] == 'glob':
            return mk('glob', root[1])
        return mk('undef', '?')

    def root_val(self, st, root):
        v = st.env.get(root)
        if v is None:
            v = self.init_of(root)
        if self.track_freed:
            c, x = TRUE, v
            while x.op == 'ite' and x.a[2].op != 'freed' and x.a[1].op != 'freed':
                x = x.a[2]
            if x.op == 'ite':
                x = x.a[1] if x.a[1].op == 'freed' else x.a[2]
            if x.op == 'freed':
                self.event('uaf', x.a[0], st, self.line, self.curfr)
        return v

    def read(self, st, lv):
        v = self.root_val(st, lv.root)
        for s in lv.path:
            v = self.select(v, s)
        if v.dim is None and lv.ts:
            d = edim(lv.ts)
            if d and v.op not in ('num', 'poly', 'bool', 'oob'):
                v.dim = d
        if lv.ts and is_int_ts(lv.ts) and v.meta is None:
            v.meta = 'i'
        return v

    def select(self, v, s):
        if s[0] == 'f':
            return sel_field(v, s[1])
        if s[0] == 'e':
            return sel_el(v, s[1])
        if s[0] == 'r':
            if v.dim is None and len(s) > 5 and s[5]:
                if v.op not in ('num', 'poly', 'bool', 'oob'):
                    v.dim = s[5]
            return region(v, *s[1:5])
        if s[0] == 'T':
            return transpose(v)
        if s[0] == 'diag':
            return mk('diag', v, dim=s[1] if len(s) > 1 else None)
        raise AnalysisError('bad selector %r' % (s,))

    def update(self, v, path, x, cls=''):
        if not path:
            return x
        s = path[0]
        inner = self.update(self.select(v, s), path[1:], x) if len(path) > 1 else x
        if s[0] == 'f':
            return upd_field(v, s[1], inner, s[2] if len(s) > 2 else '')
        if s[0] == 'e':
            return upd_el(v, s[1], inner)
        if s[0] == 'r':
            return upd_region(v, s[1], s[2], s[3], s[4], inner, s[5] if len(s) > 5 and s[5] and s[5][0] > 0 and s[5][1] > 0 else v.dim)
        if s[0] == 'T':
            return transpose(inner)
        if s[0] == 'diag':
            return mk('setdiag', v, inner, dim=v.dim)
        raise AnalysisError('bad selector')

    def write(self, st, lv, x):
        st.env[lv.root] = self.update(self.root_val(st, lv.root), lv.path, x)

    def addr_node(self, lv):
        return mk('addr', lv.root, lv.path)

    def deref(self, st, p, ts=None):
        """lvalue denoted by pointer value p"""
        if p.op == 'addr':
            return LV(p.a[0], p.a[1], ts)
        if p.op == 'padd' and p.a[0].op == 'addr':
            return LV(p.a[0].a[0], p.a[0].a[1] + (('e', p.a[1]),), ts)
        if p.op == 'padd':
            return LV(('obj', p.a[0]), (('e', p.a[1]),), ts)
        if p.op == 'it':
            return LV(p.a[0], p.a[1] + (('e', p.a[2]),), ts)
        return LV(('obj', p), (), ts)

    # -------------------------------------------------------------- events
    def event(self, kind, data, st, line, fr):
        e = Event()
        e.kind, e.data, e.guard, e.line = kind, data, st.guard, line
        e.loops = tuple(self.loopstack)
        e.file = fr.f['file'] if fr and fr.f else '?'
        e.fn = fr.f['q'] if fr and fr.f else '?'
        e.env = dict(st.env) if kind in self.keep_env_events or self.keep_env_events == '*' else None
        e.stack = tuple(self.stack)
        self.events.append(e)
        return e

    # --------------------------------------------------------- entry point
    def run(self, f, args=None, this=None, cls=None, env=None, guard=TRUE):
        """evaluate function f.  args: list of Node / LV / None (fresh opaque).
        returns (value, state, frame)"""
        fr = Frame(f, f['T'])
        fr.cls = cls or f.get('clsT')
        st = State(dict(env or {}), guard)
        if f.get('cls') and not f.get('static') and this is None:
            this = LV(('obj', mk('par', 'this')))
            self.classes.setdefault(mk('par', 'this'), fr.cls)
        fr.this = this
        args = list(args or [])
        for i, p in enumerate(f['params']):
            ts = f['T'][p['t']]
            a = args[i] if i < len(args) and args[i] is not None else None
            nm = p['n'] or 'arg%d' % i
            if ts.endswith('&'):
                if a is None:
                    a = LV(('obj', mk('par', nm)))
                elif not isinstance(a, LV):
                    r = ('local', fr.id, p['id'])
                    st.env[r] = a
                    a = LV(r)
                a = LV(a.root, a.path, ts)
                self.note_class(a, ts)
                fr.alias[p['id']] = a
            else:
                if a is None:
                    a = mk('par', nm)
                    if a.dim is None:
                        a.dim = edim(ts)
                    if is_int_ts(ts):
                        a.meta = 'i'
                elif isinstance(a, LV):
                    a = self.read(st, a)
                r = ('local', fr.id, p['id'])
                st.env[r] = a
                fr.alias[p['id']] = LV(r, (), ts)
        v, st = self.exec_fn(f, fr, st)
        return v, st, fr

    def note_class(self, lv, ts):
        if not lv.path and lv.root[0] == 'obj' and lv.root[1] not in self.classes:
            self.classes[lv.root[1]] = base_ts(ts)

    def exec_fn(self, f, fr, st):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Budget('call depth exceeded at %s' % f['q'])
        self.fns_seen.add((f['q'], f['file'], f['line']))
        g0 = st.guard
        ex = Exits()
        env_before = st.env
        if f.get('ctor'):
            self.ctor_inits(f, fr, st)
        st2 = self.stmt(f['body'], fr, st, ex)
        outs = list(ex.ret)
        val_ = None
        if st2 is not None:
            outs.append((st2.guard, st2.env, None))
        if not outs:
            # never returns
            self.depth -= 1
            st.guard = FALSE
            return mk('undef', 'noreturn'), st
        v, env = self.merge_outs(g0, outs, st)
        st3 = State(env, g0)
        # drop this frame's locals unless referenced from the returned value
        keep = set()
        if isinstance(v, LV):
            keep.add(v.root)
        for r in [r for r in st3.env if r[0] in ('local', 'tmp') and r[1] == fr.id]:
            if r not in keep and not self.escapes(r, v):
                del st3.env[r]
        self.depth -= 1
        return v, st3

    def escapes(self, r, v):
        return False

    def merge_outs(self, g0, outs, st):
        """outs: list of (guard, env, value); mutually exclusive guards"""
        g, env, v = outs[-1]
        for (gk, ek, vk) in reversed(outs[:-1]):
            c = self.rel_guard(gk, g0)
            env = self.merge_env(c, ek, env)
            v = self.merge_val(c, vk, v, ek, env)
        return v, env

    def rel_guard(self, g, g0):
        """the part of g beyond g0"""
        if g is g0:
            return TRUE
        if g0 is TRUE:
            return g
        base = set(x for x in (g0.a[0] if g0.op == 'and' else (g0,)))
        parts = [x for x in (g.a[0] if g.op == 'and' else (g,)) if x not in base]
        return band(*parts)

    def merge_val(self, c, a, b, ea, eb):
        if a is None and b is None:
            return None
        if isinstance(a, LV) and isinstance(b, LV):
            if a.root == b.root and a.path == b.path:
                return a
            sa, sb = State(ea, TRUE), State(eb, TRUE)
            return ite(c, self.read(sa, a), self.read(sb, b))
        if isinstance(a, LV):
            a = self.read(State(ea, TRUE), a)
        if isinstance(b, LV):
            b = self.read(State(eb, TRUE), b)
        if a is None or b is None:
            return a if b is None else b
        return ite(c, a, b)

    def merge_env(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        out = {}
        for r in a.keys() | b.keys():
            x, y = a.get(r), b.get(r)
            if x is None:
                if r[0] in ('local', 'tmp'):
                    out[r] = y
                    continue
                x = self.init_of(r)
            if y is None:
                if r[0] in ('local', 'tmp'):
                    out[r] = x
                    continue
                y = self.init_of(r)
            out[r] = self.merge_node(c, x, y)
        return out

    def merge_node(self, c, x, y):
        if x is y:
            return x
        # field-wise for records, region-wise for assembled matrices
        if x.op == 'rec' or y.op == 'rec':
            bx = x.a[1] if x.op == 'rec' else x
            by = y.a[1] if y.op == 'rec' else y
            if bx is by:
                fx = dict(x.a[2]) if x.op == 'rec' else {}
                fy = dict(y.a[2]) if y.op == 'rec' else {}
                out = {}
                for f in fx.keys() | fy.keys():
                    p = fx[f] if f in fx else (sel_field(bx, f) if bx is not None else mk('undef', '?'))
                    q = fy[f] if f in fy else (sel_field(by, f) if by is not None else mk('undef', '?'))
                    out[f] = self.merge_node(c, p, q)
                return rec((x if x.op == 'rec' else y).a[0], bx, out)
        if x.op == 'mupd' and y.op == 'mupd' and x.a[2:] == y.a[2:]:
            rx = {r[:4]: r[4] for r in x.a[1]}
            ry = {r[:4]: r[4] for r in y.a[1]}
            if rx.keys() == ry.keys() and x.a[0] is y.a[0]:
                return mupd_norm(x.a[0], [k + (ite(c, rx[k], ry[k]),) for k in rx], x.a[2], x.a[3])
        return ite(c, x, y)

    def ctor_inits(self, f, fr, st):
        for i in f.get('inits', []):
            if 'f' in i:
                ts = f['T'][i['ft']]
                lv = fr.this.sub(('f', i['f'], f.get('clsT')), ts)
                e = i['e']
                if ts.endswith('&'):
                    x = self.ev(e, fr, st)
                    if isinstance(x, LV):
                        self.write(st, lv, self.addr_node(x))
                        # the reference binds: keep pointee node when it is an opaque object
                        if not x.path and x.root[0] == 'obj':
                            self.write(st, lv, x.root[1])
                    else:
                        self.write(st, lv, x)
                else:
                    self.init_var(lv, ts, e, fr, st)
            elif 'base' in i:
                e = i['e']
                if e and e.get('k') == 'ctor':
                    self.call_ctor(e, fr.this, fr, st, f['T'])

    # ---------------------------------------------------------- statements
    def stmt(self, s, fr, st, ex):
        """returns the state after s, or None when s does not complete"""
        if s is None or st is None:
            return st
        self.steps += 1
        if self.steps > self.step_limit:
            raise Budget('step limit exceeded in %s' % fr.f['q'])
        k = s['k']
        if self.track_freed and s.get('l'):
            self.line, self.curfr = s['l'], fr
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError('statement kind %s at %s:%s' % (k, fr.f['file'], s.get('l')))
        return m(s, fr, st, ex)

    def s_nop(self, s, fr, st, ex):
        return st

    def s_otherstmt(self, s, fr, st, ex):
        self.warn.append('skipped %s at %s:%d' % (s.get('cls'), fr.f['file'], s['l']))
        return st

    def s_block(self, s, fr, st, ex):
        for x in s['s']:
            st = self.stmt(x, fr, st, ex)
            if st is None:
                return None
        return st

    def s_try(self, s, fr, st, ex):
        return self.stmt(s['b'], fr, st, ex)

    def s_expr(self, s, fr, st, ex):
        self.ev(s['e'], fr, st)
        if st.guard is FALSE:
            return None
        return st

    def s_decl(self, s, fr, st, ex):
        for v in s['v']:
            self.decl(v, fr, st)
        return st

    def decl(self, v, fr, st):
        ts = fr.T[v['t']]
        fr.decl_ts[v['id']] = ts
        if v.get('static'):
            r = ('glob', 'static:%s:%s' % (fr.f['q'], v['n']))
            fr.alias[v['id']] = LV(r, (), ts)
            if 'i' in v and r not in st.env:
                self.init_var(LV(r, (), ts), ts, v['i'], fr, st)
            return
        if ts.endswith('&'):
            x = self.ev(v['i'], fr, st)
            if isinstance(x, LV):
                fr.alias[v['id']] = LV(x.root, x.path, ts)
            else:
                r = ('local', fr.id, v['id'])
                st.env[r] = x
                fr.alias[v['id']] = LV(r, (), ts)
            return
        r = ('local', fr.id, v['id'])
        lv = LV(r, (), ts)
        fr.alias[v['id']] = lv
        if 'i' in v and v['i'] is not None:
            self.init_var(lv, ts, v['i'], fr, st)
        else:
            st.env[r] = self.default(ts)

    def default(self, ts, zero=False):
        if is_vec_ts(ts):
            return EMPTY
        if is_ptr_ts(ts) and not base_ts(ts).endswith('*'):
            return NULL
        if zero and (is_int_ts(ts) or is_float_ts(ts)):
            return ZERO
        d = edim(ts)
        return undefm(d) if d else mk('undef', base_ts(ts))

    def init_var(self, lv, ts, e, fr, st):
        if e is None:
            self.write(st, lv, self.default(ts))
            return
        if e['k'] == 'ctor':
            self.call_ctor(e, lv, fr, st, fr.T)
            return
        if e['k'] == 'ilist':
            self.write(st, lv, self.e_ilist(e, fr, st, ts))
            return
        x = self.rv(e, fr, st)
        if is_int_ts(ts) and x.meta is None:
            x.meta = 'i'
        if x.dim is None and edim(ts) and x.op not in ('num', 'poly', 'bool'):
            x.dim = edim(ts)
        self.write(st, lv, x)

    def s_return(self, s, fr, st, ex):
        v = None
        if s.get('e') is not None:
            rts = fr.T[fr.f['ret']] if 'ret' in fr.f else ''
            x = self.ev(s['e'], fr, st)
            if rts.endswith('&'):
                v = x
            else:
                v = self.val(x, st)
        if st.guard is not FALSE:
            ex.ret.append((st.guard, st.env, v))
        return None

    def s_break(self, s, fr, st, ex):
        ex.brk.append((st.guard, st.env))
        return None

    def s_continue(self, s, fr, st, ex):
        ex.cont.append((st.guard, st.env))
        return None

    def s_if(self, s, fr, st, ex):
        if s.get('init'):
            st = self.stmt(s['init'], fr, st, ex)
        if s.get('cv'):
            self.decl(s['cv'], fr, st)
        c = self.dec(as_bool(self.rv(s['c'], fr, st)))
        return self.branch(c, lambda t: self.stmt(s['a'], fr, t, ex),
                           lambda t: self.stmt(s.get('b'), fr, t, ex), st)

    def branch(self, c, fa, fb, st):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        g = st.guard
        ga, gb = band(g, c), band(g, bnot(c))
        if ga is FALSE:
            return fb(st)
        if gb is FALSE:
            return fa(st)
        sa = State(dict(st.env), ga)
        sb = State(st.env, gb)
        ra = fa(sa)
        rb = fb(sb)
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        if ra.guard is ga and rb.guard is gb:
            ng = g
        else:
            ng = bor(ra.guard, rb.guard)
        return State(self.merge_env(c, ra.env, rb.env), ng)

    def s_switch(self, s, fr, st, ex):
        c = self.rv(s['c'], fr, st)
        # flatten the cases of the body block
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        seq = []   # (labels, stmt)
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(('d', None) if x['k'] == 'default' else ('c', x['v'].get('c')))
                x = x['s']
            seq.append((labels, x))
        values = [v for ls, _ in seq for k, v in ls if k == 'c']
        has_default = any(k == 'd' for ls, _ in seq for k, v in ls)
        sub = Exits()
        sub.cont, sub.ret = ex.cont, ex.ret
        entries = []
        for i, (ls, _) in enumerate(seq):
            for k, v in ls:
                if k == 'c':
                    entries.append((eq(c, num(v)), i))
        outs = []
        rest = TRUE
        normal = None
        g0 = st.guard
        allneg = band(*[bnot(e) for e, _ in entries]) if entries else TRUE
        starts = list(entries)
        for i, (ls, _) in enumerate(seq):
            if any(k == 'd' for k, v in ls):
                starts.append((allneg, i))
        if not has_default:
            starts.append((allneg, len(seq)))
        results = []
        # merge entries that start at the same statement
        by = {}
        for e, i in starts:
            by[i] = bor(by[i], e) if i in by else e
        for i, e in sorted(by.items()):
            if e is FALSE:
                continue
            g = band(g0, e)
            if g is FALSE:
                continue
            t = State(dict(st.env), g)
            sx = Exits()
            sx.cont, sx.ret = ex.cont, ex.ret
            for ls, x in seq[i:]:
                t = self.stmt(x, fr, t, sx)
                if t is None:
                    break
            outs_i = [(gg, ee) for gg, ee in sx.brk]
            if t is not None:
                outs_i.append((t.guard, t.env))
            results.extend(outs_i)
        if not results:
            return None
        g, env = results[-1]
        for gk, ek in reversed(results[:-1]):
            env = self.merge_env(self.rel_guard(gk, g0), ek, env)
            g = bor(gk, g)
        if len(ex.ret) == 0 and len(ex.cont) == 0:
            pass
        # when no path left the switch otherwise the guard is the entry guard
        return State(env, self.simplify_guard(g, g0))

    def simplify_guard(self, g, g0):
        return g

    def s_case(self, s, fr, st, ex):
        return self.stmt(s['s'], fr, st, ex)

    s_default = s_case

    # --------------------------------------------------------------- loops
    def s_for(self, s, fr, st, ex):
        st = self.stmt(s.get('i'), fr, st, ex)
        return self.loop(s.get('c'), s.get('n'), s['b'], fr, st, ex, s['l'])

    def s_while(self, s, fr, st, ex):
        return self.loop(s['c'], None, s['b'], fr, st, ex, s['l'])

    def s_do(self, s, fr, st, ex):
        return self.loop(s['c'], None, s['b'], fr, st, ex, s['l'], do=True)

    def s_rfor(self, s, fr, st, ex):
        x = self.ev(s['r'], fr, st)
        if not isinstance(x, LV):
            r = ('local', fr.id, 'rng%d' % fresh_id())
            st.env[r] = x
            x = LV(r, (), fr.T[s['r']['t']])
        idx = LV(('local', fr.id, 'rix%d' % s['l']), (), 'unsigned long')
        st.env[idx.root] = ZERO
        ts = fr.T[s['v']['t']]
        v = s['v']

        def cond(t):
            return lt(self.read(t, idx), self.vsize(t, x), True)

        def body(t, sx):
            el = x.sub(('e', self.read(t, idx)), ts)
            if ts.endswith('&'):
                fr.alias[v['id']] = el
            else:
                r = ('local', fr.id, v['id'])
                t.env[r] = self.read(t, el)
                fr.alias[v['id']] = LV(r, (), ts)
            return self.stmt(s['b'], fr, t, sx)

        def inc(t):
            self.write(t, idx, add(self.read(t, idx), ONE))
        return self.loop_g(cond, inc, body, fr, st, ex, s['l'])

    def vsize(self, st, lv):
        return size(self.read(st, lv))

    hyp = None

    def dec(self, c):
        """a condition, decided when a hypothesis about the data is given"""
        return c if self.hyp is None or c in (TRUE, FALSE) else self.hyp(c)

    def loop(self, cond, inc, body, fr, st, ex, line, do=False):
        fc = (lambda t: self.dec(as_bool(self.rv(cond, fr, t)))) if cond is not None else (lambda t: TRUE)
        fi = (lambda t: self.ev(inc, fr, t)) if inc is not None else (lambda t: None)
        fb = lambda t, sx: self.stmt(body, fr, t, sx)
        return self.loop_g(fc, fi, fb, fr, st, ex, line, do)

    def merge_states(self, outs, g0):
        """outs list of (guard, env) -> State or None"""
        outs = [o for o in outs if o[0] is not FALSE]
        if not outs:
            return None
        g, env = outs[-1]
        for gk, ek in reversed(outs[:-1]):
            env = self.merge_env(self.rel_guard(gk, g0), ek, env)
            g = bor(gk, g)
        return State(env, g)

    def loop_g(self, fc, fi, fb, fr, st, ex, line, do=False):
        # ---- try to unroll while the condition is decided
        r = self.try_unroll(fc, fi, fb, fr, st, ex, line, do)
        if r is not False:
            return r
        return self.loop_generic(fc, fi, fb, fr, st, ex, line, do)

    def unroll_limits(self, fr, line):
        return self.unroll, 60000

    def try_unroll(self, fc, fi, fb, fr, st, ex, line, do):
        lim = self.unroll_limits(fr, line)
        ne = len(self.events)
        nl = dict(self.loops)
        t = st.copy()
        if not do:
            c = fc(t.copy())
            if c not in (TRUE, FALSE):
                del self.events[ne:]
                self.loops = nl
                return False
        sub = Exits()
        brk = []
        g0 = st.guard
        n = 0
        steps0 = self.steps
        al0 = dict(fr.alias)
        first = do
        while True:
            if not first:
                ct = t
                c = fc(ct)
                if c is FALSE:
                    break
                if c is not TRUE:
                    del self.events[ne:]
                    self.loops = nl
                    fr.alias = al0
                    return False
            first = False
            n += 1
            if n > lim[0] or self.steps - steps0 > lim[1]:
                del self.events[ne:]
                self.loops = nl
                fr.alias = al0
                self.steps = steps0
                return False
            sx = Exits()
            sx.ret = sub.ret
            up = self.unrollpath
            self.unrollpath = up + (n,)
            try:
                t2 = fb(t, sx)
            finally:
                self.unrollpath = up
            outs = list(sx.cont)
            if t2 is not None:
                outs.append((t2.guard, t2.env))
            brk.extend(sx.brk)
            t = self.merge_states(outs, g0)
            if t is None:
                break
            fi(t)
        outs = list(brk)
        if t is not None:
            outs.append((t.guard, t.env))
        ex.ret.extend(sub.ret)
        return self.merge_states(outs, g0)

    def diff(self, a, b, path=()):
        """changed sub-locations between two values"""
        if a is b:
            return []
        if b.op == 'rec' or a.op == 'rec':
            ba = a.a[1] if a.op == 'rec' else a
            bb = b.a[1] if b.op == 'rec' else b
            if ba is bb:
                fa = dict(a.a[2]) if a.op == 'rec' else {}
                fb = dict(b.a[2]) if b.op == 'rec' else {}
                out = []
                for f in sorted(fa.keys() | fb.keys()):
                    x = fa[f] if f in fa else (sel_field(ba, f) if ba is not None else mk('undef', '?'))
                    y = fb[f] if f in fb else (sel_field(bb, f) if bb is not None else mk('undef', '?'))
                    out += self.diff(x, y, path + (('f', f, (b if b.op == 'rec' else a).a[0]),))
                return out
        if b.op == 'mupd' and a.op in ('mupd', 'undef'):
            ra = {r[:4]: r[4] for r in (a.a[1] if a.op == 'mupd' else ())}
            same = [k for k in (r[:4] for r in b.a[1]) if k in ra]
            out = []
            d = (b.a[2], b.a[3])
            ok = True
            for r in b.a[1]:
                k = r[:4]
                if k in ra:
                    if ra[k] is not r[4]:
                        out.append(path + (('r',) + k + (d,),))
                else:
                    # must not overlap an old region
                    for o in ra:
                        if not (o[0] >= k[0] + k[2] or k[0] >= o[0] + o[2] or o[1] >= k[1] + k[3] or k[1] >= o[1] + o[3]):
                            ok = False
                    out.append(path + (('r',) + k + (d,),))
            if ok and all(any(k == r[:4] for r in b.a[1]) for k in ra):
                return out
            return [path]
        return [path]

    def loop_generic(self, fc, fi, fb, fr, st, ex, line, do):
        lid = fresh_id()
        L = LoopInfo(lid)
        L.line, L.fn = line, fr.f['q']
        L.file = fr.f['file']
        L.guard = st.guard
        L.anc = tuple(self.loopstack)
        self.loopanc[lid] = L.anc
        mus = {}
        order = []
        notsz = set()
        pinned, nopin = set(), set()
        al0 = dict(fr.alias)
        for it in range(16):
            ne = len(self.events)
            nl = dict(self.loops)
            fr.alias = dict(al0)
            h = st.copy()
            # header: all changed locations become phi nodes
            for key in order:
                self.write(h, LV(key[0], key[1]), mus[key])
            header_env = dict(h.env)
            self.loopstack.append(lid)
            try:
                g0 = h.guard
                L.breaks, L.returns = [], []
                sx = Exits()
                if do:
                    t = fb(h, sx)
                    outs = list(sx.cont)
                    if t is not None:
                        outs.append((t.guard, t.env))
                    t = self.merge_states(outs, g0)
                    c = TRUE
                    if t is not None:
                        fi(t)
                        c = fc(t)
                        L.end_env, L.end_guard = dict(t.env), t.guard
                    back = State(t.env, band(t.guard, c)) if t is not None else None
                    exit_norm = (band(t.guard, bnot(c)), t.env) if t is not None else None
                    L.cond = c
                else:
                    c = fc(h)
                    L.cond = c
                    header_after_cond = dict(h.env)
                    exit_norm = (band(h.guard, bnot(c)), header_after_cond)
                    b0 = State(dict(h.env), band(h.guard, c))
                    t = fb(b0, sx) if b0.guard is not FALSE else None
                    outs = list(sx.cont)
                    if t is not None:
                        outs.append((t.guard, t.env))
                    L.conts = list(sx.cont)
                    t = self.merge_states(outs, b0.guard)
                    if t is not None:
                        fi(t)
                    back = t
                L.breaks = list(sx.brk)
                L.returns = list(sx.ret)
            finally:
                self.loopstack.pop()
            # what changed along the back edge?
            new = []
            if back is not None:
                for r, v in back.env.items():
                    if r not in header_env:
                        if r[0] in ('local', 'tmp'):
                            continue
                        old = self.init_of(r)
                    else:
                        old = header_env[r]
                    if v is not old:
                        for p in self.diff(old, v):
                            key = (r, p)
                            if key in mus:
                                m = mus[key]
                                if m.op == 'it':
                                    x = self.read(back, LV(r, p))
                                    if not (x.op == 'it' and x.a[0] == m.a[0] and x.a[1] == m.a[1]):
                                        mus[key] = mk('mu', lid, 500000 + self.fresh_mu())
                                        new = new or [None]
                                continue
                            # a prefix or extension already a phi?
                            if any(k[0] == r and (k[1] == p[:len(k[1])]) for k in mus):
                                continue
                            new.append(key)
            if not new and back is not None:
                # locations every pass leaves at their first value (assumed, then re-checked)
                again = False
                canon = lambda x: ZERO if x is FALSE else ONE if x is TRUE else x
                for key in list(order):
                    mu = mus[key]
                    e = self.read(st, LV(key[0], key[1]))
                    if key in pinned:
                        if canon(self.read(back, LV(key[0], key[1]))) is not canon(e):
                            pinned.discard(key)
                            nopin.add(key)
                            mus[key] = mk('mu', lid, self.fresh_mu(), dim=self.path_dim(key[1]) or e.dim)
                            mus[key].meta = e.meta
                            again = True
                    elif key not in nopin and canon(e) in (ZERO, ONE) and canon(subst(self.read(back, LV(key[0], key[1])), {mu: e})) is canon(e):
                        pinned.add(key)
                        mus[key] = e
                        again = True
                if again:
                    del self.events[ne:]
                    self.loops = nl
                    continue
            if not new:
                # containers whose length no iteration changes (assumed, then re-checked)
                again = False
                for key in order:
                    mu = mus[key]
                    e = self.read(st, LV(key[0], key[1]))
                    if back is None or e.dim is not None or e.op in ('num', 'poly', 'bool'):
                        continue
                    b = self.read(back, LV(key[0], key[1]))
                    if mu in SIZEOF:
                        if size(b) is not SIZEOF[mu]:
                            del SIZEOF[mu]
                            notsz.add(mu)
                            again = True
                    elif mu not in notsz and b is not mu and b.op in ('st', 'mapst', 'ite', 'map', 'lx') and size(b) is size(mu):
                        SIZEOF[mu] = size(e)
                        again = True
                if again:
                    del self.events[ne:]
                    self.loops = nl
                    continue
                break
            for key in new:
                if key is None:
                    continue
                # drop finer phis below a coarser one
                for k in [k for k in order if k[0] == key[0] and k[1][:len(key[1])] == key[1] and k != key]:
                    order.remove(k)
                    del mus[k]
                e = self.read(st, LV(key[0], key[1]))
                mus[key] = mk('mu', lid, self.fresh_mu(), dim=self.path_dim(key[1]) or e.dim)
                mus[key].meta = e.meta
                if e.op == 'it':
                    # an iterator that stays in its container: its position is what changes
                    x = self.read(back, LV(key[0], key[1]))
                    if x.op == 'it' and x.a[0] == e.a[0] and x.a[1] == e.a[1]:
                        mus[key].meta = 'i'
                        mus[key] = mk('it', e.a[0], e.a[1], mus[key])
                order.append(key)
            del self.events[ne:]
            self.loops = nl
        else:
            raise Budget('loop at %s:%s does not stabilise' % (fr.f['file'], line))
        for key in order:
            if key in pinned:
                continue
            mu = mus[key]
            lv = LV(key[0], key[1])
            entry = self.read(st, lv)
            bk = self.read(back, lv) if back is not None else mu
            if mu.op == 'it':
                L.itv[mu.a[2]] = mu.a[:2]
                mu, entry, bk = mu.a[2], entry.a[2], bk.a[2]
            L.vars.append((lv, mu, entry, bk))
        L.env_header = header_env
        L.back_env = back.env if back is not None else None
        L.back_guard = back.guard if back is not None else FALSE
        L.g0 = g0
        self.loops[lid] = L
        # returns inside the loop
        for (g, env, v) in L.returns:
            vv = v if not isinstance(v, LV) else self.read(State(env, TRUE), v)
            ex.ret.append((mk('someiter', lid, g), {r: (x if x is st.env.get(r) else x) for r, x in env.items()}, vv))
        # ---- closed forms
        res = st.copy()
        if not do and not L.breaks:
            cl = self.closed(L)
        else:
            cl = {}
            self.closed_iv(L)
        if do:
            base_env = exit_norm[1] if exit_norm else None
        for (lv, mu, entry, bk) in L.vars:
            if mu in cl:
                x = cl[mu]
            else:
                x = mk('lx', lid, mu, dim=mu.dim)
                if mu in SIZEOF:
                    SIZEOF[x] = SIZEOF[mu]
                x.meta = mu.meta
            if mu in L.itv:
                x = mk('it', L.itv[mu][0], L.itv[mu][1], x)
            self.write(res, lv, x)
        # condition side effects (e.g. while(i-- > 0)) are part of the header
        if not do:
            for r, v in exit_norm[1].items():
                if v is not header_env.get(r) and (r in header_env or r[0] not in ('local', 'tmp')):
                    old = header_env.get(r, self.init_of(r))
                    for p in self.diff(old, v):
                        x = self.read(State(exit_norm[1], TRUE), LV(r, p))
                        self.write(res, LV(r, p), mk('lxe', lid, x, dim=x.dim))
        # values assigned on the way to a break are visible after the loop
        if L.breaks:
            for g, env in L.breaks:
                for r, v in env.items():
                    if r not in header_env:
                        if r[0] in ('local', 'tmp'):
                            continue
                        old = self.init_of(r)
                    else:
                        old = header_env[r]
                    if v is not old:
                        for p in self.diff(old, v):
                            lv = LV(r, p)
                            if not any(l.root == r and l.path == p[:len(l.path)] for l, _, _, _ in L.vars):
                                x = mk('lb', lid, self.read(st, lv), dim=self.read(st, lv).dim)
                                self.write(res, lv, x)
        return res

    def path_dim(self, path):
        if path and path[-1][0] == 'r':
            a, b = path[-1][3], path[-1][4]
            return (a if isinstance(a, int) else -1, b if isinstance(b, int) else -1)
        return None

    def inv_in(self, n, L):
        """n does not depend on phi nodes of loop L"""
        return not contains_any(n, lambda y: y.op in ('mu', 'lx', 'lxe', 'lb') and y.a[0] == L.id)

    def closed_iv(self, L):
        """find induction variable mu with cond lt(mu, hi) / lt(lo, mu)"""
        for (lv, mu, entry, bk) in L.vars:
            if is_num(sub(bk, mu)) and val(sub(bk, mu)) == 1:
                for c in (L.cond.a[0] if L.cond.op == 'and' else (L.cond,)):
                    if c.op == 'lt' and c.a[0] is mu and self.inv_in(c.a[1], L):
                        L.trip = (mu, entry, c.a[1], c is L.cond)
                        return
                    if c.op == 'not' and c.a[0].op == 'eq' and mu in c.a[0].a:
                        o = c.a[0].a[1] if c.a[0].a[0] is mu else c.a[0].a[0]
                        if self.inv_in(o, L):
                            L.trip = (mu, entry, o, c is L.cond)
                            return
                    if c.op == 'not' and c.a[0].op == 'lt' and c.a[0].a[1] is mu and self.inv_in(c.a[0].a[0], L):
                        # mu <= hi
                        L.trip = (mu, entry, add(c.a[0].a[0], ONE), c is L.cond)
                        return
            elif mu.op == 'mu' and bk.op == 'it' and False:
                pass

    def fresh_mu(self):
        self.mu_n = getattr(self, 'mu_n', -1) + 1
        return self.mu_n

    def closed(self, L):
        self.closed_iv(L)
        # iterator induction
        out = {}
        if L.trip is None or not L.trip[3]:
            return out
        iv, lo, hi, _ = L.trip
        out[iv] = hi if (lo is ZERO and nonneg(hi)) else (hi if is_num(sub(hi, lo)) and val(sub(hi, lo)) >= 0 else mk('lx', L.id, iv))
        sub_iv = {}
        for (lv, mu, entry, bk) in L.vars:
            if mu is iv:
                continue
            d = sub(bk, mu) if (bk.dim is None and mu.dim is None) else None
            if d is not None and is_num(d) and (is_num(entry) or entry.meta == 'i'):
                sub_iv[mu] = add(entry, scale(sub(iv, lo), val(d)))
                out[mu] = add(entry, scale(sub(hi, lo), val(d)))
        pend = [v for v in L.vars if v[1] is not iv and v[1] not in sub_iv]
        carried = set(v[1] for v in pend)
        for (lv, mu, entry, bk) in pend:
            if sub_iv:
                bk = subst(bk, sub_iv)
            x = self.close_one(L, mu, entry, bk, iv, lo, hi)
            if x is not None:
                out[mu] = x
        return out

    def pure_iter(self, n, L, iv):
        """n is a function of the iteration number and loop-invariant values"""
        return not contains_any(n, lambda y: (y.op in ('mu', 'lx', 'lxe', 'lb') and y.a[0] == L.id and y is not iv)
                                or (y.op in ('lx', 'lxe', 'lb', 'someiter', 'mu') and L.id in self.loopanc.get(y.a[0], ()))
                                or (y.op == 'seq'))

    def close_one(self, L, mu, entry, bk, iv, lo, hi):
        # push_back once per iteration
        if bk.op == 'push' and bk.a[0] is mu and self.pure_iter(bk.a[1], L, iv):
            return cat(entry, vmap(lo, hi, iv, bk.a[1]))
        if bk.op == 'cat' and bk.a[0] is mu and self.pure_iter(bk.a[1], L, iv):
            return mk('catloop', entry, *self._bind(lo, hi, iv, bk.a[1]))
        if bk.op == 'ite':
            c, x, y = bk.a
            if y is mu and x.op == 'push' and x.a[0] is mu and self.pure_iter(x.a[1], L, iv) and self.pure_iter(c, L, iv):
                return cat(entry, vfilter(lo, hi, iv, c, x.a[1]))
            if x is mu and y.op == 'push' and y.a[0] is mu and self.pure_iter(y.a[1], L, iv) and self.pure_iter(c, L, iv):
                return cat(entry, vfilter(lo, hi, iv, bnot(c), y.a[1]))
            # selected elements stored at a running position
            if x is mu or y is mu:
                cc, z = (c, x) if y is mu else (bnot(c), y)
                if z.op == 'st' and z.a[0] is mu and self.pure_iter(cc, L, iv) and self.pure_iter(z.a[2], L, iv):
                    for (_, m2, e2, b2) in L.vars:
                        if m2 is z.a[1] and e2 is ZERO and b2 is ite(cc, add(m2, ONE), m2):
                            return mk('packed', entry, vfilter(lo, hi, iv, cc, z.a[2]))
        # conditional stores to one element: st(mu, k, c ? x : mu[k])
        if bk.op == 'ite':
            bk = self.store_form(bk, mu) or bk
        # element store at iv
        if bk.op == 'st' and bk.a[0] is mu and bk.a[1] is iv:
            body = subst(bk.a[2], {mk('el', mu, iv): sel_el(entry, iv)})
            if self.pure_iter(body, L, iv):
                return vmapst(entry, lo, hi, iv, body)
        # a fixed element of the carried vector is what evolves
        if bk.op == 'st' and bk.a[0] is mu and bk.a[1] is not iv and self.inv_in(bk.a[1], L):
            k = bk.a[1]
            x = self.close_one(L, mk('el', mu, k), sel_el(entry, k), bk.a[2], iv, lo, hi)
            if x is not None:
                return upd_el(entry, k, x)
        # matrix regions written once per iteration
        if bk.op == 'mst':
            ws, z = [], bk
            while z.op == 'mst' and z is not mu:
                ws.append(z.a[1:6])
                z = z.a[0]
            if z is mu and all(self.pure_iter(y, L, iv) for w in ws for y in w if isinstance(y, N)):
                flat = mk('tup', tuple(_n(y) for w in reversed(ws) for y in w))
                lo_, hi_, bv, body = self._bind(lo, hi, iv, flat)
                return mk('mloop', entry, lo_, hi_, bv, body, dim=entry.dim)
        # accumulation
        if bk.dim in (None, (1, 1)):
            if bk.op == 'ite':
                c, x, y = bk.a
                if (x is mu or y is mu) and self.pure_iter(c, L, iv):
                    d = sub(x, y) if y is mu else sub(y, x)
                    if self.pure_iter(d, L, iv):
                        t = ite(c, d, ZERO) if y is mu else ite(c, ZERO, d)
                        return add(entry, vsum(lo, hi, iv, t))
            d = sub(bk, mu)
            if self.pure_iter(d, L, iv) and bk.op == 'poly' and contains(bk, mu):
                return add(entry, vsum(lo, hi, iv, d))
        else:
            d = madd(bk, mscale(num(-1), mu), bk.dim)
            if self.pure_iter(d, L, iv) and bk.op == 'msum':
                s = vsum(lo, hi, iv, d)
                s.dim = bk.dim
                return madd(entry, s, bk.dim)
        return None

    def store_form(self, x, mu):
        ks = set()

        def scan(y):
            if y is mu:
                return True
            if y.op == 'st' and y.a[0] is mu:
                ks.add(y.a[1])
                return True
            if y.op == 'ite':
                return scan(y.a[1]) and scan(y.a[2])
            return False
        if not scan(x) or len(ks) != 1:
            return None
        k = ks.pop()

        def conv(y):
            if y is mu:
                return sel_el(mu, k)
            if y.op == 'st':
                return y.a[2]
            return ite(y.a[0], conv(y.a[1]), conv(y.a[2]))
        return mk('st', mu, k, conv(x))

    def _bind(self, lo, hi, iv, body):
        m = vmap(lo, hi, iv, body)
        if m.op == 'map':
            return m.a
        return (lo, hi, iv, body)

    # --------------------------------------------------------- expressions
    def val(self, x, st):
        if isinstance(x, LV):
            return self.read(st, x)
        return x

    def rv(self, e, fr, st):
        x = self.ev(e, fr, st)
        if isinstance(x, LV):
            if x.ts is None:
                x.ts = fr.T[e['t']]
            v = self.read(st, x)
            if v.meta is None and v.op in ('fld', 'par', 'deref', 'el') and x.ts.replace('const ', '') in ('bool', 'bool &'):
                v.meta = 'b'
            return v
        if x is None:
            return mk('undef', 'void')
        return x

    def lvof(self, e, fr, st):
        """lvalue of e; temporaries get a fresh root"""
        x = self.ev(e, fr, st)
        if isinstance(x, LV):
            if x.ts is None:
                x.ts = fr.T[e['t']]
            return x
        r = ('tmp', fr.id, fresh_id())
        st.env[r] = x if x is not None else mk('undef', 'void')
        return LV(r, (), fr.T[e['t']])

    def ev(self, e, fr, st):
        if e is None:
            return None
        self.steps += 1
        if self.steps > self.step_limit:
            raise Budget('step limit exceeded in %s' % fr.f['q'])
        k = e['k']
        if 'c' in e and k not in ('asg',) and not (k == 'un' and ('++' in e['o'] or '--' in e['o'])) and k not in ('call', 'mcall', 'op'):
            c = e['c']
            return num(c)
        if 'cs' in e:
            return mk('fconst', e['cs'])
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisError('expression kind %s at %s:%s' % (k, fr.f['file'], e.get('l')))
        return m(e, fr, st)

    def e_lit(self, e, fr, st):
        if 'c' in e:
            return num(e['c'])
        return mk('opaque', 'lit', e.get('l'))

    def e_str(self, e, fr, st):
        return mk('str', e.get('v', ''))

    def e_null(self, e, fr, st):
        return NULL

    def e_zero(self, e, fr, st):
        return self.default(fr.T[e['t']], zero=True)

    def e_this(self, e, fr, st):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise AnalysisError('this outside of a member function')
        lv = f.this
        if not lv.path and lv.root[0] == 'obj':
            return lv.root[1]
        return self.addr_node(lv)

    def lookup(self, fr, id):
        f = fr
        while f is not None:
            if id in f.alias:
                return f.alias[id]
            f = f.parent
        return None

    def e_ref(self, e, fr, st):
        dk = e['dk']
        if dk == 'fn':
            return mk('fnref', e['fn'])
        if dk == 'enum':
            return num(e['c']) if 'c' in e else mk('enum', e['q'])
        if dk == 'global':
            lv = self.lookup(fr, e['id']) if 'id' in e else None
            if lv is not None:
                return lv
            return LV(('glob', e.get('u') or e['q']), (), fr.T[e['t']])
        lv = self.lookup(fr, e['id'])
        if lv is None:
            raise AnalysisError('unbound variable %s at %s:%s' % (e['n'], fr.f['file'], e['l']))
        return lv

    def field_lv(self, base, f, ts, fieldref, st):
        lv = base.sub(('f', f), ts)
        if fieldref:
            p = self.read(st, LV(lv.root, lv.path))
            x = self.deref(st, p, ts)
            self.note_class(x, ts)
            return x
        return lv

    def e_mem(self, e, fr, st):
        b = self.ev(e['b'], fr, st)
        if e.get('ar'):
            p = self.val(b, st)
            base = self.deref(st, p)
        else:
            base = b
        ts = fr.T[e['t']]
        if not isinstance(base, LV):
            return sel_field(base, e['f'])
        fieldref = self.field_is_ref(e.get('cls'), e['f'])
        return self.field_lv(base, e['f'], ts, fieldref, st)

    _fref = None

    def field_is_ref(self, cls, f):
        if self._fref is None:
            self._fref = {}
            for r in self.db.rec.values():
                for x in r['fields']:
                    if x['ref']:
                        self._fref[(r['q'], x['n'])] = True
        return self._fref.get((cls, f), False)

    def e_memfn(self, e, fr, st):
        return mk('fnref', e['fn'])

    def e_cast(self, e, fr, st):
        x = self.rv(e['e'], fr, st)
        ck = e['ck']
        if ck == 'FloatingToIntegral':
            if is_num(x):
                return num(int(val(x)))
            r = mk('trunc', x)
            r.meta = 'i'
            return r
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            if is_boolish(x):
                return x
            if x.op in ('new', 'addr'):
                return TRUE
            return bnot(eq(x, NULL if ck.startswith('Pointer') else ZERO))
        if ck == 'FloatingCast' and base_ts(fr.T[e['t']]) == 'float':
            return mk('fn', 'float', x)
        return x

    def e_constcast(self, e, fr, st):
        return self.ev(e['e'], fr, st)

    def e_other(self, e, fr, st):
        xs = [self.rv(a, fr, st) for a in e['a']]
        if e['cls'] == 'CXXThrowExpr':
            self.event('throw', None, st, e['l'], fr)
            st.guard = FALSE
            return mk('undef', 'throw')
        return mk('fn', 'expr:' + e['cls'], *xs)

    def e_lambda(self, e, fr, st):
        key = id(e)
        self.lambda_ct += 1
        n = mk('closure', self.lambda_ct)
        self.lambdas[n] = (e, fr)
        return n

    def call_lambda(self, n, args, fr, st):
        """args: evaluated (LV or node)"""
        e, cf = self.lambdas[n]
        f = dict(cf.f)
        d = self.db.decl.get(e['fn'])
        sub_ = Frame(cf.f, cf.T, None, cf.cls, parent=cf)
        pf = {'q': cf.f['q'], 'file': cf.f['file'], 'line': e['l'], 'body': e['body'], 'T': cf.T, 'ret': None}
        rts = d['rs'] if d else ''
        pf['ret'] = -1
        sub_.f = dict(pf)
        # return type: index into T may not exist in cf.T; handle by string
        sub_.T = cf.T
        sub_.f['ret'] = len(cf.T)
        sub_.T = list(cf.T) + [rts]
        for p, a in zip(e['params'], args):
            ts = cf.T[p['t']]
            if ts.endswith('&') and isinstance(a, LV):
                sub_.alias[p['id']] = LV(a.root, a.path, ts)
            else:
                r = ('local', sub_.id, p['id'])
                st.env[r] = self.val(a, st)
                sub_.alias[p['id']] = LV(r, (), ts)
        v, st2 = self.exec_fn(sub_.f, sub_, st)
        st.env, st.guard = st2.env, st2.guard
        return v

    def e_un(self, e, fr, st):
        o = e['o']
        if o in ('++', '--', 'p++', 'p--'):
            lv = self.lvof(e['e'], fr, st)
            old = self.read(st, lv)
            d = 1 if '++' in o else -1
            if old.op == 'it':
                new = mk('it', old.a[0], old.a[1], add(old.a[2], num(d)))
            elif is_ptr_ts(fr.T[e['t']]):
                new = self.padd(old, num(d))
            else:
                new = add(old, num(d))
            new.meta = new.meta or 'i'
            self.write(st, lv, new)
            return old if o[0] == 'p' else lv
        if o == '*':
            p = self.rv(e['e'], fr, st)
            return self.deref(st, p, fr.T[e['t']])
        if o == '&':
            x = self.ev(e['e'], fr, st)
            if isinstance(x, LV):
                if not x.path and x.root[0] == 'obj':
                    return x.root[1]
                return self.addr_node(x)
            return mk('fn', '&', x)
        x = self.rv(e['e'], fr, st)
        if o == '-':
            return neg(x) if is_scalar(x) else mscale(num(-1), x)
        if o == '+':
            return x
        if o == '!':
            return bnot(as_bool(x))
        return mk('fn', 'un' + o, x)

    def padd(self, p, i):
        if p.op == 'padd':
            return mk('padd', p.a[0], add(p.a[1], i)) if add(p.a[1], i) is not ZERO else p.a[0]
        if p.op == 'addr' and p.a[1] and p.a[1][-1][0] == 'e':
            return mk('addr', p.a[0], p.a[1][:-1] + (('e', add(p.a[1][-1][1], i)),))
        if i is ZERO:
            return p
        return mk('padd', p, i)

    def binop(self, o, x, y, isint, ts=None):
        if o == '+':
            return add(x, y)
        if o == '-':
            return sub(x, y)
        if o == '*':
            return mul(x, y)
        if o == '/':
            return idiv(x, y) if isint else div(x, y)
        if o == '%':
            return mod(x, y)
        if o == '<':
            return lt(x, y, isint)
        if o == '>':
            return lt(y, x, isint)
        if o == '<=':
            return le(x, y, isint)
        if o == '>=':
            return le(y, x, isint)
        if o == '==':
            return eq(x, y)
        if o == '!=':
            return bnot(eq(x, y))
        if o in ('&', '|', '^', '<<', '>>'):
            if is_num(x) and is_num(y):
                a, b = int(val(x)), int(val(y))
                return num({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0, '>>': a >> b}[o])
            if o in ('&', '|', '^') and x.id > y.id:
                x, y = y, x
            return mk('fn', 'bit' + o, x, y)
        return mk('fn', 'bin' + o, x, y)

    def ptr_arith(self, o, x, y, fr):
        if o == '+':
            if x.op in ('it',):
                return mk('it', x.a[0], x.a[1], add(x.a[2], y))
            return self.padd(x, y)
        if o == '-' and x.op == 'it' and y.op == 'it':
            return sub(x.a[2], y.a[2])
        if o == '-':
            if x.op == 'it':
                return mk('it', x.a[0], x.a[1], sub(x.a[2], y))
            return self.padd(x, neg(y))
        return None

    def e_bin(self, e, fr, st):
        o = e['o']
        if o in ('&&', '||'):
            x = self.dec(as_bool(self.rv(e['x'], fr, st)))
            if o == '&&' and x is FALSE or o == '||' and x is TRUE:
                return x
            if x in (TRUE, FALSE):
                return as_bool(self.rv(e['y'], fr, st))
            c = x if o == '&&' else bnot(x)
            t = State(dict(st.env), band(st.guard, c))
            y = as_bool(self.rv(e['y'], fr, t))
            st.env = self.merge_env(c, t.env, st.env)
            return band(x, y) if o == '&&' else bor(x, y)
        if o == ',':
            self.ev(e['x'], fr, st)
            return self.ev(e['y'], fr, st)
        x = self.rv(e['x'], fr, st)
        y = self.rv(e['y'], fr, st)
        tx, ty = fr.T[e['x']['t']], fr.T[e['y']['t']]
        if is_ptr_ts(tx) or is_ptr_ts(ty) or x.op in ('it', 'padd') or y.op in ('it', 'padd'):
            if o in ('+', '-'):
                if is_ptr_ts(ty) and not is_ptr_ts(tx):
                    x, y = y, x
                r = self.ptr_arith(o, x, y, fr)
                if r is not None:
                    return r
        isint = not (is_float_ts(tx) or is_float_ts(ty))
        r = self.binop(o, x, y, isint)
        if isint and r.meta is None and o in '+-*/%':
            r.meta = 'i'
        return r

    def e_asg(self, e, fr, st):
        o = e['o']
        if o == '=':
            y = self.ev(e['y'], fr, st)
            y = self.val(y, st)
            lv = self.lvof(e['x'], fr, st)
            if y.meta is None and is_int_ts(fr.T[e['x']['t']]):
                y.meta = 'i'
            self.write(st, lv, y)
            return lv
        y = self.rv(e['y'], fr, st)
        lv = self.lvof(e['x'], fr, st)
        x = self.read(st, lv)
        tx, ty = fr.T[e['x']['t']], fr.T[e['y']['t']]
        if is_ptr_ts(tx) or x.op in ('it', 'padd'):
            r = self.ptr_arith(o[:-1], x, y, fr)
        else:
            isint = is_int_ts(tx) and not is_float_ts(ty)
            r = self.binop(o[:-1], x, y, isint)
            if is_int_ts(tx) and is_float_ts(ty):
                r = mk('trunc', r)
            if is_int_ts(tx) and r.meta is None:
                r.meta = 'i'
        self.write(st, lv, r)
        return lv

    def noret_call(self, e):
        if e.get('k') in ('call',) and e.get('fn'):
            d = self.db.decl.get(e['fn'])
            if d and d['noret']:
                return d['n']
        if e.get('k') == 'bin' and e.get('o') == ',':
            return self.noret_call(e['y']) or self.noret_call(e['x'])
        if e.get('k') == 'cast':
            return self.noret_call(e['e'])
        return None

    def e_cond(self, e, fr, st):
        nr = self.noret_call(e['z'])
        c = self.dec(as_bool(self.rv(e['x'], fr, st)))
        if nr:
            self.event('assert', c, st, e['l'], fr)
            return mk('undef', 'void')
        if c is TRUE:
            return self.ev(e['y'], fr, st)
        if c is FALSE:
            return self.ev(e['z'], fr, st)
        sa = State(dict(st.env), band(st.guard, c))
        sb = State(dict(st.env), band(st.guard, bnot(c)))
        a = self.ev(e['y'], fr, sa)
        b = self.ev(e['z'], fr, sb)
        st.env = self.merge_env(c, sa.env, sb.env)
        if a is None or b is None:
            return None
        return self.merge_val(c, a, b, sa.env, sb.env)

    def e_idx(self, e, fr, st):
        b = self.ev(e['x'], fr, st)
        i = self.rv(e['y'], fr, st)
        ts = fr.T[e['t']]
        bts = fr.T[e['x']['t']]
        if isinstance(b, LV) and ('[' in bts):
            return b.sub(('e', i), ts)
        p = self.val(b, st)
        if p.op in ('tup', 'st', 'map', 'mapst', 'undef') and isinstance(b, LV):
            return b.sub(('e', i), ts)
        return self.deref(st, self.padd_idx(p, i), ts)

    def padd_idx(self, p, i):
        if p.op == 'padd':
            return mk('padd', p.a[0], add(p.a[1], i))
        if p.op == 'addr' and p.a[1] and p.a[1][-1][0] == 'e':
            return mk('addr', p.a[0], p.a[1][:-1] + (('e', add(p.a[1][-1][1], i)),))
        return mk('padd', p, i)

    def e_ilist(self, e, fr, st, ts=None):
        ts = ts or fr.T[e['t']]
        xs = [self.rv(a, fr, st) for a in e['a']]
        t = base_ts(ts)
        r = self.db.recT.get(t)
        if r is not None:
            d = {}
            for f, x in zip(r['fields'], xs):
                d[f['n']] = x
            return rec(t, None, d)
        if len(xs) == 1 and not is_vec_ts(ts) and '[' not in ts:
            return xs[0]
        return tup(xs)

    def e_new(self, e, fr, st):
        at = fr.T[e['at']]
        n = mk('new', at, id(e), self.callpath, self.unrollpath)
        root = ('obj', n)
        self.classes[n] = base_ts(at)
        self.event('new', n, st, e['l'], fr).arr = bool(e.get('arr'))
        if e.get('arr'):
            cnt = self.rv(e['n'], fr, st) if e.get('n') else ZERO
            st.env[root] = vec0(cnt, self.default(at)) if is_num(cnt) else mk('undef', 'arr')
            return n
        lv = LV(root, (), at)
        if e.get('init') is not None:
            self.init_var(lv, at, e['init'], fr, st)
        else:
            st.env[root] = self.default(at)
        return n

    def e_del(self, e, fr, st):
        p = self.rv(e['e'], fr, st)
        self.event('delete', p, st, e['l'], fr).arr = bool(e.get('arr'))
        if p.op not in ('ite', 'null', 'num') and p is not NULL:
            lv = self.deref(st, p)
            if not lv.path:
                st.env[lv.root] = mk('freed', p)
        return None

    # ---- constructors
    def e_ctor(self, e, fr, st):
        r = ('tmp', fr.id, fresh_id())
        lv = LV(r, (), fr.T[e['t']])
        self.call_ctor(e, lv, fr, st, fr.T)
        v = st.env.pop(r, None)
        if v is None:
            v = mk('undef', '?')
        return v

    def call_ctor(self, e, lv, fr, st, T):
        ts = T[e['t']]
        args = e['a']
        d = self.db.decl.get(e['fn'], {})
        if e.get('copy') and len(args) == 1:
            x = self.rv(args[0], fr, st)
            if edim(ts) and x.dim is None and x.op not in ('num', 'poly', 'bool'):
                x.dim = edim(ts)
            self.write(st, lv, x)
            return
        E_ = eig(ts)
        if E_:
            self.write(st, lv, self.eig_ctor(e, E_, args, fr, st, ts, d))
            return
        if is_vec_ts(ts):
            self.write(st, lv, self.vec_ctor(e, args, fr, st, ts))
            return
        t = base_ts(ts)
        if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
            xs = [self.rv(a, fr, st) for a in args]
            if args and T[args[0]['t']].rstrip().replace('*const', '*').endswith('*') and 't' in args[0]:
                self.event('own', xs[0], st, e.get('l', 0), fr).arr = '[]>' in t
            self.write(st, lv, xs[0] if xs else NULL)
            return
        f = self.db.fn.get(e['fn'])
        if f is not None and self.inline(d, f) and e['fn'] not in self.stack:
            if not lv.path and lv.root not in st.env or lv.path or True:
                # start from an undefined object of this class (bases keep what was written)
                if not lv.path and lv.root not in st.env:
                    st.env[lv.root] = rec(t, None, {})
                elif lv.path and self.read(st, lv).op == 'undef':
                    self.write(st, lv, rec(t, None, {}))
            if not lv.path and lv.root[0] == 'obj':
                self.classes.setdefault(lv.root[1], t)
            self.call_fn(f, d, LV(lv.root, lv.path, ts), args, fr, st, e)
            return
        xs = []
        for a, p in zip(args, d.get('p', []) + [{}] * len(args)):
            x = self.ev(a, fr, st)
            xs.append(self.val(x, st) if x is not None else mk('undef', 'void'))
        if not xs and (e.get('def') or e.get('zero')):
            if self.db.recT.get(t) is not None and t.startswith('opengv'):
                v = rec(t, None, {})
            elif t == 'std::basic_string<char>' or t.startswith('std::'):
                v = mk('ctor', t)
            else:
                v = mk('ctor', t)
            if lv.root in st.env and self.read(st, lv).op == 'rec' and self.db.recT.get(t) is not None:
                return
            self.write(st, lv, v)
            return
        if len(xs) == 1 and t.startswith('std::complex'):
            pass
        v = mk('ctor', t, *xs)
        if lv.root in st.env and self.read(st, lv).op == 'rec' and t != self.read(st, lv).a[0]:
            return     # opaque base constructor
        self.event('ctor', (t, v), st, e['l'], fr)
        self.write(st, lv, v)

    def eig_ctor(self, e, E_, args, fr, st, ts, d):
        kind, r, c, sc = E_
        dim = (r, c)
        if not args:
            return undefm(dim)
        xs = [self.rv(a, fr, st) for a in args]
        pts = [base_ts(fr.T[a['t']]) for a in args]
        if kind in ('JacobiSVD', 'EigenSolver', 'ComplexEigenSolver', 'SelfAdjointEigenSolver', 'FullPivLU', 'HouseholderQR',
                    'ColPivHouseholderQR', 'FullPivHouseholderQR', 'PartialPivLU', 'LDLT', 'LLT', 'BDCSVD'):
            return mk('ctor', kind, *xs)
        if len(xs) == 1:
            if eig(fr.T[args[0]['t']]):
                x = xs[0]
                if x.dim is None and x.op not in ('num', 'poly', 'bool'):
                    x.dim = dim
                if dim == (1, 1) or x.dim == (1, 1):
                    return x
                return x
            if is_int_ts(pts[0]) and (r < 0 or c < 0):
                if r < 0 and c == 1 or c < 0 and r == 1:
                    return undefdyn(xs[0] if r < 0 else num(r), xs[0] if c < 0 else num(c))
                return undefm((r, c))
            if kind in ('Map',):
                return mk('fn', 'Map', xs[0], dim=dim)
            if is_int_ts(pts[0]):
                return undefm(dim)
            if dim == (1, 1):
                return xs[0]
            return mk('fn', 'eigctor', xs[0], dim=dim)
        if len(xs) == 2 and (r < 0 or c < 0):
            if is_num(xs[0]) and is_num(xs[1]):
                return undefm((r if r >= 0 else val(xs[0]), c if c >= 0 else val(xs[1])))
            return undefdyn(num(r) if r >= 0 else xs[0], num(c) if c >= 0 else xs[1])
        if r * c == len(xs) and (r == 1 or c == 1):
            regs = [((i, 0, 1, 1, x) if c == 1 else (0, i, 1, 1, x)) for i, x in enumerate(xs)]
            return mupd_norm(None, regs, r, c)
        return mk('fn', 'eigctor:' + kind, *xs, dim=dim)

    def vec_ctor(self, e, args, fr, st, ts):
        if not args:
            return EMPTY
        ets = vec_elem_ts(ts)
        xs = [self.rv(a, fr, st) for a in args]
        # drop trailing allocator
        d = self.db.decl.get(e['fn'], {})
        ps = d.get('p', [])
        if ps and 'allocator' in ps[-1].get('ts', '') and len(xs) == len(ps) and len(xs) > 1 and 'llocator' in base_ts(fr.T[args[-1]['t']]):
            xs = xs[:-1]
        elif len(xs) == 1 and 'llocator' in base_ts(fr.T[args[0]['t']]) and not is_vec_ts(fr.T[args[0]['t']]):
            return EMPTY
        if len(xs) == 1:
            if is_vec_ts(fr.T[args[0]['t']]) or xs[0].op == 'tup':
                return xs[0]
            return vec0(xs[0], self.default(ets, zero=True))
        if len(xs) == 2:
            if xs[0].op == 'it' and xs[1].op == 'it':
                return self.slice_(st, xs[0], xs[1])
            if is_ptr_ts(fr.T[args[0]['t']]):
                return mk('fn', 'vecrange', xs[0], xs[1])
            return vec0(xs[0], xs[1])
        return mk('fn', 'vecctor', *xs)

    def slice_(self, st, a, b):
        if a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            src = self.read(st, LV(a.a[0], a.a[1]))
            return vmapslice(src, a.a[2], b.a[2])
        return mk('fn', 'slice', a, b)

    # ---- calls
    def e_call(self, e, fr, st):
        if not e.get('fn'):
            c = self.rv(e['callee'], fr, st)
            if c.op == 'closure':
                return self.call_lambda(c, [self.ev(a, fr, st) for a in e['a']], fr, st)
            if c.op == 'fnref':
                e2 = dict(e)
                e2['fn'] = c.a[0]
                return self.e_call(e2, fr, st)
            xs = [self.rv(a, fr, st) for a in e['a']]
            return mk('fn', 'indirect', c, *xs)
        d = self.db.decl[e['fn']]
        return self.call(e, d, None, e['a'], fr, st)

    def e_mcall(self, e, fr, st):
        if not e.get('fn'):
            self.ev(e['b'], fr, st)
            xs = [self.rv(a, fr, st) for a in e['a']]
            return mk('fn', 'memptrcall', *xs)
        d = self.db.decl[e['fn']]
        bts = fr.T[e['b']['t']]
        if e.get('ar'):
            p = self.rv(e['b'], fr, st)
            base = self.deref(st, p, None)
        else:
            base = self.ev(e['b'], fr, st)
        bt = base_ts(bts)
        if e.get('ar'):
            bt = base_ts(bt[:-1]) if bt.endswith('*') else bt
        if isinstance(base, LV) and base.ts is None:
            base.ts = bt
        if eig(bt) or d['q'].startswith('Eigen::'):
            return self.eig_method(e, d, base, e['a'], fr, st, bt)
        if is_vec_ts(bt) or d['q'].startswith('std::vector') or d['q'].startswith('std::_'):
            r = self.vec_method(e, d, base, e['a'], fr, st, bt)
            if r is not NotImplemented:
                return r
        if bt.startswith('std::shared_ptr') or bt.startswith('std::unique_ptr') or d['q'].startswith('std::shared_ptr') or d['q'].startswith('std::__shared'):
            r = self.ptr_method(e, d, base, e['a'], fr, st, bt)
            if r is not NotImplemented:
                return r
        if d['n'] in ('real', 'imag') and 'complex' in d['q'] and not e['a']:
            return mk('fn', d['n'], self.val(base, st))
        return self.call(e, d, base, e['a'], fr, st)

    def dyn_class(self, lv, st):
        if lv is None:
            return None
        if not lv.path and lv.root[0] == 'obj':
            return self.classes.get(lv.root[1])
        if isinstance(lv, LV):
            v = self.read(st, LV(lv.root, lv.path))
            if v.op == 'rec':
                return v.a[0]
        return base_ts(lv.ts) if lv.ts else None

    def resolve_virtual(self, d, lv, st, e):
        """the function that a call to d on lv reaches, or None when open"""
        if not d.get('virt') or e.get('qual'):
            return self.db.fn.get(d['u'])
        cls = self.dyn_class(lv, st)
        if cls is None:
            return None
        chain = [cls] + self.db.bases(cls)
        cand = {d['u']} | self.db.overriders(d['u'])
        for c in chain:
            for u in cand:
                dd = self.db.decl[u]
                if dd.get('clsT') == c:
                    if dd.get('pure'):
                        return None
                    r = self.db.recT.get(cls)
                    return self.db.fn.get(u)
        return None

    def call(self, e, d, base, args, fr, st):
        if self.intercept is not None:
            r = self.intercept(self, e, d, base, args, fr, st)
            if r is not NotImplemented:
                return r
        r = self.std_call(e, d, base, args, fr, st)
        if r is not NotImplemented:
            return r
        f = None
        if base is not None:
            lv = base if isinstance(base, LV) else None
            if lv is None and base is not None:
                rt = ('tmp', fr.id, fresh_id())
                st.env[rt] = base
                lv = LV(rt, (), d.get('clsT'))
            f = self.resolve_virtual(d, lv, st, e)
            base = lv
        else:
            f = self.db.fn.get(e['fn'])
        if f is not None and f['u'] not in self.stack and self.inline(self.db.decl[f['u']], f):
            return self.call_fn(f, self.db.decl[f['u']], base, args, fr, st, e)
        return self.opaque_call(e, d, base, args, fr, st)

    def call_fn(self, f, d, this, args, fr, st, e):
        sub_ = Frame(f, f['T'], this, f.get('clsT'))
        sub_.caller_loc = (fr.f['file'], e.get('l'))
        vals = []
        for a, p in zip(args, f['params']):
            ts = f['T'][p['t']]
            if ts.endswith('&'):
                x = self.ev(a, fr, st)
                if not isinstance(x, LV):
                    r = ('local', sub_.id, p['id'])
                    st.env[r] = x if x is not None else mk('undef', 'void')
                    x = LV(r, (), ts)
                else:
                    x = LV(x.root, x.path, ts)
                vals.append((p, ts, x))
            else:
                x = self.rv(a, fr, st)
                vals.append((p, ts, x))
        for p, ts, x in vals:
            if isinstance(x, LV):
                sub_.alias[p['id']] = x
                if not x.path and x.root[0] == 'obj' and x.root[1] not in self.classes:
                    self.classes[x.root[1]] = base_ts(ts)
            else:
                r = ('local', sub_.id, p['id'])
                if is_int_ts(ts) and x.meta is None:
                    x.meta = 'i'
                st.env[r] = x
                sub_.alias[p['id']] = LV(r, (), ts)
        self.stack.append(f['u'])
        cp, up = self.callpath, self.unrollpath
        self.callpath = cp + ((id(e), up),)
        self.unrollpath = ()
        try:
            v, st2 = self.exec_fn(f, sub_, st)
        finally:
            self.stack.pop()
            self.callpath, self.unrollpath = cp, up
        st.env, st.guard = st2.env, st2.guard
        if v is None:
            return None
        return v

    def snapshot(self, lv, st):
        """value of an object passed by reference to an opaque function"""
        return self.read(st, lv)

    def is_array(self, lv, a, fr, v):
        """the argument is a built-in array handed over by address"""
        while a['k'] in ('cast', 'paren') and a.get('e'):
            a = a['e']
        ts = [lv.ts or ''] + ([fr.T[a['t']]] if a.get('t') is not None else [])
        return any(re.search(r'\[\d*\]$', t) for t in ts) or (v.op == 'undef' and len(v.a) and isinstance(v.a[0], str) and v.a[0].endswith(']'))

    def opaque_call(self, e, d, base, args, fr, st):
        name = d['q']
        xs = []
        outs = []
        if base is not None:
            cls = self.dyn_class(base, st)
            bv_ = self.snapshot(base, st)
            xs.append(bv_)
            if not d.get('const') and not d.get('static') and not d.get('ctor'):
                outs.append(('this', base))
        for i, a in enumerate(args):
            p = d['p'][i] if i < len(d['p']) else {'m': 'val', 'ts': fr.T[a['t']]}
            x = self.ev(a, fr, st)
            if p['m'] in ('mref', 'rref') and isinstance(x, LV):
                outs.append((i, x))
                xs.append(self.snapshot(x, st))
            elif p['m'] == 'mptr' and not isinstance(x, LV) and x is not None and x.op in ('addr', 'new'):
                lv = self.deref(st, x)
                outs.append((i, lv))
                xs.append(self.snapshot(lv, st))
            elif p['m'] == 'mptr' and isinstance(x, LV):
                pv = self.read(st, x)
                if pv.op in ('addr', 'new'):
                    lv = self.deref(st, pv)
                    outs.append((i, lv))
                    xs.append(self.snapshot(lv, st))
                elif self.is_array(x, a, fr, pv):
                    outs.append((i, x))
                    xs.append(pv)
                else:
                    xs.append(pv)
            else:
                xs.append(self.val(x, st) if x is not None else mk('undef', 'void'))
        if d['q'].startswith('Eigen::') and d['n'] in ('Zero', 'Identity', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ') and base is None:
            ts = fr.T[e['t']] if e.get('t') is not None else d['rs']
            m = re.match(r'Eigen::(?:DenseBase|MatrixBase|PlainObjectBase)<(.*)>::\w+$', d['q'])
            dm = (m and edim(m.group(1))) or edim(ts) or edim(d['rs'])
            if dm and (dm[0] > 0 and dm[1] > 0 or xs):
                return self.eig_static(d['n'], xs, ts, d, dm)
        dim = edim(d['rs'])
        n = mk('call', name, *xs, dim=dim)
        if d.get('rs') == 'bool':
            n.meta = 'b'
        if is_int_ts(d['rs']):
            n.meta = 'i'
        self.event('call', (d, n, [o for o in outs]), st, e.get('l'), fr)
        if self.db.fn.get(d['u']) is None and not d.get('in') or True:
            for k, lv in outs:
                old = self.read(st, lv)
                o = mk('out', n, k, dim=old.dim or edim(lv.ts))
                o.meta = old.meta
                self.write(st, lv, o)
        if d['noret']:
            st.guard = FALSE
        if d['rs'].endswith('&'):
            # a reference into something we do not track: a stable location
            lv = LV(('obj', mk('retref', n)), (), d['rs'])
            return n
        return n

    # ---- standard library
    PURE = {'sqrt', 'pow', 'log', 'exp', 'fabs', 'abs', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'floor',
            'ceil', 'max', 'min', 'cbrt', 'fmod', 'hypot', 'log10', 'round', 'isnan', 'isinf', 'isfinite', 'arg', 'conj',
            'norm', 'polar', 'real', 'imag', 'log2', 'fmin', 'fmax', 'sqrtf', 'powf', 'labs', 'llabs', 'lround', 'trunc'}

    def std_call(self, e, d, base, args, fr, st):
        if d['in']:
            return NotImplemented
        n, q = d['n'], d['q']
        if q == 'std::swap' or (n == 'swap' and base is None and len(args) == 2):
            a = self.lvof(args[0], fr, st)
            b = self.lvof(args[1], fr, st)
            x, y = self.read(st, a), self.read(st, b)
            self.write(st, a, y)
            self.write(st, b, x)
            return None
        if q in ('std::move', 'std::forward'):
            return self.ev(args[0], fr, st)
        if n in ('fprintf', 'printf', 'puts', 'fflush', 'perror', 'fputs'):
            for a in args:
                self.ev(a, fr, st)
            self.event('print', n, st, e.get('l'), fr)
            return mk('undef', 'int')
        if base is None and n in self.PURE and (q == n or q == 'std::' + n):
            return fn(n, *[self.rv(a, fr, st) for a in args])
        if q.endswith('numeric_limits<double>::max') or (n in ('max', 'min', 'epsilon', 'infinity', 'lowest', 'quiet_NaN', 'denorm_min') and 'numeric_limits' in q):
            ts = d['rs']
            if 'c' in e:
                return num(e['c'])
            return mk('limit', n, base_ts(ts))
        if q in ('std::make_shared', 'std::make_unique') and base is None:
            m = re.match(r'std::(?:shared|unique)_ptr<(.*)>$', base_ts(d['rs']))
            at = m.group(1).strip() if m else ''
            if m and (not args or is_vec_ts(at) or eig(at) or len(args) == 1 and base_ts(fr.T[args[0]['t']]) == base_ts(at)):
                nn = mk('new', at, id(e), self.callpath, self.unrollpath)
                root = ('obj', nn)
                self.classes[nn] = base_ts(at)
                if not args:
                    x = self.default(at)
                elif is_vec_ts(at):
                    x = self.vec_ctor({'a': args, 'fn': None, 'l': e.get('l', 0)}, args, fr, st, at)
                elif len(args) == 1:
                    x = self.rv(args[0], fr, st)
                else:
                    x = None
                if x is not None:
                    st.env[root] = x
                    return nn
        if base is None and q in ('std::copy',) and len(args) == 3:
            a, b, c = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it' and c.op == 'it':
                src = self.read(st, LV(a.a[0], a.a[1]))
                dlv = LV(c.a[0], c.a[1])
                dst = self.read(st, dlv)
                n_ = sub(b.a[2], a.a[2])
                if c.a[2] is ZERO:
                    bv = mk('mu', 'cpy', fresh_id())
                    body = sel_el(src, add(bv, a.a[2]))
                    self.write(st, dlv, vmapst(dst, ZERO, n_, bv, body))
                else:
                    self.write(st, dlv, mk('fn', 'copyinto', dst, c.a[2], src, a.a[2], b.a[2]))
                return mk('it', c.a[0], c.a[1], add(c.a[2], n_))
        if base is None and q in ('std::sort', 'std::stable_sort') and len(args) == 2:
            a, b = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
                lv = LV(a.a[0], a.a[1])
                v = self.read(st, lv)
                if a.a[2] is ZERO and b.a[2] is size(v):
                    self.write(st, lv, mk('sorted', v))
                else:
                    self.write(st, lv, mk('fn', 'sortpart', v, a.a[2], b.a[2]))
                return None
        if base is None and q in ('std::count_if',) and len(args) == 3:
            a, b = [self.rv(x, fr, st) for x in args[:2]]
            g = self.rv(args[2], fr, st)
            if a.op == 'it' and b.op == 'it' and g.op == 'closure':
                return self.reduce_closure(a, b, g, fr, st, lambda x, el: ite(as_bool(x), ONE, ZERO))
        if base is None and q in ('std::accumulate',) and len(args) == 3:
            a, b, z = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it':
                src = LV(a.a[0], a.a[1])
                bv = mk('mu', 'acc', fresh_id())
                body = sel_el(self.read(st, src), bv)
                return add(z, vsum(a.a[2], b.a[2], bv, body))
        if base is None and q in ('std::for_each',) and len(args) == 3:
            a, b = [self.rv(x, fr, st) for x in args[:2]]
            g = self.rv(args[2], fr, st)
            if a.op == 'it' and b.op == 'it' and g.op == 'closure':
                idx = LV(('local', fr.id, 'fe%d' % fresh_id()), (), 'unsigned long')
                st.env[idx.root] = a.a[2]
                src = LV(a.a[0], a.a[1])

                def cond(t):
                    return lt(self.read(t, idx), b.a[2], True)

                def body(t, sx):
                    self.call_lambda(g, [src.sub(('e', self.read(t, idx)))], fr, t)
                    return t

                def inc(t):
                    self.write(t, idx, add(self.read(t, idx), ONE))
                r = self.loop_g(cond, inc, body, fr, st, Exits(), e['l'])
                st.env, st.guard = r.env, r.guard
                return g
        if base is None and q in ('std::fill',) and len(args) == 3:
            a, b, z = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it':
                lv = LV(a.a[0], a.a[1])
                bv = mk('mu', 'fill', fresh_id())
                self.write(st, lv, vmapst(self.read(st, lv), a.a[2], b.a[2], bv, z))
                return None
        if base is None and q in ('std::iota',) and len(args) == 3:
            a, b, z = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it':
                lv = LV(a.a[0], a.a[1])
                bv = mk('mu', 'iota', fresh_id())
                self.write(st, lv, vmapst(self.read(st, lv), a.a[2], b.a[2], bv, add(z, sub(bv, a.a[2]))))
                return None
        if base is None and n in ('begin', 'end') and q in ('std::begin', 'std::end') and len(args) == 1:
            lv = self.lvof(args[0], fr, st)
            return mk('it', lv.root, lv.path, ZERO if n == 'begin' else size(self.read(st, lv)))
        if base is None and q in ('std::distance',):
            a, b = [self.rv(x, fr, st) for x in args]
            if a.op == 'it' and b.op == 'it':
                return sub(b.a[2], a.a[2])
        if base is None and q in ('std::next', 'std::prev') and args:
            a = self.rv(args[0], fr, st)
            k = self.rv(args[1], fr, st) if len(args) > 1 else ONE
            if a.op == 'it':
                return mk('it', a.a[0], a.a[1], add(a.a[2], k if n == 'next' else neg(k)))
        if base is None and q in ('std::back_inserter',):
            lv = self.lvof(args[0], fr, st)
            return mk('backins', lv.root, lv.path)
        if base is None and q in ('std::make_pair',):
            return rec('std::pair', None, {'first': self.rv(args[0], fr, st), 'second': self.rv(args[1], fr, st)})
        return NotImplemented

    def reduce_closure(self, a, b, g, fr, st, f):
        src = LV(a.a[0], a.a[1])
        bv = mk('mu', 'red', fresh_id())
        bv.meta = 'i'
        t = st.copy()
        x = self.val(self.call_lambda(g, [src.sub(('e', bv))], fr, t), t)
        return vsum(a.a[2], b.a[2], bv, f(x, None))

    def ptr_method(self, e, d, base, args, fr, st, bt):
        n = d['n']
        if n == 'get':
            return self.val(base, st)
        if n == 'reset':
            x = self.rv(args[0], fr, st) if args else NULL
            if args:
                self.event('own', x, st, e.get('l', 0), fr).arr = '[]>' in bt
            self.write(st, base, x)
            return None
        if n in ('operator->',):
            return self.val(base, st)
        if n in ('operator*',):
            return self.deref(st, self.val(base, st), d['rs'])
        if n == 'operator bool':
            p = self.val(base, st)
            return TRUE if p.op in ('new', 'addr') else bnot(eq(p, NULL))
        if n == 'swap':
            o = self.lvof(args[0], fr, st)
            x, y = self.read(st, base), self.read(st, o)
            self.write(st, base, y)
            self.write(st, o, x)
            return None
        if n in ('use_count', 'unique'):
            return mk('fn', n, self.val(base, st))
        return NotImplemented

    def vec_method(self, e, d, base, args, fr, st, bt):
        n = d['n']
        ts = fr.T[e['t']]
        if n in ('size', 'length'):
            r = size(self.val(base, st))
            r.meta = r.meta or 'i'
            return r
        if n == 'empty':
            return eq(size(self.val(base, st)), ZERO)
        if n in ('operator[]', 'at'):
            i = self.rv(args[0], fr, st)
            self.event('elem', (base if isinstance(base, LV) else None, self.val(base, st), i), st, e['l'], fr)
            if isinstance(base, LV):
                return base.sub(('e', i), d['rs'])
            return sel_el(base, i)
        if n in ('front', 'back'):
            v = self.val(base, st)
            i = ZERO if n == 'front' else sub(size(v), ONE)
            if isinstance(base, LV):
                return base.sub(('e', i), d['rs'])
            return sel_el(v, i)
        if n in ('begin', 'cbegin'):
            return mk('it', base.root, base.path, ZERO) if isinstance(base, LV) else mk('fn', 'begin', base)
        if n in ('end', 'cend'):
            return mk('it', base.root, base.path, size(self.read(st, base))) if isinstance(base, LV) else mk('fn', 'end', base)
        if n == 'data':
            return self.addr_node(base.sub(('e', ZERO))) if isinstance(base, LV) else mk('fn', 'data', base)
        if n == 'reserve' or n == 'shrink_to_fit':
            for a in args:
                self.ev(a, fr, st)
            return None
        if n in ('capacity', 'max_size', 'get_allocator'):
            return mk('fn', n, self.val(base, st))
        if not isinstance(base, LV):
            return NotImplemented
        v = self.read(st, base)
        if n == 'push_back' or n == 'emplace_back':
            if len(args) != 1:
                xs = [self.rv(a, fr, st) for a in args]
                x = mk('fn', 'emplace', *xs) if xs else self.default(vec_elem_ts(bt))
            else:
                x = self.rv(args[0], fr, st)
            d2 = edim(vec_elem_ts(bt)) if '<' in bt else None
            if d2 and x.dim is None and x.op not in ('num', 'poly', 'bool'):
                x.dim = d2
            v = self.read(st, base)
            self.event('push', (base, v, x), st, e['l'], fr)
            self.write(st, base, push(v, x))
            return None
        if n == 'pop_back':
            if v.op == 'tup' and v.a[0]:
                self.write(st, base, tup(v.a[0][:-1]))
            elif v.op == 'push':
                self.write(st, base, v.a[0])
            else:
                self.write(st, base, mk('front_of', v))
            return None
        if n == 'pop_front':
            if v.op == 'tup' and v.a[0]:
                self.write(st, base, tup(v.a[0][1:]))
            else:
                self.write(st, base, mk('tail', v))
            return None
        if n in ('push_front', 'emplace_front') and v.op == 'tup' and len(args) == 1:
            x = self.rv(args[0], fr, st)
            v = self.read(st, base)
            self.write(st, base, tup((x,) + tuple(v.a[0])))
            return None
        if n == 'clear':
            self.write(st, base, EMPTY)
            return None
        if n == 'resize':
            k = self.rv(args[0], fr, st)
            fillv = self.rv(args[1], fr, st) if len(args) > 1 else self.default(vec_elem_ts(bt), zero=True)
            self.write(st, base, resize(v, k, fillv))
            return None
        if n == 'assign':
            xs = [self.rv(a, fr, st) for a in args]
            if len(xs) == 2 and xs[0].op == 'it' and xs[1].op == 'it':
                self.write(st, base, self.slice_(st, xs[0], xs[1]))
            elif len(xs) == 2:
                self.write(st, base, vec0(xs[0], xs[1]))
            else:
                self.write(st, base, xs[0])
            return None
        if n == 'swap':
            o = self.lvof(args[0], fr, st)
            x, y = self.read(st, base), self.read(st, o)
            self.write(st, base, y)
            self.write(st, o, x)
            return None
        if n == 'insert':
            xs = [self.rv(a, fr, st) for a in args]
            if xs[0].op == 'it' and xs[0].a[2] is size(v):
                if len(xs) == 3 and xs[1].op == 'it' and xs[2].op == 'it':
                    s = self.slice_(st, xs[1], xs[2])
                    if v.op == 'tup' and s.op == 'tup':
                        self.write(st, base, tup(v.a[0] + s.a[0]))
                    else:
                        self.write(st, base, cat(v, s))
                    return mk('it', base.root, base.path, size(v))
                if len(xs) == 2:
                    self.write(st, base, push(v, xs[1]))
                    return mk('it', base.root, base.path, size(v))
            self.write(st, base, mk('fn', 'insert', v, *xs))
            return mk('fn', 'insert_it', v, *xs)
        if n == 'erase':
            xs = [self.rv(a, fr, st) for a in args]
            self.write(st, base, mk('fn', 'erase', v, *xs))
            return mk('fn', 'erase_it', v, *xs)
        if n.startswith('operator='):
            x = self.rv(args[0], fr, st)
            self.write(st, base, x)
            return base
        return NotImplemented

    # ---- operators
    def e_op(self, e, fr, st):
        o = e['o']
        a = e['a']
        d = self.db.decl.get(e['fn']) if e.get('fn') else None
        T = fr.T
        ts = [T[x['t']] for x in a]
        if o == '()' and len(a) >= 1:
            bt = base_ts(ts[0])
            if eig(bt):
                return self.eig_index(self.ev(a[0], fr, st), [self.rv(x, fr, st) for x in a[1:]], T[e['t']], bt, fr, st, e)
            c = self.ev(a[0], fr, st)
            cv = self.val(c, st)
            if cv.op == 'closure':
                return self.call_lambda(cv, [self.ev(x, fr, st) for x in a[1:]], fr, st)
            if d is not None and d['in']:
                return self.call(e, d, c if isinstance(c, LV) else c, a[1:], fr, st)
            xs = [self.rv(x, fr, st) for x in a[1:]]
            self.event('functor', (cv, xs), st, e['l'], fr)
            n = mk('fn', 'functor', cv, *xs)
            if isinstance(c, LV) and not (d or {}).get('const', False) or 'std::function' in bt or 'distribution' in bt:
                n = mk('fn', 'functor', cv, mk('seq', fresh_id()), *xs)
            n.meta = 'i' if is_int_ts(T[e['t']]) else None
            return n
        if o == '[]':
            bt = base_ts(ts[0])
            if eig(bt):
                return self.eig_index(self.ev(a[0], fr, st), [self.rv(a[1], fr, st)], T[e['t']], bt, fr, st, e)
            if is_vec_ts(bt):
                b = self.ev(a[0], fr, st)
                i = self.rv(a[1], fr, st)
                self.event('elem', (b if isinstance(b, LV) else None, self.val(b, st), i), st, e['l'], fr)
                if isinstance(b, LV):
                    return b.sub(('e', i), T[e['t']])
                return sel_el(b, i)
            b = self.ev(a[0], fr, st)
            if d is not None and d['in'] and self.db.fn.get(d['u']) is not None:
                return self.call(e, d, b, a[1:], fr, st)
            i = self.rv(a[1], fr, st)
            bv_ = self.val(b, st)
            if bv_.op == 'it':
                return LV(bv_.a[0], bv_.a[1] + (('e', add(bv_.a[2], i)),), T[e['t']])
            if isinstance(b, LV):
                return b.sub(('e', i), T[e['t']])
            return sel_el(b, i)
        if o == '=':
            if d is not None and d['in'] and self.db.fn.get(d['u']) is not None and not self.db.fn[d['u']].get('implicit') and not d.get('copyassign'):
                pass
            y = self.rv(a[1], fr, st)
            lv = self.lvof(a[0], fr, st)
            if eig(ts[0]):
                dl = edim(ts[0])
                if y.op == 'undef' and not (y.a[0] == 'm' and -1 in dl):
                    y = undefm(dl)
                if y.dim is None and y.op not in ('num', 'poly', 'bool'):
                    y.dim = dl
                y = self.fix1x1(y, dl)
            self.write(st, lv, y)
            return lv
        if o in ('*', '->') and len(a) == 1:
            b = self.ev(a[0], fr, st)
            p = self.val(b, st)
            if o == '->':
                return p
            return self.deref(st, p, T[e['t']])
        if o in ('++', '--'):
            lv = self.lvof(a[0], fr, st)
            old = self.read(st, lv)
            k = num(1 if o == '++' else -1)
            if old.op == 'it':
                new = mk('it', old.a[0], old.a[1], add(old.a[2], k))
                self.write(st, lv, new)
                return old if len(a) == 2 else lv
            if d is not None and d['in']:
                return self.call(e, d, lv, a[1:], fr, st)
            # an iterator kept as a phi node
            new = mk('itadd', old, k)
            self.write(st, lv, new)
            return old if len(a) == 2 else lv
        anyeig = any(eig(t) for t in ts) or o == ',' and 'CommaInitializer<' in ts[0]
        if anyeig:
            return self.eig_op(e, o, a, ts, fr, st)
        if d is not None and d['in']:
            f = self.db.fn.get(d['u'])
            if d.get('cls'):
                base = self.ev(a[0], fr, st)
                return self.call(e, d, base, a[1:], fr, st)
            return self.call(e, d, None, a, fr, st)
        if o == '<<' or o == '>>':
            for x in a:
                self.ev(x, fr, st)
            self.event('stream', None, st, e['l'], fr)
            return mk('fn', 'stream')
        xs = [self.rv(x, fr, st) for x in a]
        if len(xs) == 2 and (xs[0].op == 'it' or xs[1].op == 'it' or xs[0].op == 'mu' and 'iterator' in ts[0]):
            x, y = xs
            if o in ('==', '!=') and x.op == 'it' and y.op == 'it':
                r = eq(x.a[2], y.a[2]) if x.a[:2] == y.a[:2] else mk('eq', x, y)
                return r if o == '==' else bnot(r)
            if o in ('<', '>', '<=', '>=') and x.op == 'it' and y.op == 'it':
                return self.binop(o, x.a[2], y.a[2], True)
            if o in ('+', '-'):
                r = self.ptr_arith(o, x, y, fr)
                if r is not None:
                    return r
        if o in ('+=', '-=', '*=', '/='):
            lv = self.lvof(a[0], fr, st)
            x = self.read(st, lv)
            y = xs[1]
            if x.op == 'it':
                r = self.ptr_arith(o[0], x, y, fr)
            else:
                r = self.binop(o[0], x, y, False)
            self.write(st, lv, r)
            return lv
        if len(xs) == 1 and o in ('-', '+'):
            return neg(xs[0]) if o == '-' else xs[0]
        if len(xs) == 2 and o in ('==', '!='):
            r = eq(xs[0], xs[1])
            return r if o == '==' else bnot(r)
        if 'complex' in (T[e['t']] + ''.join(ts)) and len(xs) == 2 and o in '+-*/':
            return self.binop(o, xs[0], xs[1], False)
        if len(xs) == 2 and o in ('<', '>', '<=', '>='):
            return self.binop(o, xs[0], xs[1], False)
        return mk('fn', 'op' + o, *xs)

    def fix1x1(self, y, d):
        return y

    # ---- Eigen
    def reg(self, base, r0, c0, nr, nc, bt, ts, st):
        d = edim(bt)
        if isinstance(base, LV):
            return base.sub(('r', self._c(r0), self._c(c0), self._c(nr), self._c(nc), self.lvdim(base, d, st)), ts)
        if base.dim is None and d and base.op not in ('num', 'poly', 'bool'):
            base.dim = d
        return region(base, r0, c0, nr, nc)

    def lvdim(self, base, d, st):
        """dimensions of the matrix at base: static type, else known value"""
        if d and d[0] >= 0 and d[1] >= 0:
            return d
        v = self.read(st, LV(base.root, base.path))
        if v.dim and v.dim[0] >= 0 and v.dim[1] >= 0:
            return v.dim
        return d

    def _c(self, x):
        if isinstance(x, N) and is_num(x):
            return val(x)
        return x

    def eig_index(self, base, idx, ts, bt, fr, st, e):
        kind, r, c, sc = eig(bt)
        if len(idx) == 2:
            return self.reg(base, idx[0], idx[1], 1, 1, bt, ts, st)
        if len(idx) == 1:
            if c == 1 or (r != 1 and c != 1):
                if c != 1:
                    b = self.val(base, st)
                    if b.dim and b.dim[0] == 1:
                        return self.reg(base, 0, idx[0], 1, 1, bt, ts, st)
                return self.reg(base, idx[0], 0, 1, 1, bt, ts, st)
            return self.reg(base, 0, idx[0], 1, 1, bt, ts, st)
        return mk('fn', 'eigidx', self.val(base, st), *idx)

    def eig_op(self, e, o, a, ts, fr, st):
        T = fr.T
        dim = edim(T[e['t']])
        if o in ('<<', ','):
            return self.comma(e, o, a, ts, fr, st)
        if o in ('+=', '-=', '*=', '/='):
            y = self.rv(a[1], fr, st)
            lv = self.lvof(a[0], fr, st)
            x = self.read(st, lv)
            d = edim(ts[0])
            if o == '+=':
                r = plus(x, y, d)
            elif o == '-=':
                r = plus(x, mscale(num(-1), y) if not is_scalar(y) else neg(y), d)
            elif o == '*=':
                r = times(x, y, d, edim(ts[0]), edim(ts[1]) if eig(ts[1]) else (1, 1))
            else:
                r = mscale(inv(y), x, d) if not is_scalar(x) else mul(x, inv(y))
            self.write(st, lv, r)
            return lv
        xs = [self.rv(x, fr, st) for x in a]
        ds = [edim(t) if eig(t) else None for t in ts]
        for x, dd in zip(xs, ds):
            if dd and x.dim is None and x.op not in ('num', 'poly', 'bool', 'bil', 'norm'):
                x.dim = dd
        dd = [x.dim if (x.dim and x.dim[0] >= 0 and x.dim[1] >= 0) else (d if d else (1, 1)) for x, d in zip(xs, ds)]
        if len(xs) == 1:
            if o == '-':
                return mscale(num(-1), xs[0]) if dd[0] != (1, 1) else neg(xs[0])
            if o == '+':
                return xs[0]
        if len(xs) == 2:
            x, y = xs
            if o == '*':
                sx = not ds[0]
                sy = not ds[1]
                if sx and sy:
                    return mul(x, y)
                if sx:
                    return mscale(x, y, dim) if dd[1] != (1, 1) else mul(x, y)
                if sy:
                    return mscale(y, x, dim) if dd[0] != (1, 1) else mul(x, y)
                odim = (dd[0][0], dd[1][1])
                if dd[0] == (1, 1) and dd[1] == (1, 1):
                    return mul(x, y)
                if dd[0] == (1, 1):
                    return mscale(x, y, odim)
                if dd[1] == (1, 1):
                    return mscale(y, x, odim)
                return mprod(x, y, odim)
            if o == '/':
                if dd[0] == (1, 1):
                    return div(x, y)
                return mscale(inv(y), x, dd[0])
            if o == '+':
                if dd[0] == (1, 1):
                    return add(x, y)
                return madd(x, y, dd[0] if dd[0][0] >= 0 and dd[0][1] >= 0 else dd[1])
            if o == '-':
                if dd[0] == (1, 1):
                    return sub(x, y)
                return madd(x, mscale(num(-1), y), dd[0] if dd[0][0] >= 0 and dd[0][1] >= 0 else dd[1])
            if o in ('==', '!='):
                r = mk('fn', 'mateq', *sorted(xs, key=lambda n: n.id))
                return r if o == '==' else bnot(r)
        return mk('fn', 'eigop' + o, *xs, dim=dim)

    def comma(self, e, o, a, ts, fr, st):
        # flatten: ((m << x), y), z
        items = []
        x = e
        while x['k'] == 'op' and x['o'] == ',':
            items.append(x['a'][1])
            x = x['a'][0]
        if x['k'] != 'op' or x['o'] != '<<':
            xs = [self.rv(y, fr, st) for y in a]
            return mk('fn', 'comma', *xs)
        items.append(x['a'][1])
        items.reverse()
        mts = fr.T[x['a'][0]['t']]
        if not eig(mts):
            for y in x['a']:
                self.ev(y, fr, st)
            for y in items:
                self.ev(y, fr, st)
            return mk('fn', 'stream')
        vals = [(self.rv(y, fr, st), edim(fr.T[y['t']])) for y in items]
        lv = self.lvof(x['a'][0], fr, st)
        cur = self.read(st, lv)
        R, C = edim(mts)
        if R < 0 or C < 0:
            if cur.dim and cur.dim[0] >= 0 and cur.dim[1] >= 0:
                R, C = cur.dim
            else:
                self.write(st, lv, mk('fn', 'comma', cur, *[v for v, _ in vals], dim=(R, C)))
                return lv
        regs = []
        r = c = 0
        h = None
        for v, d in vals:
            d = d or (1, 1)
            if d[0] < 0 or d[1] < 0:
                d = v.dim or d
            if d[0] < 0 or d[1] < 0:
                self.write(st, lv, mk('fn', 'comma', cur, *[v for v, _ in vals], dim=(R, C)))
                return lv
            if c >= C:
                r += h
                c = 0
                h = None
            h = d[0] if h is None else h
            regs.append((r, c, d[0], d[1], v))
            c += d[1]
        self.write(st, lv, mupd_norm(None, regs, R, C))
        return lv

    def eig_method(self, e, d, base, args, fr, st, bt):
        n = d['n']
        T = fr.T
        ts = T[e['t']]
        E_ = eig(bt)
        dimb = edim(bt)
        if n in ('noalias', 'eval', 'derived', 'array', 'matrix', 'const_cast_derived', 'const_derived', 'finished', 'conjugate_real',
                 'lazyProduct_', 'nestedExpression', 'real_', 'evalTo', 'coeffs'):
            return base
        if n.startswith('operator ') or n == 'value':       # conversion of a 1x1 product to its scalar
            return self.val(base, st)
        b = self.val(base, st)
        if b.dim is None and dimb and b.op not in ('num', 'poly', 'bool', 'bil', 'norm'):
            b.dim = dimb
        kd = b.dim if b.dim else dimb
        xs = [self.rv(a, fr, st) for a in args]
        if n in ('block', 'topLeftCorner', 'col', 'row', 'head', 'tail', 'segment', 'leftCols', 'rightCols', 'topRows',
                 'bottomRows', 'middleCols', 'middleRows', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            r = self.eig_block(n, base, b, xs, bt, ts, kd, st)
            if r is not None:
                return r
        if n in ('operator()', 'coeff', 'coeffRef', 'operator[]') and xs:
            return self.eig_index(base, xs, ts, bt, fr, st, e)
        if n in ('x', 'y', 'z', 'w') and not xs:
            return self.eig_index(base, [num('xyzw'.index(n))], ts, bt, fr, st, e)
        if n == 'transpose' or n == 'adjoint':
            if isinstance(base, LV) and n == 'transpose':
                return LV(base.root, base.path + (('T',),), ts)
            return transpose(b)
        if n == 'transposeInPlace':
            self.write(st, base, transpose(b))
            return None
        if n == 'norm' and E_ is not None:
            return norm(b)
        if n == 'squaredNorm':
            return mul(norm(b), norm(b)) if False else bil((transpose(b), b)) if b.dim and b.dim[1] == 1 and len(mterms(b)) == 1 else mul(norm(b), norm(b))
        if n == 'normalized':
            return normalized(b)
        if n == 'normalize':
            self.write(st, base, normalized(b))
            return None
        if n == 'dot':
            return mprod(transpose(b), xs[0], (1, 1))
        if n == 'cross':
            return cross(b, xs[0])
        if n == 'inverse':
            return minv(b)
        if n == 'setZero' and E_ is not None:
            if isinstance(base, LV):
                self.write(st, base, self.const_of_size(b, kd, xs, ZERO))
            return base
        if n == 'setIdentity' and E_ is not None:
            dd = kd if not xs else ((val(xs[0]), val(xs[1])) if len(xs) == 2 and is_num(xs[0]) and is_num(xs[1]) else kd)
            self.write(st, base, mk('mI', dd[0], dim=dd))
            return base
        if n in ('setConstant', 'fill') and len(xs) == 1:
            self.write(st, base, self.const_of_size(b, kd, (), xs[0]))
            return base
        if n in ('Zero', 'Identity', 'Ones', 'Random', 'Constant') and d.get('static'):
            return self.eig_static(n, xs, ts, d)
        if n in ('rows', 'cols', 'size') and E_ is not None:
            dd = kd
            if n == 'rows' and dd and dd[0] >= 0:
                return num(dd[0])
            if n == 'cols' and dd and dd[1] >= 0:
                return num(dd[1])
            if n == 'size' and dd and dd[0] >= 0 and dd[1] >= 0:
                return num(dd[0] * dd[1])
            return mrows(b, int(n == 'cols')) if n != 'size' else mk('fn', 'msize', b)
        if n in ('resize', 'conservativeResize') and isinstance(base, LV):
            if len(xs) == 2 and is_num(xs[0]) and is_num(xs[1]):
                self.write(st, base, undefm((val(xs[0]), val(xs[1]))))
            elif len(xs) == 1 and is_num(xs[0]):
                self.write(st, base, undefm((val(xs[0]), 1)))
            else:
                self.write(st, base, undefdyn(xs[0], xs[1] if len(xs) == 2 else ONE) if len(xs) in (1, 2) else mk('undef', 'mdyn', dim=dimb))
            return None
        if n in ('asDiagonal',):
            return mk('fn', 'asDiagonal', b, dim=edim(ts))
        if n == 'diagonal' and isinstance(base, LV) and not d.get('const'):
            return LV(base.root, base.path + (('diag', edim(ts)),), ts)
        if n == 'data' and isinstance(base, LV):
            return self.addr_node(base)
        if n == 'swap' and isinstance(base, LV):
            o = self.lvof(args[0], fr, st)
            x, y = self.read(st, base), self.read(st, o)
            self.write(st, base, y)
            self.write(st, o, x)
            return None
        if n == 'real' and not xs:
            return mk('fn', 'real', b, dim=edim(ts))
        if n.startswith('operator=') and n == 'operator=':
            self.write(st, base, xs[0])
            return base
        # generic: const methods are pure, others rewrite the object
        if self.intercept is not None:
            r = self.intercept(self, e, d, base, args, fr, st)
            if r is not NotImplemented:
                return r
        dim = edim(ts)
        if not xs and b.op == 'ctor' and len(b.a) > 1 and isinstance(b.a[1], N) and b.a[1].dim and min(b.a[1].dim) > 0:
            sr, sc_ = b.a[1].dim
            if n in ('matrixV', 'matrixU') and 'SVD' in str(b.a[0]) and (sr >= sc_ if n == 'matrixV' else sc_ >= sr):
                dim = (sc_, sc_) if n == 'matrixV' else (sr, sr)
            elif n == 'singularValues':
                dim = (min(sr, sc_), 1)
            elif n in ('eigenvalues', 'eigenvectors'):
                dim = (sr, 1 if n == 'eigenvalues' else sr)
        if n == 'hnormalized' and b.dim and b.dim[1] == 1 and b.dim[0] > 1:
            return mscale(inv(region(b, b.dim[0] - 1, 0, 1, 1)), region(b, 0, 0, b.dim[0] - 1, 1))
        r = mk('fn', '.' + n, b, *xs, dim=dim)
        if is_int_ts(ts):
            r.meta = 'i'
        if not d.get('const') and not d.get('static') and isinstance(base, LV) and n not in ('begin', 'end'):
            for a in args:
                pass
            self.event('eigmut', (n, base), st, e['l'], fr)
            # methods such as lm.minimize(x) also write their argument
            outs = []
            for i, a in enumerate(args):
                p = d['p'][i] if i < len(d['p']) else None
                if p and p['m'] == 'mref':
                    lv = self.lvof(a, fr, st)
                    self.write(st, lv, mk('out', r, i, dim=edim(lv.ts)))
            self.event('call', (d, r, outs), st, e['l'], fr)
            if eig(bt) and E_[0] in ('Matrix', 'Array', 'Block', 'Map'):
                self.write(st, base, mk('out', r, 'this', dim=kd))
        elif d['q'].startswith('Eigen::') and n in ('minimize', 'minimizeInit'):
            self.event('call', (d, r, []), st, e['l'], fr)
        return r

    def const_of_size(self, b, dd, xs, v):
        """a constant matrix of the given size, or of the size the matrix b has"""
        if -1 in dd:
            if len(xs) == 2:
                ext = list(xs)
            elif len(xs) == 1:
                ext = [num(x) if x >= 0 else xs[0] for x in dd]
            else:
                ext = [num(x) if x >= 0 else mrows(b, k) for k, x in enumerate(dd)]
            if all(is_num(x) for x in ext):
                dd = tuple(val(x) for x in ext)
            elif not any(x.op in ('rows', 'cols') for x in ext):
                return mk('mconst', dd[0], dd[1], v, *ext, dim=dd)
        return mk('mconst', dd[0], dd[1], v, dim=dd)

    def eig_static(self, n, xs, ts, d, dim=None):
        dim = dim or edim(ts) or (-1, -1)
        if n.startswith('Unit'):
            return mupd_norm(undefm((3, 1)), [(i, 0, 1, 1, ONE if 'XYZ'[i] == n[4] else ZERO) for i in range(3)], 3, 1)
        if len(xs) >= 2 and is_num(xs[0]) and is_num(xs[1]):
            dim = (val(xs[0]), val(xs[1]))
        elif len(xs) == 1 and n != 'Constant' and is_num(xs[0]):
            dim = (val(xs[0]) if dim[0] < 0 else dim[0], val(xs[0]) if dim[1] < 0 else dim[1])
        if n in ('Zero', 'Ones', 'Constant') and -1 in dim and xs:
            ys = xs[:-1] if n == 'Constant' else xs
            ext = [num(x) if x >= 0 else None for x in dim]
            if len(ys) == 2:
                ext = [x or y for x, y in zip(ext, ys)]
            elif len(ys) == 1:
                ext = [x or ys[0] for x in ext]
            if None not in ext:
                return mk('mconst', dim[0], dim[1], {'Zero': ZERO, 'Ones': ONE, 'Constant': xs[-1]}[n], *ext, dim=dim)
        if n == 'Zero':
            return mk('mconst', dim[0], dim[1], ZERO, dim=dim)
        if n == 'Ones':
            return mk('mconst', dim[0], dim[1], ONE, dim=dim)
        if n == 'Identity':
            if dim[0] < 0 and xs:
                return mk('mI', dim[0], xs[0], dim=dim)
            return mk('mI', dim[0], dim=dim)
        if n == 'Constant':
            return mk('mconst', dim[0], dim[1], xs[-1], dim=dim)
        return mk('fn', 'EigenRandom', mk('seq', fresh_id()), dim=dim)

    def eig_block(self, n, base, b, xs, bt, ts, kd, st):
        od = edim(ts) or (-1, -1)
        R, C = kd if kd else (-1, -1)
        Rn = R if R >= 0 else mrows(b)
        Cn = C if C >= 0 else mrows(b, 1)
        if n == 'col':
            return self.reg(base, 0, xs[0], Rn, 1, bt, ts, st)
        if n == 'row':
            return self.reg(base, xs[0], 0, 1, Cn, bt, ts, st)
        if n == 'block':
            if len(xs) == 2:
                return self.reg(base, xs[0], xs[1], od[0], od[1], bt, ts, st)
            if len(xs) == 4:
                return self.reg(base, xs[0], xs[1], xs[2], xs[3], bt, ts, st)
        isrow = (R == 1)
        if n in ('head', 'tail', 'segment'):
            k = od[1] if isrow else od[0]
            if n == 'segment':
                i0 = xs[0]
                if k < 0:
                    k = self._c(xs[1])
            else:
                if k < 0:
                    k = self._c(xs[0])
                i0 = ZERO if n == 'head' else sub(_n(Cn if isrow else Rn), _n(k))
            return self.reg(base, 0, i0, 1, k, bt, ts, st) if isrow else self.reg(base, i0, 0, k, 1, bt, ts, st)
        nr, nc = od
        ys = list(xs)
        if n in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            if nr < 0 and ys:
                nr = self._c(ys[0])
            if nc < 0 and len(ys) > 1:
                nc = self._c(ys[1])
            r0 = ZERO if n.startswith('top') else sub(_n(Rn), _n(nr))
            c0 = ZERO if 'Left' in n else sub(_n(Cn), _n(nc))
            return self.reg(base, r0, c0, nr, nc, bt, ts, st)
        if n in ('leftCols', 'rightCols', 'middleCols'):
            k = nc if nc >= 0 else self._c(ys[-1])
            c0 = {'leftCols': ZERO, 'rightCols': sub(_n(Cn), _n(k)), 'middleCols': ys[0] if ys else ZERO}[n]
            return self.reg(base, 0, c0, Rn, k, bt, ts, st)
        if n in ('topRows', 'bottomRows', 'middleRows'):
            k = nr if nr >= 0 else self._c(ys[-1])
            r0 = {'topRows': ZERO, 'bottomRows': sub(_n(Rn), _n(k)), 'middleRows': ys[0] if ys else ZERO}[n]
            return self.reg(base, r0, 0, k, Cn, bt, ts, st)
        return None


def _n(x):
    return x if isinstance(x, N) else num(x)


def vmapslice(src, lo, hi):
    n = sub(hi, lo)
    if lo is ZERO and hi is size(src):
        return src
    if is_num(n) and 0 <= val(n) <= 80:
        return tup([sel_el(src, add(lo, num(i))) for i in range(val(n))])
    bv = mk('mu', 'slice', fresh_id())
    return vmap(ZERO, n, bv, sel_el(src, add(lo, bv)))
