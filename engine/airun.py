"""every library function analysed as a root by the abstract interpreter, in parallel"""
import multiprocessing as mp
import os, sys, threading
import absint
from db import AnalysisError
from effects import library


def size(x):
    n = 0
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            n += 1
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)
    return n


def one(D, f, budget, n):
    a = absint.AI(D, max(budget, 8 * n))
    err = ''
    try:
        a.root(f)
    except absint.Stop as x:
        err = str(x)
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        err = '%s %s (%s:%d)' % (type(x).__name__, str(x)[:100], os.path.basename(tb.filename), tb.lineno)
    return err, dict(a.alarms), {k: len(v) for k, v in a.obl.items()}, a.fns, [D.fn[u]['q'] for u in a.opaque_calls]


def run(D, budget=400000, procs=8, select=None):
    """[(function, error, alarms, obligation counts, functions seen, functions not followed)]"""
    fs = [f for f in library(D) if f.get('body') is not None and (select is None or select(f))]
    fs.sort(key=lambda f: (f['file'], f['line'], f['u']))
    sz = [size(f['body']) for f in fs]
    order = sorted(range(len(fs)), key=lambda i: (not f_is_run(fs[i]), -sz[i]))
    q, o = mp.Queue(), mp.Queue()
    for i in order:
        q.put(i)
    for _ in range(procs):
        q.put(None)

    def work():
        sys.setrecursionlimit(10 ** 6)

        def go():
            while True:
                i = q.get()
                if i is None:
                    return
                o.put((i, one(D, fs[i], budget, sz[i])))
        t = threading.Thread(target=go)
        t.start()
        t.join()
    ps = [mp.Process(target=work) for _ in range(procs)]
    for p in ps:
        p.start()
    res = [None] * len(fs)
    import queue
    got = 0
    while got < len(fs):
        try:
            i, r = o.get(timeout=20)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                raise AnalysisError('a worker ended early')
            continue
        res[i] = r
        got += 1
    for p in ps:
        p.join()
    return [(f,) + r for f, r in zip(fs, res)]


def f_is_run(f):
    return f['q'].endswith('::computeModel')


def report(C, D, kinds, rule, what, read):
    """obligations per function: read = the obligation kinds counted"""
    res = run(D)
    skipped = []
    alarms = {}
    for f, err, al, ob, fns, opaque in res:
        if err:
            skipped.append('%s: %s' % (f['q'], err))
        for k in al:
            if k[0] in kinds:
                alarms.setdefault(k, f)
        n = sum(ob.get(k, 0) for k in read)
        C.count('sites', n)
        C.count('calls followed', max(0, len(fns) - 1))
        if opaque:
            C.count('roots with calls not followed')
        C.functions.add('%s (%s:%s)' % (f['q'], f['file'], f['line']))
        if n and not err:
            C.ob(rule, '%s (%s:%d): %d sites' % (f['q'], f['file'], f['line'], n), '%s:%d' % (f['file'], f['line']), True)
    if len(skipped) > len(res) // 20:
        raise AnalysisError('%d of %d functions could not be analysed, e.g. %s' % (len(skipped), len(res), skipped[0]))
    for s in skipped:
        C.count('not analysed: ' + s[:120])
    for (kind, file, line, text), f in sorted(alarms.items()):
        C.ob(rule, '%s: %s' % (os.path.basename(file), text), '%s:%s' % (file, line), False, '%s (analysed from %s)' % (text, f['q']))
    return res
