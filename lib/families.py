"""Families of cases: which documents and histories each property is tried on."""
import os, random, re
import gen, vlib
from cases import Case, simple, wellformed
from gen import E, T, World, render, PLAIN, MIXED, WILD, CLS, INST, permuted


# ------------------------------------------------------------------ helpers
def one(prof, style=None, mode=None, log=None):
    return lambda cid, r: simple(cid, r, prof, style, log, mode)


def recoded(f):
    """the cases of a family in other encodings than UTF-8"""
    def g(cid, r):
        c = f(cid, r)
        c.files = [gen.recode(b, r) if isinstance(b, bytes) else b for b in c.files]
        return c
    return g


def ref(c, t, g, fw=False):
    return E('Reference', dict({'ReferenceType': t}, **({} if fw else {'IsForward': 'false'})), [T(g)])


def ns0(c, *nums):
    for n in nums:
        c.lex.id('i=%d' % n, 0, 'i=%d' % n)


def uris(n):
    return E('NamespaceUris', c=[E('Uri', c=[T('urn:u%d' % i)]) for i in range(n)])


def run_doc(c, r, doc, style=PLAIN, svc='int', mode='plain', pad=0):
    c.new('A', svc); c.imp('A', c.doc(doc), c.file(render(doc, r, style, pad)), mode)
    c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
    return c


# ------------------------------------------------------------------ sizes
def big(mix):
    """more nodes than every initial capacity; mix: class -> number"""
    def f(cid, r):
        c = Case(cid, 'large nodeset'); ns0(c, 47, 35, 45, 33)
        cl = [k for k, n in mix.items() for _ in range(n)]
        r.shuffle(cl)
        late = c.lex.id('ns=1;i=999999', 1, 'i=999999')
        kids = []
        for i, k in enumerate(cl):
            t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1))
            rs = []
            if i:
                rs.append(ref(c, late if r.random() < 0.03 else 'i=47', 'ns=1;i=%d' % (r.randint(1, i) if r.random() < 0.5 else (i + 1) // 2)))
            else:
                ns0(c, 85); rs.append(ref(c, 'i=35', 'i=85'))
            kids.append(E(k, {'NodeId': t, 'BrowseName': 'b%d' % i}, [E('References', c=rs)]))
        kids.append(E('UAReferenceType', {'NodeId': late, 'BrowseName': 'late'}, [E('References', c=[ref(c, 'i=45', 'i=33')])]))
        if r.random() < 0.7:
            r.shuffle(kids)
        for k in kids:
            c.lex.bn(k['a']['BrowseName'], 0, k['a']['BrowseName'])
        return run_doc(c, r, E('UANodeSet', c=[uris(1)] + kids))
    return f


def medium(lo, hi, **prof):
    return one(dict(nodes=(lo, hi), val=0.05, df=0.1, texts=0.1, attrs=0.1, ext=0.02, aliases=(0, 30), **prof), PLAIN)


def manyids(cid, r):
    """many nodes with ids that differ in one part only; random hierarchy"""
    c = Case(cid); ns0(c, 47, 33, 34, 35, 45, 46)
    forms = []
    base = [str(i) for i in range(1, 9)] + ['10', '11', '00', 'a', 'A', 'b', 'é', 'aa', 'ab', '1a']
    for ns in (1, 2, 3):
        for b in base:
            forms.append((ns, 's=' + b))
            if b.isdigit() and b[0] != '0':
                forms.append((ns, 'i=' + b))
        for k in range(4):
            forms.append((ns, 'g=%08x-0000-0000-0000-00000000000%d' % (k % 2, k // 2)))
            forms.append((ns, 'b=' + ['AQ==', 'AQE=', 'AgE=', 'AQEB'][k]))
    r.shuffle(forms)
    forms = forms[:r.randint(10, len(forms))]
    kids, ids = [], []
    for i, (ns, f) in enumerate(forms):
        t = c.lex.id('ns=%d;%s' % (ns, f), ns, f); ids.append(t)
        rs = [ref(c, r.choice(['i=47', 'i=35', 'i=46']), ids[r.randint(0, i - 1)])] if i else []
        rs += [ref(c, 'i=33', r.choice(ids[:i]))] if i and r.random() < 0.3 else []
        c.lex.bn('%d:%s' % (ns, 'n%d' % i), ns, 'n%d' % i)
        kids.append(E(r.choice(CLS[:5] + CLS[6:]), {'NodeId': t, 'BrowseName': '%d:n%d' % (ns, i)}, [E('References', c=rs)]))
    r.shuffle(kids)
    n = r.choice([0, 1, 2, 3, 3])
    c.pre.append('nsbase\t%d' % (1 if n < 3 else r.choice([1, 2, 5])))     # ids stay distinct
    return run_doc(c, r, E('UANodeSet', c=[uris(n)] + kids))


# ------------------------------------------------------------------ hierarchies
def dag(n=(6, 40), dens=0.15, cyc=0.0, via=0.3):
    """dense acyclic graphs over few classes; relations given by either side, in any document order"""
    def f(cid, r):
        c = Case(cid); ns0(c, 33, 34, 35, 36, 44, 45, 46, 47, 48, 49, 85)
        k = r.randint(*n)
        cls = [r.choice(['UAObject', 'UAVariable', 'UAMethod', 'UAView', 'UAObjectType', 'UADataType', 'UAVariableType'] if r.random() < via else [r.choice(CLS)] ) for _ in range(k)]
        dom = r.choice(['UAObject', 'UAVariable', 'UADataType', 'UAObjectType'])
        cls = [dom if r.random() < 0.6 else x for x in cls]
        ext = [r.random() < 0.1 for _ in range(k)]
        pos = list(range(k)); r.shuffle(pos)      # numbers say nothing about the order
        ids = [c.lex.id('ns=1;i=%d' % (100 + pos[i]), 1, 'i=%d' % (100 + pos[i])) for i in range(k)]
        refs, par = [[] for _ in range(k)], {}
        shape = r.choice(['dense', 'chain', 'layers', 'dense', 'star'])
        edges = set()
        for j in range(1, k):
            if shape == 'chain':
                edges.add((j - 1, j))
            elif shape == 'star':
                edges.add((0, j))
            elif shape == 'layers':
                w = 5
                for i in range(max(0, (j // w - 1) * w), (j // w) * w):
                    if r.random() < 0.5:
                        edges.add((i, j))
            for i in range(j):
                if r.random() < dens * (1 if shape == 'dense' else 0.15):
                    edges.add((i, j))
        if r.random() < cyc:
            m = r.randint(2, min(k, 7)); ring = r.sample(range(k), m)
            for a in range(m):
                edges.add((ring[a], ring[(a + 1) % m]))
        for i, j in sorted(edges):
            ts = 'i=%d' % r.choice([33, 34, 35, 36, 44, 45, 46, 47, 48, 49])
            s = r.random()
            if not ext[i] and (s < 0.4 or ext[j]):
                refs[i].append(ref(c, ts, ids[j], True))
            if not ext[j] and (s >= 0.35 or ext[i]):
                if s > 0.75 and cls[j] in INST and j not in par and not any(x['a'].get('IsForward') for x in refs[j]):
                    par[j] = ids[i]
                else:
                    refs[j].append(ref(c, ts, ids[i]))
        for j in range(k):
            if r.random() < 0.08:
                refs[j].append(ref(c, 'i=35', ids[j], r.random() < 0.5))
        kids = []
        for j in range(k):
            if ext[j]:
                continue
            r.shuffle(refs[j])
            a = {'NodeId': ids[j], 'BrowseName': 'n%d' % j}
            c.lex.bn('n%d' % j, 0, 'n%d' % j)
            if j in par:
                a['ParentNodeId'] = par[j]
            kids.append(E(cls[j], a, [E('References', c=refs[j])]))
        o = r.random()
        if o < 0.6:
            r.shuffle(kids)
        elif o < 0.9:
            kids.reverse()
        return run_doc(c, r, E('UANodeSet', c=[uris(1)] + kids), svc=r.choice(['int', 'cust']))
    return f


def rtforest(n=(3, 40), chain=0.5):
    """many reference types, subtypes of each other, declared in any order and used by a few nodes"""
    def f(cid, r):
        c = Case(cid); ns0(c, 33, 34, 35, 45, 47, 32, 37, 39, 41, 85, 44, 46, 36, 48, 49, 40, 117, 129, 131, 56)
        k = r.randint(*n)
        nf = r.choice([1, 1, 2, 3])
        num = list(range(1000, 1000 + k)); r.shuffle(num)
        rid = [c.lex.id('ns=1;i=%d' % x, 1, 'i=%d' % x) for x in num]
        svc = r.choice(['int', 'cust'])
        base = ['i=33', 'i=34', 'i=35', 'i=47', 'i=44', 'i=46', 'i=32', 'i=37', 'i=39', 'i=41', 'i=45', 'i=36', 'i=48', 'i=49'] + (['i=117', 'i=129', 'i=131', 'i=56'] if svc == 'int' else [])
        refs = [[] for _ in range(k)]
        for i in range(k):
            s = r.random()
            sup = rid[i - 1] if i and s < chain else r.choice(rid[:i]) if i and s < 0.8 else r.choice(base) if s < 0.97 else None
            if sup:
                refs[i].append(ref(c, 'i=45', sup))
                if r.random() < 0.15 and sup in rid:
                    refs[rid.index(sup)].append(ref(c, 'i=45', rid[i], True))
            # other references that are no supertypes
            if r.random() < 0.2:
                refs[i].append(ref(c, r.choice(['i=35', 'i=47', 'i=37', 'i=41']), r.choice(['i=33', 'i=34', 'i=32']), r.random() < 0.5))
            if r.random() < 0.1 and i:
                refs[i].append(ref(c, 'i=45', r.choice(rid[:i])))
        items = []
        for i in range(k):
            if r.random() < 0.1:
                refs[i].append(E('Reference', {'ReferenceType': r.choice(rid)}, [T('i=85')]))
            r.shuffle(refs[i])
            c.lex.bn('r%d' % i, 0, 'r%d' % i)
            items.append((i * nf // k if r.random() < 0.5 else r.randrange(nf), E('UAReferenceType', {'NodeId': rid[i], 'BrowseName': 'r%d' % i}, [E('References', c=refs[i])])))
        m = r.randint(1, 12)
        nid = [c.lex.id('ns=1;s=n%d' % i, 1, 's=n%d' % i) for i in range(m)]
        for i in range(m):
            rs = [ref(c, r.choice(rid + base[:3]), r.choice(nid[:i] or ['i=85']), False) for _ in range(r.randint(0, 3))]
            rs += [ref(c, r.choice(rid), r.choice(nid[i + 1:] or ['i=41']), True) for _ in range(r.randint(0, 2))]
            if r.random() < 0.04:
                rs.append(ref(c, c.lex.id('ns=1;i=77', 1, 'i=77'), 'i=85', True))
            c.lex.bn('n%d' % i, 0, 'n%d' % i)
            items.append((r.randrange(nf), E(r.choice(['UAObject', 'UAVariable', 'UADataType', 'UAObjectType']), {'NodeId': nid[i], 'BrowseName': 'n%d' % i}, [E('References', c=rs)])))
        o = r.random()
        if o < 0.5:
            r.shuffle(items)
        elif o < 0.8:
            items.reverse()
        c.new('A', svc)
        for fi in range(nf):
            d = E('UANodeSet', c=[uris(1)] + [x for q, x in items if q == fi])
            c.imp('A', c.doc(d), c.file(render(d, r)))
        c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
        return c
    return f


# ------------------------------------------------------------------ hosts and namespaces
def hosts(cid, r):
    """hosts that already know namespaces, in any order, and files that list them in different orders"""
    c = simple(cid, r, dict(uris=(1, 6), files=(1, 3), raw=0.3, dupuri=0.2, aliases=(0, 10), val=0.2, nodes=(3, 12), rts=(0, 3), texts=0.2))
    idx = list(range(1, 12)); r.shuffle(idx)
    if r.random() < 0.15:
        c.pre.append('nsbase\t%d' % r.choice([1, 3, 7, 100, 60000]))
    else:
        us = c.world.uris
        for i, u in enumerate(us):
            if r.random() < 0.8:
                c.pre.append('nsset\t%d\t%s' % (idx[i], u))
        c.pre.append('nsbase\t20')
    return c


def manyuris(cid, r):
    """hundreds of namespaces"""
    c = Case(cid); ns0(c, 35, 85)
    n = r.choice([60, 130, 300])
    c.pre.append('nsbase\t%d' % r.choice([2, 500]))
    kids = []
    for i in range(60):
        k = r.randint(1, n)
        t = c.lex.id('ns=%d;i=%d' % (k, i), k, 'i=%d' % i)
        c.lex.bn('%d:x' % k, k, 'x')
        kids.append(E('UAObject', {'NodeId': t, 'BrowseName': '%d:x' % k}, [E('References', c=[ref(c, 'i=35', 'i=85')])]))
    return run_doc(c, r, E('UANodeSet', c=[uris(n)] + kids))


# ------------------------------------------------------------------ texts
def chunks(cid, r):
    """every position of the document relative to the blocks in which the parser gets it"""
    return simple(cid, r, dict(nodes=(1, 4), long=0.5, texts=1.0, val=0.9, ext=0.4, aliases=(1, 4)), r.choice([PLAIN, MIXED, WILD]), 'cap', 'ext')


def padded(cid, r):
    c = Case(cid); w = World(r, nodes=(2, 3), texts=1.0, val=1.0, ext=0.5, aliases=(1, 3), long=0.0, rts=(0, 1)); c.use(w)
    d = w.docs[0]
    st = r.choice([PLAIN, MIXED])
    seed = r.getrandbits(32)
    k = r.randint(0, 1023)
    c.doc(d)
    c.new('A', w.svc)
    for i in range(12):
        c.imp('A', 1, c.file(render(d, random.Random(seed), st, 1 + (k + i * 85) % 1030)), 'ext')
        c.op('sort'); c.op('dump'); c.op('del'); c.new('A', w.svc)
    c.op('del'); c.op('ledger')
    return c


def longtext(size):
    def f(cid, r):
        c = Case(cid); ns0(c, 35, 85, 47)
        unit = r.choice(['abcdefghij', 'é漢字😀x', 'a&b<c>d ', '0123456789\n'])
        s = (unit * (size // len(unit) + 1))[:size]
        idt = c.lex.id('ns=1;s=' + s[:min(size, 3000)], 1, 's=' + s[:min(size, 3000)])
        c.lex.bn('b', 0, 'b')
        c.lex.id('ns=1;i=7', 1, 'i=7')
        d = E('UANodeSet', c=[E('NamespaceUris', c=[E('Uri', c=[T('urn:' + s[:2000])])]), E('Aliases', c=[E('Alias', {'Alias': s[:1500]}, [T('i=47')])]),
            E('UAVariable', {'NodeId': idt, 'BrowseName': 'b', 'ArrayDimensions': s[:5000]}, [E('DisplayName', {'Locale': s[:100]}, [T(s)]), E('Description', c=[T(s[::-1])]),
                E('References', c=[ref(c, s[:1500], 'ns=1;i=7')]), E('Value', c=[E('String', c=[T(s)])])]),
            E('UAObject', {'NodeId': 'ns=1;i=7', 'BrowseName': 'b'}, [E('References', c=[ref(c, 'i=35', 'i=85')]), E('Extensions', c=[E('Extension', c=[E('x', c=[T(s)])])])])])
        return run_doc(c, r, d, r.choice([PLAIN, MIXED, WILD]), mode='ext', pad=r.randint(0, 1024))
    return f


# ------------------------------------------------------------------ broken input
GOOD = dict(nodes=(2, 5), rts=(0, 0), aliases=(0, 3), uris=(1, 2), texts=0.8, val=0.6, df=0.5, ext=0.3, nulls=0.0, svc=('int',), long=0.0, raw=0.0)


def broken_case(c, r, w, bad, mode='plain', exp='fail'):
    """good, bad, good again, on one loader"""
    c.new('A', w.svc)
    a, b, d = w.docs[0], w.docs[1], w.docs[2]
    ia, ib, id_ = (len(c.docs) >= 3 and (1, 2, 3)) or (c.doc(a), c.doc(b), c.doc(d))
    k = r.random()
    if k < 0.7:
        c.imp('A', ia, c.file(render(a, r)), mode)
        if r.random() < 0.4:
            c.op('sort')
    c.imp('A', ib, c.file(bad), mode, exp)
    if k < 0.1:
        c.imp('A', ib, c.file(bad), mode, exp)
    if r.random() < 0.6:
        c.op('sort'); c.op('dump')
    if r.random() < 0.6:
        c.imp('A', id_, c.file(render(d, r)), mode)
    c.op('sort'); c.op('dump'); c.op('del')


def truncated(parts):
    """cut after every byte; parts: number of cases over which the positions are spread"""
    def f(cid, r):
        c = Case(cid)
        w = World(r, files=(3, 3), order='topo', segments=True, **GOOD); c.use(w)
        b = render(w.docs[1], r, r.choice([PLAIN, PLAIN, MIXED]))
        end = len(b)
        if r.random() < 0.3:
            b = gen.recode(b, r); end = len(b) - 8
        ks = [k for k in range(end) if not wellformed(b[:k])]
        for k in r.sample(ks, min(len(ks), parts)):
            broken_case(c, r, w, b[:k], r.choice(['plain', 'ext']))
        c.op('ledger')
        return c
    return f


def malformed(cid, r):
    c = Case(cid)
    w = World(r, files=(3, 3), order='topo', segments=True, **GOOD); c.use(w)
    for _ in range(8):
        s = render(w.docs[1], r, PLAIN)
        tags = [m.start() for m in re.finditer(b'<', s)]
        p = r.choice(tags[1:])
        gt = s.index(b'>', p)
        k = r.randrange(14)
        if k == 0: bad = s[:p] + b'<' + s[p:]
        elif k == 1: bad = s[:p] + b'</wrong>' + s[p:]
        elif k == 2: bad = s[:p] + b'&nosuch;' + s[p:]
        elif k == 3: bad = s[:p] + b'\x00' + s[p:]
        elif k == 4: bad = s[:p] + b'\xff\xfe' + s[p:]
        elif k == 5: bad = s[:p] + b'<a b="1" b="2"/>' + s[p:]
        elif k == 6: bad = s + b'<again/>'
        elif k == 7: bad = s[:p] + b'<!-- never closed ' + s[p:].replace(b'-->', b'')
        elif k == 8: bad = s[:p] + b'<![CDATA[ never closed' + s[p:].replace(b']]>', b'')
        elif k == 9: bad = s[:p] + b'<open>' + s[p:]
        elif k == 10: bad = s + b'trailing text'
        elif k == 11: bad = bytes(r.getrandbits(8) for _ in range(r.choice([1, 10, 100, 3000])))
        elif k == 12: bad = s[:p] + b'<x y=1/>' + s[p:]
        else: bad = s[:p] + b'\x01' + s[p:]
        if wellformed(bad):
            continue
        broken_case(c, r, w, bad, r.choice(['plain', 'ext']))
    # no file at all
    for bad, mode in ((None, 'plain'), (b'', 'plain'), (b'  \n ', 'plain'), ('dir', 'plain')):
        if r.random() < 0.5:
            c.new('A'); c.imp('A', 1, c.file(render(w.docs[0], r))) if r.random() < 0.5 else None
            c.imp('A', 0, c.file(bad), mode, 'fail')
            c.imp('A', 3, c.file(render(w.docs[2], r))); c.op('sort'); c.op('dump'); c.op('del')
    for mode in ('nofc', 'nocb'):
        if r.random() < 0.5:
            c.new('A'); c.imp('A', 0, c.file(render(w.docs[0], r)), mode, 'fail')
            c.imp('A', 3, c.file(render(w.docs[2], r))); c.op('sort'); c.op('dump'); c.op('del')
    c.op('ledger')
    return c


# ------------------------------------------------------------------ several files, several loaders, histories
def split(cid, r, cyc=0.0):
    """files in the order of the hierarchy; sorted after every import, or only sometimes"""
    w = World(r, files=(2, 5), segments=True, order='any', uris=(0, 4), nodes=(3, 20), aliases=(0, 8), enc=0.5, unk=r.choice([0, 0, 0.05]), raw=0.05, dup=0 if cyc else r.choice([0, 0, 0.5]), cyc=cyc)
    c = Case(cid); c.use(w); c.world = w
    if r.random() < 0.3:
        c.pre.append('nsbase\t%d' % r.randint(1, 9))
    c.new('A', w.svc)
    how = r.choice(['each', 'each', 'some', 'once'])
    for d in w.docs:
        c.imp('A', c.doc(d), c.file(render(d, r, r.choice([PLAIN, PLAIN, MIXED]))), r.choice(['plain', 'ext']))
        if how == 'each' or how == 'some' and r.random() < 0.5:
            c.op('sort')
            if r.random() < 0.5:
                c.op('dump')
            if r.random() < 0.1:
                c.op('sort')
    c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
    return c


def history(c, r, L, n, bad=True, big=False):
    """operations of one loader, returned as functions to be called in order"""
    w = World(r, files=(1, 4), segments=r.random() < 0.6, uris=(0, 3), nodes=(2, 8), rts=(0, 3), cyc=0.15 if bad else 0, unresolved=0.1 if bad else 0, nulls=0.1,
              df=0.7, val=0.8, ext=0.4, unk=r.choice([0, 0.1]), svc=('int', 'int', 'cust'))
    c.use(w)
    seg = w.p.get('segments')
    ops = []
    log = r.choice(['cap', 'cap', 'int'])
    base = len(c.docs)
    for d in w.docs:
        c.doc(d)
    todo = list(range(len(w.docs)))
    ops.append(lambda: c.new(L, w.svc, log))
    for _ in range(n):
        k = r.random()
        if k < 0.45 and todo:
            i = todo.pop(0); mode = r.choice(['plain', 'ext', 'ext'])
            ops.append(lambda i=i, mode=mode: c.imp(L, base + i + 1, c.file(render(w.docs[i], r, r.choice([PLAIN, MIXED, WILD]))), mode))
        elif k < 0.7:
            if seg or not todo:
                ops.append(lambda: c.op('sort', L))
        elif k < 0.85:
            if seg or not todo:
                ops.append(lambda: c.op('dump', L))
        elif bad and k < 0.95 and L == 'A':
            ops.append(lambda: c.imp(L, 0, c.file(r.choice([None, b'', b'<UANodeSet>', b'\xff\xfe\x00', b'<a><b></a>'])), 'plain', 'fail'))
    ops.append(lambda: c.op('del', L))
    return ops


def lifecycle(cid, r):
    c = Case(cid)
    for _ in range(r.randint(1, 3)):
        for f in history(c, r, 'A', r.choice([0, 1, 2, 4, 8, 12])):
            f()
        if r.random() < 0.3:
            c.op('ledger')
    c.op('ledger')
    return c


def interleaved(cid, r):
    c = Case(cid)
    k = r.randint(2, 4)
    if r.random() < 0.5:
        c.pre.append('nsbase\t%d' % r.randint(1, 9))
    qs = [history(c, r, 'ABCD'[i], r.choice([2, 4, 8]), bad=r.random() < 0.4) for i in range(k)]
    while any(qs):
        q = r.choice([q for q in qs if q])
        for _ in range(r.choice([1, 1, 2])):
            if q:
                q.pop(0)()
    c.op('ledger')
    return c


def nested(cid, r):
    """other loaders are used inside of the callbacks of a call"""
    c = Case(cid)
    qs = [history(c, r, 'ABCD'[i], r.choice([4, 6, 9]), bad=r.random() < 0.3) for i in range(r.randint(2, 3))]
    main, rest = qs[0], qs[1:]

    def take(q, k):
        """runs the next k steps of q, its operations are not appended to the history"""
        old, c.ops = c.ops, []
        for _ in range(k):
            if q:
                q.pop(0)()
        new, c.ops = c.ops, old
        return new
    while main:
        if r.random() < 0.7 and any(rest):
            ops = take(r.choice([q for q in rest if q]), r.choice([1, 1, 2, 3]))
            nxt = take(main, 1)
            if ops and nxt:
                c.ops.append(('nest', r.choice([1, 1, 2, 3, 5, 9, 20]), ops))
            c.ops += nxt
        else:
            main.pop(0)()
    for q in rest:
        while q:
            q.pop(0)()
    c.op('ledger')
    return c


def threads(cid, r):
    """every thread has loaders of its own"""
    c = Case(cid)
    qs = []
    for i in range(r.randint(2, 4)):
        c.ops = []
        for f in history(c, r, 'ABCD'[i], r.choice([6, 9, 14]), bad=r.random() < 0.4):
            f()
        qs.append(c.ops)
    c.ops = [('threads', qs), ('ledger', '')]
    return c


def permutations(cid, r):
    w = World(r, files=(1, 2), nodes=(3, 18), rts=(0, 6), uris=(0, 2), cyc=0.1, unresolved=0.05, chain=0.3)
    c = Case(cid); c.use(w); c.world = w
    for L in 'ABC'[:r.randint(2, 3)]:
        c.new(L, w.svc)
        for d in w.docs:
            d = d if L == 'A' else permuted(d, r)
            c.imp(L, c.doc(d), c.file(render(d, r)), 'ext')
        c.op('sort', L); c.op('dump', L)
    for L in 'ABC':
        if any(o[0] == 'new' and o[1] == L for o in c.ops):
            c.op('del', L)
    c.op('ledger')
    return c


# ------------------------------------------------------------------ the nodesets of the repository
ID = re.compile(r'^(?:ns=(\d+);)?([isgb]=.+)$', re.S)
REAL = [('nodesets/Opc.Ua.Di.NodeSet2.xml',), ('nodesets/Opc.Ua.Plc.NodeSet2.xml',), ('nodesets/open62541/testnodeset.xml',), ('nodesets/struct_union_optionset/structtest.xml',),
        ('nodesets/testNodeset100nodes.xml',), ('nodesets/Opc.Ua.Di.NodeSet2.xml', 'nodesets/Opc.Ua.Plc.NodeSet2.xml'), ('nodesets/euromap_instances/euromapinstances.xml',)]
REALBIG = [('nodesets/Opc.Ua.Di.NodeSet2.xml', 'nodesets/euromap/Opc.Ua.PlasticsRubber.GeneralTypes.NodeSet2.xml'),
           ('nodesets/Opc.Ua.Di.NodeSet2.xml', 'nodesets/euromap/Opc.Ua.PlasticsRubber.GeneralTypes.NodeSet2.xml', 'nodesets/euromap/Opc.Ua.PlasticsRubber.IMM2MES.NodeSet2.xml'),
           ('nodesets/open62541/Opc.Ua.Di.NodeSet2_invalid_ordering.xml',)]


def parse_xml(b):
    import xml.parsers.expat as x
    p = x.ParserCreate(); p.buffer_text = True
    root, st = [None], []

    def s(n, a):
        el = E(n.split(':')[-1], {k.split(':')[-1]: v for k, v in a.items() if not k.startswith('xmlns')})
        (st[-1]['c'] if st else []).append(el)
        if not st:
            root[0] = el
        st.append(el)

    def e(n):
        st.pop()

    def t(d):
        if st:
            st[-1]['c'].append(T(d))
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = s, e, t
    p.Parse(b, True)
    return root[0]


DROP = {'UANodeSet', 'NamespaceUris', 'Aliases', 'References', 'Definition', 'Extensions', 'Models'} | set(CLS)


def lex_tree(el, lex):
    """tables for everything in a document that has the form of an id, a browse name or a number"""
    m = ID.match(el['x'].strip()) if not el['e'] else None
    if m and len(el['x']) < 300:
        lex.id(el['x'], int(m.group(1) or 0), m.group(2))
    for k, v in el['a'].items():
        m = ID.match(v)
        if m:
            lex.id(v, int(m.group(1) or 0), m.group(2))
        if k == 'BrowseName':
            q = re.match(r'^(\d+):(.*)$', v, re.S)
            lex.bn(v, int(q.group(1)) if q else 0, q.group(2) if q else v)
        if k in ('Value', 'ValueRank') and re.match(r'^-?\d+$', v):
            lex.int(v, int(v))
    for k in el['c']:
        lex_tree(k, lex)


def squeeze(el):
    """layout between elements has no meaning"""
    if el['e'] in DROP:
        el['c'] = [k for k in el['c'] if k['e'] or k['x'].strip()]
    for k in el['c']:
        squeeze(k)
    return el


def real(sets):
    def f(cid, r):
        ns = sets[int(cid[-4:]) % len(sets)]
        c = Case(cid, ' '.join(ns))
        c.new('A', 'int')
        for n in ns:
            p = os.path.join(vlib.REPO, n)
            b = open(p, 'rb').read()
            d = squeeze(parse_xml(b)); lex_tree(d, c.lex)
            c.imp('A', c.doc(d), c.file(b), 'plain')
        c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
        return c
    return f


# ------------------------------------------------------------------ which families decide which property
# (name, builder, cases quick, cases thorough)
def plan(prop):
    gen_full = ('mixed', one(dict(files=(1, 3), dup=0.1, nulls=0.05, unk=0.03)), 120, 3000)
    realq = ('nodesets', real(REAL), len(REAL), len(REAL))
    realt = ('large nodesets', real(REALBIG), 0, len(REALBIG))
    P = {
        'C01': [gen_full, ('duplicates', one(dict(dup=0.8, nodes=(1, 14), files=(1, 2), rts=(0, 3))), 150, 3000), ('split', split, 60, 1000), ('kinds of ids', manyids, 60, 600),
                ('late reference types', rtforest((3, 12)), 100, 1500), ('medium', medium(100, 260, dup=0.3), 6, 60),
                ('large', big({'UAObject': 10020, 'UAMethod': 1010, 'UADataType': 105, 'UAView': 12}), 1, 2),
                ('large', big({'UAVariable': 10020, 'UAObjectType': 110, 'UAVariableType': 105, 'UAReferenceType': 104}), 1, 2), realq, realt],
        'C02': [('mixed', one(dict(files=(1, 2), order='any')), 120, 3000), ('graphs', dag(), 260, 6000), ('graphs of one kind', dag((4, 16), 0.35, via=0.9), 150, 3000),
                ('split', split, 60, 1000), ('kinds of ids', manyids, 40, 600), ('large graphs', dag((80, 140), 0.02), 8, 100), ('large', big({'UAObject': 900, 'UAVariable': 900}), 1, 4), ('late reference types', rtforest((3, 12)), 80, 1000), realq, realt],
        'C03': [('cycles', one(dict(cyc=0.7, files=(1, 2), order='any', nodes=(2, 14))), 200, 4000), ('cyclic graphs', dag((3, 14), 0.12, cyc=0.5), 300, 6000),
                ('acyclic graphs', dag((4, 30), 0.3), 120, 3000), ('cycles over files', lambda i, r: split(i, r, 0.6), 100, 2000), ('large graphs', dag((60, 120), 0.02, cyc=0.4), 8, 100), realq],
        'C04': [('hosts', hosts, 300, 6000), ('many namespaces', manyuris, 6, 60), ('mixed', one(dict(uris=(0, 5), files=(1, 3), raw=0.4, enc=0.5)), 120, 3000), realq],
        'C05': [('aliases', one(dict(aliases=(3, 30), aliasuse=0.9, files=(1, 3), nulls=0.3, uris=(1, 3))), 300, 6000),
                ('many aliases', one(dict(aliases=(295, 420), aliasuse=0.95, nodes=(40, 60), uris=(1, 2))), 6, 60), gen_full, realq],
        'C06': [('reference types', rtforest(), 220, 4000), ('long chains', rtforest((20, 130), 0.97), 12, 200), ('mixed', one(dict(rts=(1, 9), files=(1, 3), unresolved=0.15, chain=0.4)), 160, 3000),
                ('wide', rtforest((102, 150), 0.1), 3, 30), realq],
        'C07': [gen_full, ('references', one(dict(nodes=(2, 12), aliasuse=0.3, files=(1, 3), nulls=0.3)), 250, 5000), ('parents', one(dict(nodes=(3, 14), classes=['UAObject', 'UAVariable', 'UAMethod', 'UAView'], order='any')), 200, 4000),
                ('split', split, 100, 2000), ('graphs', dag((3, 16), 0.2), 100, 2000), realq],
        'C08': [('attributes', one(dict(attrs=0.9, strange=0.9, foreign=0.15, nodes=(2, 16), dup=0.05)), 250, 5000), ('few attributes', one(dict(attrs=0.15, strange=0.5, texts=0.4)), 150, 3000), gen_full, realq],
        'C09': [('other encodings', recoded(one(dict(long=0.1, texts=1.0, val=0.8, ext=0.4, nodes=(1, 8)), PLAIN, 'ext')), 80, 3000), ('other encodings, padded', recoded(padded), 20, 500),
                ('encodings', one(dict(long=0.1, texts=1.0, val=0.8, ext=0.4, nodes=(2, 8)), WILD, 'ext'), 180, 4000), ('blocks', chunks, 120, 3000), ('padding', padded, 30, 600),
                ('long', longtext(20000), 3, 30), ('long', longtext(400000), 1, 4), gen_full],
        'C10': [('unknown', one(dict(unk=0.3, nodes=(2, 9), ext=0.3, files=(1, 2))), 350, 7000), ('some unknown', one(dict(unk=0.06, nodes=(3, 14), ext=0.2, nulls=0.1)), 200, 4000), realq],
        'C11': [('values', one(dict(classes=['UAVariable', 'UAVariable', 'UAObject', 'UADataType'], val=0.9, nodes=(2, 12), rts=(0, 1), ext=0.1, unk=0.02)), 320, 6000),
                ('deep values', one(dict(classes=['UAVariable'], val=1.0, deepval=7, nodes=(1, 4), rts=(0, 0))), 100, 2000), gen_full, realq],
        'C12': [('definitions', one(dict(classes=['UADataType', 'UADataType', 'UAVariable', 'UAObjectType'], df=0.9, nodes=(2, 12), uris=(1, 3), files=(1, 2), nulls=0.1)), 320, 6000), gen_full, realq],
        'C13': [('encodings', one(dict(enc=0.95, classes=['UADataType', 'UADataType', 'UAObject'], files=(1, 4), uris=(1, 3), nodes=(2, 12))), 300, 6000), ('split', split, 120, 2000), gen_full, realq],
        'C14': [('extensions', one(dict(ext=0.8, nodes=(1, 8), long=0.05, unk=0.02), None, 'ext'), 260, 5000), ('without callbacks', one(dict(ext=0.8, nodes=(1, 8)), None, 'plain'), 100, 2000),
                ('two files', one(dict(ext=0.5, files=(2, 3), nodes=(2, 8))), 60, 1500)],
        'C15': [('truncated', truncated(60), 28, 400), ('malformed', malformed, 70, 1500)],
        'C17': [('split', split, 300, 6000), ('any order, one sort', one(dict(files=(2, 4), nodes=(3, 16), uris=(0, 4), enc=0.5)), 160, 3000), ('reference types', rtforest((3, 20)), 80, 1500)],
        'C18': [('duplicates', one(dict(dup=0.8, files=(1, 3), ext=0.5, val=0.9, df=0.9)), 60, 1000), ('histories', lifecycle, 220, 5000), ('contents', one(dict(unk=0.1, nulls=0.2, cyc=0.2, unresolved=0.1, ext=0.5, val=0.9, df=0.9, files=(1, 3))), 160, 4000), ('broken', truncated(30), 10, 100), ('malformed', malformed, 20, 400)],
        'C24': [('permutations', permutations, 250, 5000), ('reference types', rtforest((3, 25)), 80, 1500), ('graphs', dag((4, 20), 0.2, cyc=0.15), 120, 2500), ('orders', one(dict(order='reverse', files=(1, 2))), 80, 2000)],
        'C25': [('interleaved', interleaved, 220, 5000), ('nested', nested, 150, 3000), ('threads', threads, 60, 1500)],
    }
    import fam_back, limits
    return P.get(prop, []) + limits.plan(prop) + fam_back.plan(prop)
