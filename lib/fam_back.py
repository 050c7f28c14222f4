"""Families of cases for the server backend: histories of loads into servers."""
import re
import gen, gen_back, vlib
from gen import E, T, render, PLAIN, MIXED
from back import SCase
from cases import wellformed
from families import ref, ns0, uris

MODES = ['plain', 'plain', 'ext']
STYLES = [PLAIN, MIXED]


def world(c, r, **prof):
    w = gen_back.SWorld(r, **prof)
    c.use(w)
    return w


def doc(w, c, r, k):
    """(index of the document, index of the file) of document k of w"""
    return c.doc(w.docs[k]), c.file(render(w.docs[k], r, r.choice(STYLES)))


def start(c, r, w, S='A', extra=0.4):
    """a server that may know namespaces already"""
    us = []
    if r.random() < extra:
        us = ['urn:host:%s' % gen.word(r, 3) for _ in range(r.choice([1, 1, 2, 5]))]
        if r.random() < 0.5:
            us += r.sample(w.uris, r.randint(0, len(w.uris)))
        if r.random() < 0.03:
            us += ['urn:many:%d' % i for i in range(r.choice([60, 270]))]
        r.shuffle(us)
        us = list(dict.fromkeys(us))
    c.snew(S, us[:50])
    for u in us[50:]:
        c.nsadd(S, u)


def fresh(**prof):
    """files of one world, in order, into one server"""
    def f(cid, r):
        c = SCase(cid)
        w = world(c, r, **prof)
        start(c, r, w)
        for k in range(len(w.docs)):
            d, fl = doc(w, c, r, k)
            c.load('A', d, fl, r.choice(MODES))
        c.ops.append(('sdel', 'A')); c.ops.append(('ledger',)); c.use(w)
        return c
    return f


def broken_bytes(r, w, d):
    """not well-formed variants of a document"""
    s = render(d, r, r.choice(STYLES))
    for _ in range(20):
        k = r.random()
        if k < 0.6:
            b = s[:r.randrange(len(s))]
        else:
            p = r.choice([m.start() for m in re.finditer(b'<', s)][1:])
            b = s[:p] + r.choice([b'</wrong>', b'&nosuch;', b'\x00', b'<', b'<open>', b'<x y=1/>', b'\xff\xfe']) + s[p:]
        if not wellformed(b):
            return b
    return b''


def history(bad=0.3, servers=(1, 1), loads=(3, 8), again=0.35, shuffled=0.3, **prof):
    """loads in any order and again, failing loads in between, namespaces added in between, several servers"""
    def f(cid, r):
        c = SCase(cid)
        w = world(c, r, **dict(dict(files=(1, 4), nodes=(2, 9), dts=(0, 4)), **prof))
        Ss = 'ABC'[:r.randint(*servers)]
        for S in Ss:
            start(c, r, w, S)
        docs = [doc(w, c, r, k) for k in range(len(w.docs))]
        nxt = {S: 0 for S in Ss}
        alive = set(Ss)
        for _ in range(r.randint(*loads)):
            if not alive:
                break
            S = r.choice(sorted(alive))
            k = r.random()
            if k < bad:
                j = r.random()
                i = r.randrange(len(docs))
                if j < 0.6:
                    c.load(S, docs[i][0], c.file(broken_bytes(r, w, w.docs[i])), r.choice(MODES), 'fail')
                elif j < 0.8:
                    c.load(S, 0, c.file(r.choice([None, b'', b'  \n ', 'dir', b'<UANodeSet'])), 'plain', 'fail')
                elif j < 0.9:
                    c.load(S, 0, docs[i][1], 'nopath', 'fail')
                else:
                    c.load(S, 0, docs[i][1], 'noserver', 'fail')
            elif k < bad + 0.05:
                c.nsadd(S, r.choice(w.uris + ['urn:late:' + gen.word(r, 2)]))
            else:
                if nxt[S] and r.random() < again:
                    i = r.randrange(nxt[S])
                elif r.random() < shuffled:
                    i = r.randrange(len(docs))
                else:
                    i = min(nxt[S], len(docs) - 1); nxt[S] = i + 1
                c.load(S, docs[i][0], docs[i][1], r.choice(MODES))
            if len(alive) > 1 and r.random() < 0.1:
                alive.discard(S); c.ops.append(('sdel', S))
        for S in sorted(alive):
            c.ops.append(('sdel', S))
        c.ops.append(('ledger',))
        c.use(w)
        return c
    return f


CHAIN = ['UAObject', 'UAVariable', 'UAMethod', 'UAView']


def chain(n=(2, 40), dup=0.1):
    """every parent is of a class that is added later, or does not matter; some links cannot be added"""
    def f(cid, r):
        c = SCase(cid); ns0(c, 47, 35, 46, 85, 63, 58, 33)
        k = r.randint(*n)
        kids = []
        cyc = r.choice([['UAObject', 'UAVariable'], ['UAObject', 'UAMethod'], ['UAMethod', 'UAVariable'], ['UAVariable', 'UAView'], CHAIN, CHAIN[::-1], ['UAObject', 'UAView', 'UAVariable']])
        cut = r.randrange(k) if r.random() < 0.3 else -1
        names = ['ns=1;i=%d' % (i + 1) for i in range(k)]
        for t in names:
            c.lex.id(t, 1, t[5:])
        c.lex.id('ns=1;s=no', 1, 's=no')
        par = 'i=85'
        for i in range(k):
            cls = cyc[i % len(cyc)] if r.random() < 0.9 else r.choice(CHAIN)
            p = 'ns=1;s=no' if i == cut else par
            rs = [ref(c, r.choice(['i=47', 'i=35', 'i=46']), p)]
            kids.append(E(cls, dict({'NodeId': names[i], 'BrowseName': 'n%d' % i}, **({'ParentNodeId': p} if r.random() < 0.5 else {})), [E('References', c=rs)]))
            c.lex.bn('n%d' % i, 0, 'n%d' % i)
            par = names[i] if r.random() < 0.95 else r.choice(names[:i + 1])
        k = r.random()
        if k < 0.3:
            kids.reverse()
        elif k < 0.7:
            r.shuffle(kids)
        defaults(c)
        d = E('UANodeSet', c=[uris(1)] + kids)
        c.snew('A', [])
        c.load('A', c.doc(d), c.file(render(d, r, PLAIN)))
        if r.random() < 0.3:
            c.load('A', 1, 0)
        c.ops.append(('sdel', 'A')); c.ops.append(('ledger',))
        return c
    return f


def defaults(c):
    """the texts of the attributes' defaults"""
    w = gen_back.SWorld.__new__(gen_back.SWorld)
    w.lex = gen.Lex(); w.r = None
    w.lexed('', None, None)
    for k, v in w.lex.tab.items():
        c.tab.setdefault(k, {}).update(v)


def manyrts(n=(90, 130), deep=0.3):
    """a hierarchy with very many reference types, in the server from a first file, used in a second"""
    def f(cid, r):
        c = SCase(cid); ns0(c, 47, 35, 45, 33, 32, 37, 31, 85, 34, 44, 46)
        defaults(c)
        k = r.randint(*n)
        one, two, ids = [], [], []
        hier = []
        for i in range(k):
            t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('r%d' % i, 0, 'r%d' % i)
            sup = r.choice(ids) if ids and r.random() < deep else r.choice(['i=35', 'i=47', 'i=33', 'i=46', 'i=37', 'i=32'])
            hier.append(hier[ids.index(sup)] if sup in ids else sup not in ('i=37', 'i=32'))
            ids.append(t)
            one.append(E('UAReferenceType', {'NodeId': t, 'BrowseName': 'r%d' % i}, [E('References', c=[ref(c, 'i=45', sup)])]))
        m = r.randint(5, 25)
        for i in range(m):
            t = c.lex.id('ns=1;i=%d' % (70000 + i), 1, 'i=%d' % (70000 + i)); c.lex.bn('n%d' % i, 0, 'n%d' % i)
            j = r.randrange(k) if r.random() < 0.7 else k - 1 - r.randrange(min(k, 8))
            par = 'i=85' if i == 0 or r.random() < 0.3 else 'ns=1;i=%d' % (70000 + r.randrange(i))
            rs = [ref(c, ids[j], par)]
            if not hier[j]:
                rs.append(ref(c, 'i=47', 'i=85'))
            two.append(E(r.choice(['UAObject', 'UAObject', 'UAVariable']), {'NodeId': t, 'BrowseName': 'n%d' % i}, [E('References', c=rs)]))
        r.shuffle(one); r.shuffle(two)
        docs = [E('UANodeSet', c=[uris(1)] + one + two)] if r.random() < 0.3 else [E('UANodeSet', c=[uris(1)] + one), E('UANodeSet', c=[uris(1)] + two)]
        c.snew('A', [])
        for d in docs:
            c.load('A', c.doc(d), c.file(render(d, r, PLAIN)))
        c.ops.append(('sdel', 'A')); c.ops.append(('ledger',))
        return c
    return f


def manydts(n=(1005, 1100), files=1):
    """more data types than a server starts with; values of types from the first file afterwards"""
    def f(cid, r):
        c = SCase(cid); ns0(c, 47, 45, 22, 29, 85, 6, 11, 1, 3, 12, 63)
        defaults(c)
        c.snew('A', [])
        k = r.randint(*n)
        per = (k + files - 1) // files
        done, bare = [], []
        for q in range(files):
            kids = []
            for i in range(q * per, min(k, (q + 1) * per)):
                t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('T%d' % i, 0, 'T%d' % i)
                x = r.random()
                if x < 0.2:
                    kids.append(E('UADataType', {'NodeId': t, 'BrowseName': 'T%d' % i}, [E('References', c=[ref(c, 'i=45', 'i=29')])]))
                    done.append(t); continue
                fs = [E('Field', {'Name': 'f%d' % j, 'DataType': r.choice(['i=6', 'i=11', 'i=1', 'i=3', 'i=12'] + done[-3:])}) for j in range(r.randint(1, 3))]
                kids.append(E('UADataType', {'NodeId': t, 'BrowseName': 'T%d' % i}, [E('References', c=[ref(c, 'i=45', 'i=22')]), E('Definition', {'Name': 'T%d' % i}, fs)]))
                if len(bare) < 20:
                    done.append(t)
            for j in range(3):
                i = 80000 + q * 10 + j
                t = c.lex.id('ns=1;i=%d' % i, 1, 'i=%d' % i); c.lex.bn('v%d' % i, 0, 'v%d' % i)
                dt = r.choice(done)
                eo = E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=297')])]), E('Body', c=[E('B', c=[E('f0')])])])
                kids.append(E('UAVariable', {'NodeId': t, 'BrowseName': 'v%d' % i, 'DataType': dt}, [E('References', c=[ref(c, 'i=47', 'i=85')]), E('Value', c=[eo])]))
            r.shuffle(kids)
            d = E('UANodeSet', c=[uris(1)] + kids)
            c.load('A', c.doc(d), c.file(render(d, r, PLAIN)))
        c.ops.append(('sdel', 'A')); c.ops.append(('ledger',))
        return c
    return f


def plan(prop):
    mixed = ('mixed loads', fresh(files=(1, 2)))
    P = {
        'C18': [('loads', history(), 40, 800), ('values in servers', fresh(dts=(1, 5), nodes=(4, 12), noval=0.1, bad=0.2), 40, 800)],
        'C19': [mixed + (330, 5000), ('trees', fresh(nodes=(10, 40), missing=0.1, wrong=0.08, late=1, absrt=0.3, dts=(0, 1), noval=0.9), 150, 2500), ('duplicates', fresh(dup=0.8, nodes=(2, 10), late=0.6), 60, 1000),
                ('any host', fresh(raw=0.3, rawid=True, ns0uri=0.4), 60, 1000)],
        'C20': [('trees', fresh(nodes=(10, 40), missing=0.12, wrong=0.1, late=1, absrt=0.3, dts=(0, 1), noval=0.9), 200, 3000), ('late parents', chain(), 120, 2000), ('long', chain((80, 200)), 4, 40),
                ('failing loads', history(bad=0.5, cyc=0.3, unresolved=0.2), 150, 2500), ('cycles', fresh(cyc=0.5, unresolved=0.3, files=(1, 2)), 120, 2000)],
        'C21': [('data types', fresh(dts=(2, 14), nodes=(0, 3), rts=(0, 0), ots=(0, 0), vts=(0, 0)), 420, 7000), ('over files', fresh(dts=(3, 12), nodes=(0, 2), files=(2, 4), latefile=0.5, rts=(0, 0)), 120, 2000),
                ('flat', fresh(dts=(2, 8), nodes=(0, 1), rts=(0, 0), unkdt=0, cycdt=0, optional=0.4), 120, 2000), ('histories', history(dts=(2, 8), nodes=(0, 3)), 60, 1000), ('very many', manydts(), 1, 4), ('many over files', manydts((300, 420), 3), 1, 6)],
        'C22': [('values', fresh(dts=(1, 6), nodes=(8, 24), noval=0.05, rts=(0, 0), ots=(0, 0), vts=(0, 0), classes=['UAVariable', 'UAVariable', 'UAVariable', 'UAObject'], missing=0.01, wrong=0.01), 330, 6000),
                ('built-in values', fresh(dts=(0, 0), nodes=(15, 40), noval=0.03, rts=(0, 0), classes=['UAVariable'], missing=0, wrong=0), 90, 1500),
                ('clean structures', fresh(dts=(3, 8), nodes=(6, 16), noval=0.02, bad=0, allpresent=0.8, vdepth=5, rts=(0, 0), classes=['UAVariable'], missing=0, wrong=0, cycdt=0, unkdt=0), 120, 2000),
                ('types from earlier files', history(bad=0.1, dts=(2, 6), nodes=(4, 12), noval=0.05, classes=['UAVariable']), 60, 1000)],
        'C23': [('hosts', history(bad=0.05, uris=(1, 5), raw=0.15, rawid=True, ns0uri=0.1, rts=(1, 5)), 200, 3000), ('reference types', fresh(rts=(3, 12), nodes=(4, 12), files=(1, 3), dts=(0, 1), noval=0.7), 200, 3000),
                ('values', fresh(uris=(2, 6), dts=(0, 2), nodes=(5, 14), noval=0.1), 100, 1500), ('many reference types', manyrts(), 6, 60), ('very many reference types', manyrts((1010, 1100), 0.1), 1, 4)],
        'C26': [('histories', history(), 260, 4000), ('several servers', history(servers=(2, 3), loads=(4, 10)), 100, 1500), ('files', fresh(files=(2, 5), latefile=0.4, dts=(0, 6)), 150, 2500),
                ('types and values', history(bad=0.1, dts=(2, 6), nodes=(3, 8), noval=0.1, again=0.6), 80, 1200), ('declared again', fresh(files=(2, 3), redecl=1.0, dts=(0, 4)), 100, 1500), ('many data types', manydts((200, 260), 4), 1, 6)],
    }
    return P.get(prop, [])
