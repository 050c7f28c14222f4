"""Families in which one dimension of a document or history is large: the length
of ids, names and texts (that differ at their end only), numbers of members,
fields, references, nestings, files, loaders, loads."""
import base64, random
import gen
from gen import E, T, render, PLAIN, MIXED
from cases import Case


def size(r, top, low=2):
    """mostly near the top or around the powers of two below it"""
    k = [v + d for b in range(3, 20) for v in [1 << b] for d in (-1, 0, 1) if low <= v + d <= top]
    x = r.random()
    return r.randint(max(low, top * 7 // 8), top) if x < 0.4 else r.choice(k[-12:] + [top]) if x < 0.75 else r.choice([r.randint(low, top)] + k)


def nth(cid):
    return int(cid[-4:])


def stem(r, n):
    u = r.choice(['a', 'Ab0', 'x.y', 'é', 'name '])
    return (u * (n // len(u) + 1))[:n]


def R(t, g, fw=False):
    return E('Reference', dict({'ReferenceType': t}, **({} if fw else {'IsForward': 'false'})), [T(g)])


def n0(c, *nums):
    for n in nums:
        c.lex.id('i=%d' % n, 0, 'i=%d' % n)


def U(*us):
    return E('NamespaceUris', c=[E('Uri', c=[T(u)]) for u in us])


def fin(c, r, doc, mode='plain', svc='int'):
    c.new('A', svc); c.imp('A', c.doc(doc), c.file(render(doc, r, PLAIN)), mode)
    c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
    return c


def names(cid, r):
    """ids, browse names, alias names, namespace URIs that only differ at their end"""
    c = Case(cid, 'long names'); n0(c, 33, 35, 45, 46, 47, 85, 6, 12)
    m = r.randint(3, 9)
    b = stem(r, size(r, 6000))
    raw = b.encode()[:size(r, 3000)]
    key, bn = [], []
    for i in range(m):
        k = r.random()
        ident = 's=' + b + str(i) if k < 0.6 else 'b=' + base64.b64encode(raw + bytes([i])).decode() if k < 0.8 else 's=' + str(i) + b
        ns = r.choice([1, 1, 2])
        key.append(c.lex.id('ns=%d;%s' % (ns, ident), ns, ident))
        q = stem(r, size(r, 3000)) + str(i)
        bn.append(c.lex.bn('%d:%s' % (ns, q), ns, q))
    al = stem(r, size(r, 2000))
    A = [(al + str(i), r.choice(key + ['i=47', 'i=35', 'i=46', 'i=33'])) for i in range(r.randint(2, 8))]
    A += [(al + 'c', 'i=47'), (al + 'o', 'i=35'), (al + 't', 'i=12')]
    r.shuffle(A)
    w = lambda t: r.choice([a for a, g in A if g == t] or [t]) if r.random() < 0.7 else t
    kids = []
    for i in range(m):
        cls = r.choice(['UAObject', 'UAVariable', 'UAVariableType', 'UADataType', 'UAMethod'])
        a = {'NodeId': key[i], 'BrowseName': bn[i]}
        rs = []
        if i:
            if cls in gen.INST and r.random() < 0.3:
                a['ParentNodeId'] = key[r.randrange(i)]
            else:
                rs.append(R(w(r.choice(['i=47', 'i=35'])), w(key[r.randrange(i)])))
        else:
            rs.append(R(w('i=35'), 'i=85'))
        if r.random() < 0.4:
            rs.append(R(w('i=35'), 'i=85'))
        if cls in ('UAVariable', 'UAVariableType') and r.random() < 0.7:
            a['DataType'] = w(r.choice(key + ['i=12', 'i=6']))
        x = [E('References', c=rs)]
        if cls == 'UADataType':
            x.append(E('Definition', {'Name': bn[i]}, [E('Field', {'Name': al + str(j), 'DataType': w(r.choice(key + ['i=12']))}) for j in range(3)]))
        kids.append(E(cls, a, x))
    r.shuffle(kids)
    u = 'urn:' + stem(r, size(r, 3000))
    return fin(c, r, E('UANodeSet', c=[U(u + '1', u + '2'), E('Aliases', c=[E('Alias', {'Alias': a}, [T(g)]) for a, g in A])] + kids))


def attributes(cid, r):
    """long texts in attributes and elements, next to each other"""
    c = Case(cid, 'long attributes'); n0(c, 35, 85)
    n = lambda: stem(r, size(r, 5000)) + r.choice('xyz')
    kids = []
    for i, cls in enumerate(gen.CLS):
        t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1))
        c.lex.bn('b%d' % i, 0, 'b%d' % i)
        a = {'NodeId': t, 'BrowseName': 'b%d' % i}
        for k in ('EventNotifier', 'ValueRank', 'MinimumSamplingInterval', 'ArrayDimensions', 'AccessLevel', 'UserAccessLevel', 'Historizing', 'IsAbstract', 'Executable', 'UserExecutable', 'Symmetric', 'ContainsNoLoops', 'Unknown'):
            if r.random() < 0.4:
                a[k] = n()
        kids.append(E(cls, a, [E('DisplayName', {'Locale': n()}, [T(n())]), E('Description', {'Locale': n()}, [T(n())]), E('References', c=[R('i=35', 'i=85')])]
                      + ([E('InverseName', {'Locale': n()}, [T(n())])] if cls == 'UAReferenceType' else [])))
    return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))


def value(cid, r):
    """wide, deep and long values"""
    c = Case(cid, 'large values'); n0(c, 47, 85)
    kids = []
    for i in range(r.randint(1, 3)):
        t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('v%d' % i, 0, 'v%d' % i)
        k = r.randrange(7)
        P = lambda n, x: E(n, c=[T(x)] if r.random() < 0.9 else [])
        if k == 0:
            n = r.choice(['Int32', 'String']); v = E('ListOf' + n, c=[P(n, str(j)) for j in range(size(r, 2500))])
        elif k == 1:
            v = E('S', c=[P('m%d' % j if r.random() < 0.5 else 'm', str(j)) for j in range(size(r, 1200))])
        elif k == 2:
            v = P('x', 'leaf')
            for j in range(size(r, 90)):
                v = E(r.choice(['a', 'b', 'S%d' % j]), c=[v] if r.random() < 0.8 else [P('p', 'before'), v, P('p', 'behind')])
        elif k == 3:
            b = ''.join(ch for ch in stem(r, size(r, 1500)) if ch not in ' .') or 'n'
            b = 'n' + b
            v = E(b, c=[E(b + str(j), c=[P(b + 'x', '1'), P(b + 'y', '2')]) for j in range(3)])
        elif k == 4:
            v = E('ListOfExtensionObject', c=[E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=%d' % r.choice([1, j]))])]), E('Body', c=[E('B', c=[P('m', str(j))])])]) for j in range(size(r, 300))])
        elif k == 5:
            v = E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('ns=1;s=' + stem(r, size(r, 2000)))])]), E('Body', c=[E('B', c=[P('m%d' % j, str(j)) for j in range(size(r, 600))])])])
        else:
            v = E('ListOfS', c=[E('S', c=[P('a', str(j)), E('T', c=[P('b', str(j))])]) for j in range(size(r, 300))])
        kids.append(E('UAVariable', {'NodeId': t, 'BrowseName': 'v%d' % i}, [E('References', c=[R('i=47', 'i=85')]), E('Value', c=[v])]))
    return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))


def fields(cid, r):
    """definitions with many fields, long names"""
    c = Case(cid, 'large definitions'); n0(c, 45, 22, 29, 6, 12)
    kids = []
    for i in range(r.randint(1, 4)):
        t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('T%d' % i, 0, 'T%d' % i)
        enum = r.random() < 0.4
        b = stem(r, size(r, 400)) if r.random() < 0.3 else 'f'
        fs = []
        for j in range(size(r, 700)):
            a = {'Name': '%s%d' % (b, j)}
            if enum:
                v = r.choice([j, j, 1 << r.randrange(31), -1 - j]); a['Value'] = c.lex.int(str(v), v)
            else:
                a['DataType'] = r.choice(['i=6', 'i=12', 'ns=1;i=1'])
                if r.random() < 0.2:
                    v = r.choice([1, 2, 0, -1, -3, 100, 1000]); a['ValueRank'] = c.lex.int(str(v), v)
                if r.random() < 0.2:
                    a['IsOptional'] = 'true'
            fs.append(E('Field', a))
        kids.append(E('UADataType', {'NodeId': t, 'BrowseName': 'T%d' % i}, [E('References', c=[R('i=45', 'i=29' if enum else 'i=22')]), E('Definition', {'Name': 'T%d' % i}, fs)]))
    return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))


def unknown(cid, r):
    """deep, wide and long unknown elements made of known names, at every kind of place"""
    c = Case(cid, 'large unknown elements'); n0(c, 35, 85, 47, 45, 22, 6)
    def u():
        d = r.randint(1, 60)
        x = E(r.choice(gen.KNOWN), {'NodeId': 'ns=1;i=77', 'Alias': 'X', 'ReferenceType': 'i=47'} if r.random() < 0.5 else {}, [T('deep')])
        for _ in range(d):
            kids = [x]
            if r.random() < 0.1:
                kids = [T('t'), E(r.choice(gen.KNOWN), {}, [T('i=85')]), x, T('u')]
            x = E(r.choice(gen.KNOWN), {}, kids)
        if r.random() < 0.4:
            w = E(r.choice(gen.KNOWN), {}, [E(r.choice(gen.KNOWN), {}, [T(str(j))]) for j in range(size(r, 400))])
            x = E('Foo', {}, [w, x])
        y = E(r.choice(gen.UNKNOWN), {}, [x])
        y['deep'] = [r.choice(gen.KNOWN) for _ in range(size(r, 300) if r.random() < 0.7 else 1)]
        return y
    kids = []
    for i in range(3):
        t = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('b%d' % i, 0, 'b%d' % i)
        cls = ['UAVariable', 'UADataType', 'UAObject'][i]
        rf = R('i=35', 'i=85')
        kids.append(E(cls, {'NodeId': t, 'BrowseName': 'b%d' % i}, [E('DisplayName', c=[T('name%d' % i)]), E('References', c=[rf]),
            E('Value', c=[E('Int32', c=[T('5')])]) if i == 0 else E('Definition', {'Name': 'x'}, [E('Field', {'Name': 'f', 'DataType': 'i=6'})]) if i == 1 else E('Extensions', c=[])]))
    doc = E('UANodeSet', c=[U('urn:1'), E('Aliases', c=[E('Alias', {'Alias': 'HasComponent'}, [T('i=47')])])] + kids)
    places = []

    def walk(el):
        if el['e'] in ('UANodeSet', 'Aliases', 'NamespaceUris', 'References', 'Definition', 'Field', 'Extensions', 'Reference', 'DisplayName') + tuple(gen.CLS):
            places.append(el)
        if el['e'] != 'Value':
            for k in el['c']:
                walk(k)
    walk(doc)
    for el in r.sample(places, r.randint(1, 3)):
        el['c'].insert(r.randint(0, len(el['c'])), u())
    return fin(c, r, doc)


def extension(cid, r):
    """deep and wide extensions, many attributes, long texts"""
    c = Case(cid, 'large extensions'); n0(c, 35, 85)
    t = c.lex.id('ns=1;i=1', 1, 'i=1'); c.lex.bn('b', 0, 'b')
    ex = []
    for _ in range(r.choice([1, 1, 2, size(r, 40)])):
        k = r.randrange(4)
        if k == 0:
            x = E('leaf', c=[T('x')])
            for j in range(size(r, 100)):
                x = E('e%d' % (j % 7), {}, [x] if r.random() < 0.8 else [T('before'), x, E('q')])
            x = [x]
            if r.random() < 0.5:
                x[0]['deep'] = ['d%d' % (j % 5) for j in range(size(r, 500))]
        elif k == 1:
            x = [E('e', {'i': str(j)}, [T(str(j))] if r.random() < 0.8 else []) for j in range(size(r, 600))]
        elif k == 2:
            b = 'n' + ''.join(ch for ch in stem(r, size(r, 800)) if ch not in ' .')
            x = [E(b + '1', {'%s%d' % (b[:200], j): stem(r, size(r, 200)) for j in range(size(r, 60))}, [T(stem(r, size(r, 3000)))]), E(b + '2')]
        else:
            x = [E('a', {'a%d' % j: str(j) for j in range(size(r, 270))})]
        ex.append(E('Extension', c=x))
    d = E('UANodeSet', c=[U('urn:1'), E('UAObject', {'NodeId': t, 'BrowseName': 'b'}, [E('References', c=[R('i=35', 'i=85')]), E('Extensions', c=ex), E('DisplayName', c=[T('behind')])])])
    return fin(c, r, d, 'ext')


def ring(top, closed=0.6):
    def f(cid, r):
        """one long cycle, or the same without its last edge"""
        c = Case(cid, 'ring'); n0(c, 35, 47, 46, 85)
        n = size(r, top); pos = list(range(n)); r.shuffle(pos)
        num = lambda i: 'ns=1;i=%d' % (pos[i] + 1)
        for i in range(n):
            c.lex.id(num(i), 1, num(i)[5:]); c.lex.bn('n%d' % i, 0, 'n%d' % i)
        refs, par = [[] for _ in range(n)], {}
        inst = r.random() < 0.5
        for i in range(n if r.random() < closed else n - 1):
            j = (i + 1) % n      # i is the parent of j
            k = r.random()
            if k < 0.3:
                refs[i].append(R('i=47', num(j), True))
            elif k < 0.6 and inst and not refs[j]:
                par[j] = num(i)
            else:
                refs[j].append(R('i=35', num(i)))
        for i in par:
            refs[i] = [x for x in refs[i] if x['a'].get('IsForward') != 'false']
        kids = [E('UAObject' if inst else r.choice(['UAObject', 'UADataType', 'UAVariable']), dict({'NodeId': num(i), 'BrowseName': 'n%d' % i}, **({'ParentNodeId': par[i]} if i in par else {})), [E('References', c=refs[i])]) for i in range(n)]
        k = r.random()
        if k < 0.5: r.shuffle(kids)
        elif k < 0.75: kids.reverse()
        return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))
    return f


def references(cid, r):
    """nodes with very many references, many of them alike"""
    c = Case(cid, 'many references'); n0(c, 33, 35, 47, 46, 41, 37, 40, 61, 85)
    m = size(r, 260); kids = []
    for i in range(m):
        c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('n%d' % i, 0, 'n%d' % i)
    hub = r.randrange(m)
    n = size(r, 700)
    own = []
    for _ in range(n):
        j = r.randrange(m)
        if j == hub: continue
        k = r.random()
        own.append(R('i=41', 'ns=1;i=%d' % (j + 1), r.random() < 0.6) if k < 0.3 else R(r.choice(['i=35', 'i=47']), 'ns=1;i=%d' % (j + 1), j > hub))
    for i in range(m):
        rs = own if i == hub else ([R(r.choice(['i=47', 'i=46']), 'ns=1;i=%d' % (hub + 1))] if i > hub and r.random() < 0.7 else [])
        a = {'NodeId': 'ns=1;i=%d' % (i + 1), 'BrowseName': 'n%d' % i}
        if i > hub and not rs and r.random() < 0.8: a['ParentNodeId'] = 'ns=1;i=%d' % (hub + 1)
        kids.append(E('UAObject', a, [E('References', c=list(rs) + [R('i=40', 'i=61', True)])]))
    r.shuffle(kids)
    return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))


def encodings(cid, r):
    c = Case(cid, 'many encodings'); n0(c, 38, 45, 22)
    kids = []
    n = size(r, 300)
    for i in range(n):
        d = c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('T%d' % i, 0, 'T%d' % i)
        e = c.lex.id('ns=1;i=%d' % (i + 5001), 1, 'i=%d' % (i + 5001))
        b = r.choice(['Default Binary'] * 4 + ['Default XML', 'Default JSON']); c.lex.bn(b, 0, b)
        fw = r.random() < 0.3
        kids.append(E('UADataType', {'NodeId': d, 'BrowseName': 'T%d' % i}, [E('References', c=[R('i=45', 'i=22')] + ([R('i=38', e, True)] if fw else []))]))
        kids.append(E('UAObject', {'NodeId': e, 'BrowseName': b}, [E('References', c=[R('i=38', d)])]))
    r.shuffle(kids)
    return fin(c, r, E('UANodeSet', c=[U('urn:1')] + kids))


def files(top):
    def f(cid, r):
        """many files in one loader, each with its own table and aliases, a chain of parents through them"""
        c = Case(cid, 'many files'); n0(c, 35, 47, 85, 33, 45, 41)
        n = size(r, top)
        c.new('A', r.choice(['int', 'cust']))
        if r.random() < 0.5:
            c.pre.append('nsbase\t%d' % r.randint(1, 300))
        how = r.choice(['each', 'some', 'once'])
        for k in range(n):
            us = ['urn:all', 'urn:f%d' % k] + (['urn:f%d' % (k - 1)] if k else [])
            r.shuffle(us)
            ix = lambda u: us.index(u) + 1
            def I(u, ident):
                return c.lex.id('ns=%d;%s' % (ix(u), ident), ix(u), ident)
            al = {'X': I('urn:all', 'i=%d' % k), 'Rt': 'i=47' if r.random() < 0.5 else 'i=35'}
            me = I('urn:f%d' % k, 'i=1'); up = I('urn:f%d' % (k - 1), 'i=1') if k else 'i=85'
            c.lex.bn('%d:n' % ix('urn:f%d' % k), ix('urn:f%d' % k), 'n')
            kids = [E('UAObject', {'NodeId': me, 'BrowseName': '%d:n' % ix('urn:f%d' % k)}, [E('References', c=[R('Rt', up)])]),
                    E('UAVariable', {'NodeId': al['X'], 'BrowseName': '%d:n' % ix('urn:f%d' % k), 'DataType': 'X'}, [E('References', c=[R('Rt', me)])])]
            if r.random() < 0.3:
                t = I('urn:f%d' % k, 'i=2')
                kids.append(E('UAReferenceType', {'NodeId': t, 'BrowseName': '%d:n' % ix('urn:f%d' % k)}, [E('References', c=[R('i=45', r.choice(['i=33', 'i=41']))])]))
                kids[0]['c'][0]['c'].append(R(t, 'i=85'))
            r.shuffle(kids)
            d = E('UANodeSet', c=[U(*us), E('Aliases', c=[E('Alias', {'Alias': a}, [T(g)]) for a, g in al.items()])] + kids)
            c.imp('A', c.doc(d), c.file(render(d, r, PLAIN)))
            if how == 'each' or how == 'some' and r.random() < 0.3:
                c.op('sort')
                if r.random() < 0.2: c.op('dump')
        c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
        return c
    return f


def again(cid, r):
    """the same file very often, sorted very often"""
    c = Case(cid, 'many repetitions'); n0(c, 35, 85, 47, 41)
    ks = []
    for i in range(4):
        c.lex.id('ns=1;i=%d' % (i + 1), 1, 'i=%d' % (i + 1)); c.lex.bn('n%d' % i, 0, 'n%d' % i)
        ks.append(E('UAObject', dict({'NodeId': 'ns=1;i=%d' % (i + 1), 'BrowseName': 'n%d' % i}, **({'ParentNodeId': 'ns=1;i=%d' % i} if i == 2 else {})), [E('References', c=[R('i=35', 'i=85')] if i == 0 else [R('i=47', 'ns=1;i=%d' % i)] if i != 2 else [])]))
    d = E('UANodeSet', c=[U('urn:1')] + ks); c.doc(d); fl = c.file(render(d, r, PLAIN))
    c.new('A')
    for _ in range(size(r, 40)):
        c.imp('A', 1, fl)
        if r.random() < 0.5: c.op('sort')
    for _ in range(size(r, 40)):
        c.op('sort')
        if r.random() < 0.1: c.op('dump')
    c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
    return c


def loaders(cid, r):
    """very many loaders one after the other, up to 15 at a time"""
    import families
    c = Case(cid, 'many loaders')
    live = []
    L = 'ABCDEFGHIJKLMNO'
    qs = {}
    for _ in range(size(r, 40)):
        free = [x for x in L if x not in qs]
        if free:
            x = r.choice(free); qs[x] = families.history(c, r, x, r.choice([2, 3, 5]), bad=False)
        for x in r.sample(sorted(qs), min(len(qs), r.choice([1, 2, 4]))):
            if r.random() < 0.5 and len(qs) > 9:
                while qs[x]: qs[x].pop(0)()
            elif qs[x]:
                qs[x].pop(0)()
            if not qs[x]: del qs[x]
    for x in sorted(qs):
        while qs[x]: qs[x].pop(0)()
    c.op('ledger')
    return c


# ------------------------------------------------------------------ servers
PRIMS = {1: 'Boolean', 2: 'SByte', 3: 'Byte', 4: 'Int16', 5: 'UInt16', 6: 'Int32', 7: 'UInt32', 8: 'Int64', 9: 'UInt64', 10: 'Float', 11: 'Double', 12: 'String', 13: 'DateTime', 15: 'ByteString'}


class Srv:
    """a case with one document that is loaded into a server"""

    def __init__(self, cid, r, note):
        import gen_back
        from back import SCase
        self.c, self.r = SCase(cid, note), r
        self.w = gen_back.SWorld(r, nodes=(1, 1), dts=(0, 0), rts=(0, 0), ots=(0, 0), vts=(0, 0))
        n0(self.c, 22, 29, 33, 35, 45, 46, 47, 41, 40, 61, 63, 58, 85, 24, 296, *PRIMS)
        self.c.lex.int('1', 1); self.c.lex.int('0', 0)
        self.kids, self.later = [], []

    def node(self, cls, num, name, attrs, refs, rest=()):
        t = self.c.lex.id('ns=1;i=%d' % num, 1, 'i=%d' % num); self.c.lex.bn(name, 0, name)
        self.kids.append(E(cls, dict({'NodeId': t, 'BrowseName': name}, **attrs), [E('References', c=refs)] + list(rest)))
        return t

    def struct(self, num, name, fields, sup='i=22'):
        """fields: (name, type, array)"""
        fs = [E('Field', dict({'Name': n, 'DataType': t}, **({'ValueRank': '1'} if a else {}))) for n, t, a in fields]
        return self.node('UADataType', num, name, {}, [R('i=45', sup)], [E('Definition', {'Name': name}, fs)])

    def prim(self, num, name):
        k = PRIMS[num]
        t = self.w.lit(k)
        return E(name, c=[T(t)])

    def var(self, num, dt, v, rank=None):
        return self.node('UAVariable', num, 'v%d' % num, dict({'DataType': dt}, **({'ValueRank': rank} if rank else {})), [R('i=47', 'i=85')], [E('Value', c=[v])])

    def eo(self, body):
        return E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=297')])]), E('Body', c=[body])])

    def done(self, shuffle=True):
        if shuffle: self.r.shuffle(self.kids)
        d = E('UANodeSet', c=[U('urn:1')] + self.kids)
        self.c.use(self.w)
        self.c.snew('A', [])
        self.c.load('A', self.c.doc(d), self.c.file(render(d, self.r, PLAIN)), self.r.choice(['plain', 'ext']))
        if self.later:
            d = E('UANodeSet', c=[U('urn:1')] + self.later)
            self.c.load('A', self.c.doc(d), self.c.file(render(d, self.r, PLAIN)))
        if self.r.random() < 0.2:
            self.c.load('A', 1, 0)
        self.c.ops.append(('sdel', 'A')); self.c.ops.append(('ledger',))
        self.c.use(self.w)
        return self.c


def b_types(cid, r):
    """structures with many members, nested or inherited very deeply, with long names; with values"""
    s = Srv(cid, r, 'large data types')
    k = nth(cid) % 4
    some = lambda xs: xs if r.random() < 0.6 else [x for x in xs if r.random() < 0.7]
    if k == 0:
        fs = [('m%d' % j, r.choice([1, 3, 4, 6, 8, 11, 12]), r.random() < 0.1) for j in range(size(r, 250))]
        t = s.struct(1, 'T', [(n, 'i=%d' % q, a) for n, q, a in fs])
        for i in range(2):
            s.var(100 + i, t, s.eo(E('B', c=some([E(n, c=[s.prim(q, PRIMS[q]) for _ in range(r.randint(0, 3))]) if a else s.prim(q, n) for n, q, a in fs]))))
    elif k == 1:
        d = size(r, 40)
        t = s.struct(1, 'T0', [('a', 'i=6', False), ('b', 'i=3', False)])
        v = [s.prim(6, 'a'), s.prim(3, 'b')]
        for j in range(1, d):
            q = r.choice([1, 3, 11]); last = r.random() < 0.5
            fs = [('x', t, False), ('y', 'i=%d' % q, False)]
            t = s.struct(j + 1, 'T%d' % j, fs if last else fs[::-1])
            v = [E('x', c=v), s.prim(q, 'y')] if last else [s.prim(q, 'y'), E('x', c=v)]
        s.var(1000, t, s.eo(E('B', c=v)))
    elif k == 2:
        d = size(r, 60); t = 'i=22'; v = []
        for j in range(d):
            q = r.choice([1, 3, 6, 11, 12])
            fs = [('m%d' % j, 'i=%d' % q, False)]
            v.append(s.prim(q, 'm%d' % j))
            t = s.struct(j + 1, 'T%d' % j, fs, t)
        s.var(1000, t, s.eo(E('B', c=some(v))))
    else:
        b = 'n' + ''.join(ch for ch in stem(r, size(r, 800)) if ch not in ' .')
        m = r.randint(2, 6)
        ts = [s.struct(i + 1, b + str(i), [(b + str(j), 'i=%d' % r.choice([6]), False) for j in range(m)]) for i in range(3)]
        for i in range(3):
            s.var(100 + i, ts[i], s.eo(E('B', c=some([s.prim(6, b + str(j)) for j in range(m)]))))
    return s.done()


def b_values(cid, r):
    """long arrays of every kind, long texts"""
    s = Srv(cid, r, 'large values')
    for i in range(r.randint(1, 3)):
        k = (nth(cid) + i) % 6
        if k < 2:
            q = r.choice(list(PRIMS)); n = size(r, 1500)
            s.var(100 + i, 'i=%d' % q, E('ListOf' + PRIMS[q], c=[s.prim(q, PRIMS[q]) for _ in range(n)]), '1')
        elif k == 2:
            x = stem(r, size(r, 70000)); s.var(100 + i, 'i=12', E('String', c=[T(x)]))
        elif k == 3:
            b = bytes(r.getrandbits(8) for _ in range(size(r, 20000)))
            s.var(100 + i, 'i=15', E('ByteString', c=[T(s.w.lexed('ByteString', base64.b64encode(b).decode(), b.hex()))]))
        elif k == 4:
            t = s.struct(10 + i, 'S%d' % i, [('a', 'i=6', False), ('b', 'i=12', False), ('c', 'i=3', True)])
            s.var(100 + i, t, E('ListOfExtensionObject', c=[s.eo(E('B', c=[s.prim(6, 'a')] + ([s.prim(12, 'b')] if r.random() < 0.8 else []) + [E('c', c=[s.prim(3, 'Byte') for _ in range(r.randint(0, 4))])])) for _ in range(size(r, 260))]), '1')
        else:
            q = r.choice([1, 3, 6, 8, 11, 12, 13])
            t = s.struct(10 + i, 'S%d' % i, [('h', 'i=3', False), ('a', 'i=%d' % q, True), ('z', 'i=6', False)])
            s.var(100 + i, t, s.eo(E('B', c=[s.prim(3, 'h'), E('a', c=[s.prim(q, PRIMS[q]) for _ in range(size(r, 900))]), s.prim(6, 'z')])))
    return s.done()


def b_nodes(cid, r):
    """many children of one node, many references, long names"""
    s = Srv(cid, r, 'many children')
    n = size(r, 260)
    hub = r.randint(1, n)
    long_ = r.random() < 0.4
    for i in range(1, n + 1):
        cls = r.choice(['UAObject', 'UAObject', 'UAVariable', 'UAMethod']) if i != hub else 'UAObject'
        rs = [R(r.choice(['i=47', 'i=35']), 'i=85' if i == hub or r.random() < 0.2 else 'ns=1;i=%d' % hub)]
        if i == hub:
            rs += [R(t, 'ns=1;i=%d' % j, True) for j in range(1, n + 1) if j != hub for t in ['i=41', 'i=35', 'i=47'] if r.random() < 0.4]
        a = {}
        x = [E('DisplayName', {'Locale': 'en'}, [T(stem(r, size(r, 3000)) + str(i))]), E('Description', c=[T(stem(r, size(r, 5000)) + str(i))])] if long_ and r.random() < 0.2 else []
        s.node(cls, i, 'n%d' % i if not long_ else stem(r, size(r, 300)) + str(i), a, rs, x)
    return s.done()


def b_loads(cid, r):
    """very many loads into up to six servers"""
    from back import SCase
    import fam_back
    c = SCase(cid, 'many loads'); n0(c, 297, 35, 47, 85, 22, 45, 6, 33)
    fam_back.defaults(c)
    n = size(r, 16)
    docs = []
    for k in range(n):
        us = ['urn:all', 'urn:f%d' % k] + (['urn:f%d' % (k - 1)] if k else []); r.shuffle(us)
        ix = lambda u: us.index(u) + 1
        I = lambda u, ident: c.lex.id('ns=%d;%s' % (ix(u), ident), ix(u), ident)
        b = '%d:n' % ix('urn:f%d' % k); c.lex.bn(b, ix('urn:f%d' % k), 'n')
        kids = [E('UAObject', {'NodeId': I('urn:f%d' % k, 'i=1'), 'BrowseName': b}, [E('References', c=[R('i=47', I('urn:f%d' % (k - 1), 'i=1') if k else 'i=85')])]),
                E('UADataType', {'NodeId': I('urn:all', 'i=%d' % (k + 10)), 'BrowseName': b}, [E('References', c=[R('i=45', I('urn:all', 'i=%d' % (k + 9)) if k and r.random() < 0.5 else 'i=22')]), E('Definition', {'Name': 'T%d' % k}, [E('Field', {'Name': 'm%d' % k, 'DataType': 'i=6'})])])]
        if k and r.random() < 0.6:
            j = r.randint(0, k)
            t = str(r.randint(-9, 9)); tab = c.tab.setdefault('Int32', {}); tab[t] = t
            kids.append(E('UAVariable', {'NodeId': I('urn:all', 'i=%d' % (100 + k)), 'BrowseName': b, 'DataType': I('urn:all', 'i=%d' % (j + 10))}, [E('References', c=[R('i=47', 'i=85')]),
                        E('Value', c=[E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=297')])]), E('Body', c=[E('B', c=[E('m%d' % j, c=[T(t)])])])])])]))
        r.shuffle(kids)
        d = E('UANodeSet', c=[U(*us)] + kids)
        docs.append((c.doc(d), c.file(render(d, r, PLAIN))))
    S = 'ABCDEF'[:r.choice([1, 1, 2, 6])]
    for x in S:
        c.snew(x, ['urn:h%d' % j for j in range(r.choice([0, 0, 3]))])
    for d, f in docs:
        for x in S:
            if r.random() < 0.85 or len(S) == 1:
                c.load(x, d, f, r.choice(['plain', 'ext']))
    for _ in range(size(r, 12)):
        d, f = r.choice(docs); c.load(r.choice(S), d, f)
    for x in S:
        c.ops.append(('sdel', x))
    c.ops.append(('ledger',))
    return c


def b_chains(cid, r):
    """nodes that can only be added after many attempts, deep hierarchies, subtype chains of every class"""
    s = Srv(cid, r, 'long parent chains')
    k = nth(cid) % 3
    if k == 0:
        p = 'i=85'
        for i in range(1, size(r, 60)):
            cls = r.choice(['UAObject', 'UAVariable', 'UAVariable', 'UAMethod', 'UAView'] if r.random() < 0.5 else [['UAVariable', 'UAObject'][i % 2]])
            t = s.node(cls, i, 'n%d' % i, {}, [R(r.choice(['i=47', 'i=35']), p)])
            if r.random() < 0.1:
                s.node('UAObject', 1000 + i, 'x%d' % i, {}, [R('i=47', p)])
            p = t
        if r.random() < 0.5:
            s.node('UAObject', 3000, 'z', {}, [R('i=47', 'ns=1;i=2999')])
            s.c.lex.id('ns=1;i=2999', 1, 'i=2999')
    elif k == 1:
        for h, root in enumerate(['i=6', 'i=12', 'i=29', 'i=22', 'i=24', 'i=15'][:r.randint(1, 6)]):
            p, d = root, size(r, 60)
            for j in range(d):
                p = s.node('UADataType', 100 * h + j + 1, 'D%d' % j, {}, [R('i=45', p)])
            q = {'i=6': 'Int32', 'i=12': 'String', 'i=29': 'Int32'}.get(root)
            if q:
                s.var(5000 + h, p, s.prim(6, 'Int32') if q == 'Int32' else s.prim(12, 'String'))
    else:
        n0(s.c, 32)
        for h, (cls, root) in enumerate([('UAObjectType', 'i=58'), ('UAVariableType', 'i=63'), ('UAReferenceType', r.choice(['i=33', 'i=32', 'i=47']))]):
            p = root
            for j in range(size(r, 60)):
                p = s.node(cls, 100 * h + j + 1, 'D%d' % j, {}, [R('i=45', p)])
            if cls == 'UAReferenceType':
                s.node('UAObject', 5001, 'o', {}, [R('i=47', 'i=85')])
                s.node('UAObject', 5002, 'p', {}, [R('i=47', 'i=85')] + [R(p, 'ns=1;i=5001')])
            elif cls == 'UAObjectType':
                s.node('UAObject', 5003, 'q', {}, [R('i=47', 'i=85'), R('i=40', p, True)])
            else:
                s.node('UAVariable', 5004, 'r', {}, [R('i=47', 'i=85'), R('i=40', p, True)])
            if cls == 'UAReferenceType' and r.random() < 0.8:
                # used by a later file
                s.later.append(E('UAObject', {'NodeId': 'ns=1;i=5001', 'BrowseName': 'o'}, [E('References', c=[R('i=47', 'i=85')])]))
                s.later.append(E('UAObject', {'NodeId': 'ns=1;i=5006', 'BrowseName': 'o'}, [E('References', c=[R('i=47', 'i=85'), R(p, 'ns=1;i=5001')] if root == 'i=32' else [R(p, 'ns=1;i=5001')])]))
    for v in (5001, 5002, 5003, 5004, 5006):
        s.c.lex.id('ns=1;i=%d' % v, 1, 'i=%d' % v)
    return s.done()


def b_spaces(cid, r):
    """servers with very many namespaces, documents with many namespaces; ids, names and values in all of them"""
    s = Srv(cid, r, 'many namespaces')
    host = size(r, 300) if nth(cid) % 2 else r.choice([0, 3])
    n = size(r, 300) if nth(cid) % 3 != 1 else r.randint(1, 12)
    us = ['urn:1'] + ['urn:d%d' % j for j in range(2, n + 1)]
    have = ['urn:h%d' % j for j in range(host)]
    for u in us:
        if r.random() < 0.2 and len(have) < 400: have.insert(r.randrange(len(have) + 1), u)
    hi = lambda: r.choice([n, n, r.randint(max(1, n - 3), n), r.randint(1, n)])
    keys = []
    for i in range(1, r.randint(6, 20)):
        a = hi(); t = s.c.lex.id('ns=%d;i=%d' % (a, i), a, 'i=%d' % i)
        q = hi(); b = s.c.lex.bn('%d:n%d' % (q, i), q, 'n%d' % i)
        cls = r.choice(['UAObject', 'UAVariable', 'UADataType', 'UAVariable'])
        at, x = {'NodeId': t, 'BrowseName': b}, []
        if cls == 'UADataType':
            if r.random() < 0.7:
                x = [E('Definition', {'Name': 'T%d' % i}, [E('Field', {'Name': 'f', 'DataType': 'i=6'})])]
            rs = [R('i=45', 'i=22')]
        else:
            rs = [R('i=47', r.choice([k for k, c in keys if c != 'UADataType'] + ['i=85']))]
            if keys and r.random() < 0.5:
                rs.append(R('i=35', r.choice(keys)[0], True))
        if cls == 'UAVariable':
            if r.random() < 0.5:
                g = hi(); idt = s.c.lex.id('ns=%d;i=%d' % (g, 7000 + i), g, 'i=%d' % (7000 + i))
                at['DataType'] = 'i=17'; x = [E('Value', c=[E('NodeId', c=[E('Identifier', c=[T(idt)])])])]
            else:
                g = hi(); s.c.lex.int(str(g), g); s.w.lexed('UInt16', str(g), str(g))
                at['DataType'] = 'i=20'; x = [E('Value', c=[E('QualifiedName', c=[E('NamespaceIndex', c=[T(str(g))]), E('Name', c=[T('q')])])])]
        s.kids.append(E(cls, at, [E('References', c=rs)] + x)); keys.append((t, cls))
    n0(s.c, 17, 20)
    r.shuffle(s.kids)
    d = E('UANodeSet', c=[U(*us)] + s.kids)
    s.c.use(s.w)
    s.c.snew('A', have)
    f = s.c.file(render(d, r, PLAIN)); dd = s.c.doc(d)
    s.c.load('A', dd, f)
    if r.random() < 0.5: s.c.nsadd('A', 'urn:late')
    if r.random() < 0.3: s.c.load('A', dd, f)
    s.c.ops.append(('sdel', 'A')); s.c.ops.append(('ledger',))
    s.c.use(s.w)
    return s.c


def b_many(cid, r):
    """very many data types, encodings, dimensions"""
    s = Srv(cid, r, 'many types')
    k = nth(cid) % 3
    if k == 0:
        for i in range(1, size(r, 160)):
            sup = 'ns=1;i=%d' % r.randint(1, i - 1) if i > 1 and r.random() < 0.3 else 'i=22'
            s.struct(i, 'T%d' % i, [('a%d' % i, r.choice(['i=6', 'i=3', 'i=12', 'ns=1;i=%d' % r.randint(1, max(1, i - 1)) if i > 1 else 'i=1']), r.random() < 0.2)], sup)
    elif k == 1:
        m = size(r, 70)
        for i in range(1, m):
            e = s.c.lex.id('ns=1;i=%d' % (1000 + i), 1, 'i=%d' % (1000 + i))
            t = 'ns=1;i=%d' % i
            fw = r.random() < 0.4
            d = s.struct(i, 'T%d' % i, [('a', 'i=6', False)])
            if fw: s.kids[-1]['c'][0]['c'].append(R('i=38', e, True))
            s.kids.append(E('UAObject', {'NodeId': e, 'BrowseName': s.c.lex.bn('Default Binary', 0, 'Default Binary')}, [E('References', c=([R('i=38', t)] if not fw else []) + [R('i=40', 'i=76', True)])]))
    else:
        for i in range(1, r.randint(2, 6)):
            ds = [r.choice([0, 1, 5, r.randint(0, 4294967295 // 2)]) for _ in range(size(r, 70))]
            t = ','.join(map(str, ds)); s.w.lex.dims[t] = [str(v) for v in ds]
            at = {'ArrayDimensions': t, 'ValueRank': str(len(ds)), 'DataType': 'i=6'}
            s.c.lex.int(str(len(ds)), len(ds))
            if r.random() < 0.5:
                s.node('UAVariable', i, 'v%d' % i, at, [R('i=47', 'i=85')])
            else:
                s.node('UAVariableType', i, 'v%d' % i, at, [R('i=45', 'i=63')])
    n0(s.c, 38, 76)
    return s.done()


def plan(prop):
    P = {'C01': [('long names', names, 12, 200), ('many references', references, 3, 40)],
         'C02': [('long chains', ring(130, 0.0), 8, 100), ('many references', references, 3, 60), ('many files', files(40), 6, 60)],
         'C03': [('long cycles', ring(400), 14, 200), ('many files', files(40), 4, 40)],
         'C04': [('long names', names, 14, 300), ('many files', files(60), 8, 100)],
         'C05': [('long names', names, 20, 400), ('many files', files(60), 6, 60)],
         'C06': [('many files', files(60), 8, 100)],
         'C07': [('many references', references, 6, 100), ('long names', names, 8, 200), ('repetitions', again, 8, 80)],
         'C08': [('long attributes', attributes, 12, 200)],
         'C09': [('long attributes', attributes, 6, 100), ('long names', names, 6, 100)],
         'C10': [('large unknown', unknown, 16, 300)],
         'C11': [('large values', value, 28, 500)],
         'C12': [('large definitions', fields, 12, 200), ('long names', names, 8, 200)],
         'C13': [('many encodings', encodings, 8, 100)],
         'C14': [('large extensions', extension, 24, 400)],
         'C17': [('many files', files(60), 12, 200), ('repetitions', again, 8, 100)],
         'C18': [('many files', files(60), 5, 50), ('large values', value, 8, 80), ('long names', names, 6, 60), ('repetitions', again, 6, 60), ('large definitions', fields, 4, 40), ('many loaders', loaders, 2, 20), ('large unknown', unknown, 3, 30), ('large extensions', extension, 3, 30)],
         'C24': [('long names', names, 6, 100)],
         'C25': [('many loaders', loaders, 6, 100)],
         'C19': [('long parent chains', b_chains, 9, 120), ('many types', b_many, 6, 90), ('many children', b_nodes, 6, 100)],
         'C20': [('long parent chains', b_chains, 6, 90), ('many children', b_nodes, 4, 60)],
         'C21': [('many loads', b_loads, 6, 60), ('many types', b_many, 12, 120), ('long parent chains', b_chains, 6, 60), ('large data types', b_types, 24, 400)],
         'C22': [('many loads', b_loads, 6, 60), ('many namespaces', b_spaces, 8, 120), ('long parent chains', b_chains, 3, 60), ('large values', b_values, 20, 300), ('large data types', b_types, 20, 300)],
         'C23': [('long parent chains', b_chains, 9, 60), ('many namespaces', b_spaces, 16, 200), ('many loads', b_loads, 4, 60)],
         'C26': [('many namespaces', b_spaces, 6, 60), ('many types', b_many, 3, 60), ('long parent chains', b_chains, 3, 60), ('many loads', b_loads, 8, 150), ('many children', b_nodes, 2, 30)]}
    if prop == 'C18': P['C18'] += [('large values in servers', b_values, 6, 60), ('large data types', b_types, 6, 60)]
    return P.get(prop, [])
