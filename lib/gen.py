"""Generates nodeset documents (as element trees), histories, and their bytes.

A document tree is what the specification gives a meaning to (Meaning.tla);
render() writes it as XML in one of many equivalent ways."""
import base64, random, uuid, xml.parsers.expat

CLS = ['UAObject', 'UAObjectType', 'UAVariable', 'UADataType', 'UAMethod', 'UAReferenceType', 'UAVariableType', 'UAView']
INST = {'UAObject', 'UAVariable', 'UAMethod', 'UAView'}
HIER = [33, 34, 35, 36, 44, 45, 46, 47, 48, 49]            # for every reference service
HIER_INT = [38, 56, 129, 131, 14476, 15112, 15296, 15297, 16361, 16362, 17604, 18804, 18805]
NONHIER = [32, 37, 39, 41, 51, 52, 53, 54, 117, 9004, 3065, 17597, 14936, 23469]
NAMES = {33: 'HierarchicalReferences', 34: 'HasChild', 35: 'Organizes', 36: 'HasEventSource', 44: 'Aggregates', 45: 'HasSubtype', 46: 'HasProperty',
         47: 'HasComponent', 48: 'HasNotifier', 49: 'HasOrderedComponent', 40: 'HasTypeDefinition', 38: 'HasEncoding', 37: 'HasModellingRule',
         41: 'GeneratesEvent', 39: 'HasDescription', 1: 'Boolean', 6: 'Int32', 12: 'String', 11: 'Double', 24: 'BaseDataType', 21: 'LocalizedText'}
UNKNOWN = ['Foo', 'Documentation', 'RolePermissions', 'Category', 'Models', 'ServerUris', 'uaval', 'x', 'ReferenceX', 'Releasestatus']
KNOWN = ['UAObject', 'UAVariable', 'Value', 'References', 'Reference', 'DisplayName', 'Description', 'Uri', 'NamespaceUris', 'Alias', 'Aliases',
         'Definition', 'Field', 'Extensions', 'Extension', 'InverseName', 'UANodeSet', 'UAMethod', 'UADataType', 'UAReferenceType', 'Int32', 'ListOfInt32']
PIECES = ['a', 'B', 'foo', 'Node', '1', '42', ' ', '  ', '.', '-', '_', ':', ';', '=', '&', '<', '>', '"', "'", 'é', 'ß', '漢字', '😀', '€', '\u00a0', ']]', '&amp;',
          '&#38;', '\n', '\t', '%s', '%n', '\\', '/', 'true', 'null', '\u200b', 'ns=1;i=5', 'ä', '\r']


def E(e, a=None, c=None):
    return {'e': e, 'a': dict(a or {}), 'c': list(c or []), 'x': ''}


def T(x):
    return {'e': '', 'a': {}, 'c': [], 'x': x}


class Lex:
    def __init__(self):
        self.ids, self.bns, self.ints = {'i=24': [0, 'i=24']}, {}, {'-1': -1}

    def id(self, text, idx, ident):
        self.ids[text] = [idx, ident]; return text

    def bn(self, text, idx, name):
        self.bns[text] = [idx, name]; return text

    def int(self, text, v):
        self.ints[text] = v; return text


# ------------------------------------------------------------------ text
def word(r, n=None):
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_') for _ in range(n or r.randint(1, 12)))


def xname(r, n=None):
    return r.choice('abcdxyzABCXYZ_') + word(r, n)


def text(r, kind=None):
    k = kind or r.random()
    if k == 'long' or (k != 'short' and k != 'word' and k > 0.97):
        n = r.choice([255, 256, 1000, 1020, 1024, 1025, 2047, 3000, r.randint(100, 5000)])
        s = ''.join(r.choice(PIECES) for _ in range(n))[:n]
        return s
    if k == 'word' or (k != 'short' and k < 0.35):
        return word(r)
    return ''.join(r.choice(PIECES) for _ in range(r.randint(1, 8)))


# ------------------------------------------------------------------ rendering
def esc(s, r, attr, o):
    out = []
    for ch in s:
        c = ord(ch)
        if ch in '&<':
            out.append(r.choice(['&amp;', '&#38;', '&#x26;'] if ch == '&' else ['&lt;', '&#60;', '&#x3C;']) if o else {'&': '&amp;', '<': '&lt;'}[ch])
        elif ch == '>':
            out.append('&gt;' if not o or r.random() < 0.8 else '&#62;')
        elif ch == '"' and attr:
            out.append('&quot;' if not o or r.random() < 0.7 else '&#34;')
        elif ch == "'" and attr:
            out.append('&apos;')
        elif ch in '\n\t' and attr or ch == '\r':
            out.append('&#%d;' % c)
        elif o and r.random() < o['charref'] and c > 31:
            out.append(r.choice(['&#%d;', '&#x%x;', '&#x%X;', '&#0%d;']) % c)
        else:
            out.append(ch)
    return ''.join(out)


PLAIN = dict(charref=0.0, cdata=0.0, comment=0.0, pi=0.0, prefix=0.0, newline=1.0, split=0.0)
MIXED = dict(charref=0.03, cdata=0.15, comment=0.08, pi=0.04, prefix=0.1, newline=0.6, split=0.2)
WILD = dict(charref=0.2, cdata=0.4, comment=0.3, pi=0.2, prefix=0.3, newline=0.5, split=0.5)
LOOSE = {'UANodeSet', 'Aliases', 'NamespaceUris', 'References', 'Definition'} | set(CLS)


def junk(r, o):
    s = ''
    if r.random() < o['comment']:
        s += '<!--%s-->' % r.choice(['', ' c ', '<UAObject NodeId="ns=1;i=1"/>', ' & < ', 'x' * r.randint(1, 60), ' é漢 '])
    if r.random() < o['pi']:
        s += r.choice(['<?pi?>', '<?pi some <data> & more?>', '<?x y="1"?>'])
    return s


def textxml(s, r, o):
    out, i = [], 0
    while i < len(s):
        n = len(s) - i if r.random() >= o['split'] else r.randint(1, len(s) - i)
        p = s[i:i + n]; i += n
        if r.random() < o['cdata'] and '\r' not in p:
            out.append('<![CDATA[%s]]>' % p.replace(']]>', ']]]]><![CDATA[>'))
        else:
            out.append(esc(p, r, False, o))
        out.append(junk(r, o))
    return ''.join(out)


def _render(el, r, o, out, depth, layout=True):
    pre = 'p:' if r.random() < o['prefix'] else ''
    if depth == 0:
        out.append('<%s%s xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:p="http://example.org/p/"' % (pre, el['e']))
    else:
        out.append('<%s%s' % (pre, el['e']))
    for k, v in el['a'].items():
        q = '"' if o['charref'] == 0 or r.random() < 0.7 else "'"
        out.append('%s%s=%s%s%s' % (r.choice([' ', '\n ', '\t']) if o['split'] else ' ', k, q, esc(v, r, True, o), q))
    if not el['c'] and r.random() < 0.5:
        out.append('/>'); return
    out.append('>')
    for n in el.get('deep', []):      # an unknown element around everything below; without meaning
        out.append('<%s>' % n)
    layout = layout and el['e'] not in ('Value', 'Extension')
    loose = layout and el['e'] in LOOSE
    for k in el['c']:
        if loose and r.random() < o['newline']:
            out.append('\n' + ' ' * (depth + 1))
        if k['e'] == '':
            out.append(textxml(k['x'], r, o))
        else:
            out.append(junk(r, o)); _render(k, r, o, out, depth + 1, layout)
    out.append(junk(r, o))
    if loose and r.random() < o['newline']:
        out.append('\n' + ' ' * depth)
    for n in reversed(el.get('deep', [])):
        out.append('</%s>' % n)
    out.append('</%s%s%s>' % (pre, el['e'], ' ' if o['split'] and r.random() < 0.1 else ''))


def render(doc, r, o=PLAIN, pad=0):
    out = ['<?xml version="1.0" encoding="utf-8"?>' if r.random() < 0.8 else '']
    if pad:
        out.append('<!--%s-->' % ('p' * pad))
    out.append(junk(r, o))
    _render(doc, r, o, out, 0)
    out.append(junk(r, o)); out.append('\n')
    return ''.join(out).encode('utf-8', 'surrogatepass')


def recode(data, r):
    """the same document in another encoding"""
    t = data.decode('utf-8', 'surrogatepass')
    if t.startswith('<?xml'):
        t = t[t.index('?>') + 2:]
    decl = '<?xml version="1.0" encoding="%s"?>'
    k = r.choice(['utf-16le', 'utf-16be', 'utf-8-bom', 'iso-8859-1', 'us-ascii', 'utf-16le', 'utf-16be'])
    if k in ('iso-8859-1', 'us-ascii') and '<![CDATA[' in t:
        k = 'utf-16le'          # no character references there
    if k in ('iso-8859-1', 'us-ascii'):
        b = (decl % r.choice([k, k.upper()]) + t).encode(k, 'xmlcharrefreplace')
        try:
            xml.parsers.expat.ParserCreate().Parse(b, True)
            return b
        except xml.parsers.expat.ExpatError:
            k = 'utf-16le'      # a name that cannot be written in this encoding
    if k == 'utf-8-bom':
        return b'\xef\xbb\xbf' + (r.choice(['', decl % 'utf-8', decl % 'UTF-8']) + t).encode('utf-8')
    return ('\ufeff' + r.choice(['', decl % 'utf-16', decl % 'UTF-16']) + t).encode(k)


# ------------------------------------------------------------------ nodesets
FOREIGN = ['NodeId', 'BrowseName', 'ParentNodeId', 'DataType', 'ValueRank', 'IsAbstract', 'EventNotifier', 'Symmetric', 'ReferenceType', 'IsForward', 'Alias', 'Locale', 'Name', 'Value', 'IsUnion', 'IsOptionSet', 'IsOptional', 'Executable',
           'AccessLevel', 'ArrayDimensions', 'Historizing', 'ContainsNoLoops']


BASE = dict(files=(1, 1), uris=(0, 3), nodes=(3, 22), rts=(0, 4), aliases=(0, 8), attrs=0.5, texts=0.7, val=0.5, df=0.5, ext=0.15, unk=0.0,
            dup=0.0, enc=0.3, long=0.02, cyc=0.0, unresolved=0.0, strange=0.2, foreign=0.03, back=0.0, svc=('int', 'int', 'cust'), raw=0.1, rawid=True,
            order='shuffle', extparents=True, aliasuse=0.5, deepval=3, shuffle_refs=True, dupuri=0.05, nulls=0.0, classes=None, chain=0.0, twin=0.2)


class World:
    """nodes with a topological order, distributed over files"""

    def __init__(self, r, **prof):
        self.r, self.p = r, dict(BASE, **prof)
        p = self.p
        self.lex = Lex()
        self.uris = []
        for i in range(r.randint(*p['uris'])):
            self.uris.append(r.choice(['http://example.org/%s/', 'urn:%s', 'http://é.example/%s?a=1&b=2', '%s']) % (word(r, 4) + str(i)))
        self.nfiles = r.randint(*p['files'])
        self.svc = r.choice(p['svc'])
        self.fileuris = []
        for f in range(self.nfiles):
            u = list(range(len(self.uris)))
            r.shuffle(u)
            if u and r.random() < p['dupuri']:
                u.insert(r.randrange(len(u) + 1), r.choice(u))
            self.fileuris.append(u)
        self.used, self.keys = set(), []
        self.make_nodes()
        self.docs = [self.make_doc(f) for f in range(self.nfiles)]

    # ids: (u, ident); u: index of a URI, -1 for namespace 0, ('raw', k) for an index without entry
    def twin(self):
        """an id that differs from one in use in the namespace only, or nearly not"""
        r = self.r
        u, ident = r.choice(self.keys)
        kind, x = ident[:2], ident[2:]
        us = [i for i in range(len(self.uris)) if i != u]
        if isinstance(u, int) and u >= 0 and us and r.random() < 0.6:
            return (r.choice(us), ident)
        if kind == 's=':
            return (u, 's=' + r.choice([x + 'a', x + ' ', x[:-1] or 'q', x.swapcase(), 'a' + x, x[:-1] + 'z']))
        if kind == 'i=' and u != -1:
            v = int(x)
            return (u, r.choice(['s=%d' % v, 's=i=%d' % v, 'i=%d' % (v + 1), 'i=%d' % (v ^ 256), 'i=%d' % (v ^ 65536), 'i=%d' % (v ^ (1 << 31))]))
        return None

    def newid(self, rt=False):
        r = self.r
        while True:
            k = r.random()
            key = self.twin() if self.keys and k < self.p['twin'] else None
            if key and key not in self.used and key[1] not in ('i=0', 'i=4294967296'):
                self.used.add(key); self.keys.append(key); return key
            k = r.random()
            if k < 0.6:
                ident = 'i=%d' % r.choice([r.randint(1, 50), r.randint(1000, 70000), 4294967295 - r.randint(0, 3), r.randint(1, 300)])
            elif k < 0.85:
                s = r.choice([word(r), 'A.B.%s' % word(r, 3), '%s[%d]' % (word(r, 2), r.randint(0, 9)), 'é%s漢' % word(r, 2), '%s&<>"' % word(r, 2), 'ns=3;i=%d' % r.randint(1, 9),
                              'x;y=%s' % word(r, 2), '%s %s' % (word(r, 2), word(r, 2)), word(r, 60), word(r, 1)])
                ident = 's=' + s
            elif k < 0.95:
                ident = 'g=' + str(uuid.UUID(int=r.getrandbits(128)))
            else:
                ident = 'b=' + base64.b64encode(bytes(r.getrandbits(8) for _ in range(r.randint(1, 9)))).decode()
            if self.uris and r.random() > self.p['raw'] * 0.5:
                u = r.randrange(len(self.uris))
            elif rt or self.p['rawid'] and r.random() < 0.5:
                u = ('raw', r.choice([40, 41, 999, 65535]))
            else:
                u = -1
                if ident.startswith('i='):
                    ident = 'i=%d' % (100000 + r.randint(0, 9999))
            if (u, ident) not in self.used:
                self.used.add((u, ident)); self.keys.append((u, ident)); return (u, ident)

    def spell(self, key, f):
        """the id as written in file f"""
        u, ident = key; r = self.r
        if ident is None:
            return ''
        if u == -1:
            idx = 0
        elif isinstance(u, tuple):
            idx = u[1]
        else:
            idx = r.choice([i for i, x in enumerate(self.fileuris[f]) if x == u]) + 1
        w = ident
        if ident.startswith('g=') and r.random() < 0.5:
            w = ident.upper().replace('G=', 'g=', 1)
        if ident.startswith('i=') and r.random() < 0.03:
            w = 'i=0' + ident[2:]
        t = w if idx == 0 and r.random() < 0.9 else 'ns=%d;%s' % (idx, w)
        return self.lex.id(t, idx, ident)

    def make_nodes(self):
        r, p = self.r, self.p
        n = r.randint(*p['nodes'])
        self.nodes = []
        # reference types first in topological order
        self.hier = [(-1, 'i=%d' % i) for i in HIER + (HIER_INT if self.svc == 'int' and r.random() < 0.4 else [])]
        self.non = [(-1, 'i=%d' % i) for i in NONHIER]
        nrt = r.randint(*p['rts'])
        self.rts = []
        for i in range(nrt):
            nd = dict(id=self.newid(True), cls='UAReferenceType', refs=[], file=r.randrange(self.nfiles), par=None, topo=i)
            self.rts.append(nd); self.nodes.append(nd)
        if r.random() < p['chain'] and nrt > 1:
            for i, nd in enumerate(self.rts):
                sup = r.choice([(-1, 'i=33'), (-1, 'i=32'), (-1, 'i=47')]) if i == 0 else self.rts[i - 1]['id']
                nd['refs'].append((False, (-1, 'i=45'), sup)); nd['sup'] = sup
        else:
            for i, nd in enumerate(self.rts):
                k = r.random()
                if k < 0.55 and i:
                    sup = r.choice(self.rts[:i])['id']
                elif k < 0.8:
                    sup = r.choice(self.hier[:10])
                elif k < 0.95:
                    sup = r.choice(self.non)
                else:
                    sup = None
                nd['sup'] = sup
                if sup:
                    nd['refs'].append((False, (-1, 'i=45'), sup))
        ish = {x: True for x in self.hier}
        for nd in self.rts:
            h = bool(nd['sup'] and ish.get(nd['sup']))
            ish[nd['id']] = h
            (self.hier if h else self.non).append(nd['id'])
        nrh = [x['id'] for x in self.rts if ish[x['id']]]
        self.ish = ish
        for nd in self.rts:        # forward references from the supertype, too
            s = [m for m in self.rts if m['id'] == nd['sup']]
            if s and r.random() < 0.2:
                s[0]['refs'].append((True, (-1, 'i=45'), nd['id']))
        # the others
        order = list(range(n))
        ext = []
        classes = p['classes'] or ['UAObject', 'UAVariable', 'UAObject', 'UAVariable', 'UAObjectType', 'UADataType', 'UAMethod', 'UAVariableType', 'UAView']
        rest = []
        for i in order:
            if p['extparents'] and r.random() < 0.12:
                rest.append(dict(id=self.newid(), cls=None, refs=[], ext=True)); continue
            nd = dict(id=self.newid(), cls=r.choice(classes), refs=[], file=r.randrange(self.nfiles), par=None)
            rest.append(nd)
        self.topo = rest
        hr = lambda: r.choice(nrh) if nrh and r.random() < 0.35 else r.choice(self.hier)
        shape = r.choice(['tree', 'chain', 'dag', 'wide'])
        for i, nd in enumerate(rest):
            if nd.get('ext') or (i and r.random() < 0.1):
                pars = []
            else:
                k = {'tree': 1, 'chain': 1, 'wide': 1, 'dag': r.randint(1, 3)}[shape]
                pars = []
                for _ in range(k):
                    if i and r.random() < 0.85:
                        pars.append(rest[i - 1] if shape == 'chain' else rest[0] if shape == 'wide' else r.choice(rest[:i]))
                    else:
                        pars.append(dict(id=(-1, 'i=%d' % r.choice([85, 84, 58, 62, 61, 22, 29, 2253, 2041])), ext=True, refs=[]))
            for j, q in enumerate(pars):
                t = hr()
                inst = nd['cls'] in INST
                styles = ['inv', 'inv', 'both', 'fwd', 'parinv'] + (['par', 'parfwd'] if inst and len(pars) == 1 else [])
                s = r.choice(styles)
                if q.get('ext') and s in ('fwd', 'both', 'parfwd'):
                    s = 'inv'
                if t[1] == 'i=38' and t[0] == -1 and s != 'inv':
                    t = (-1, 'i=35')
                if s in ('inv', 'both', 'parinv'):
                    nd['refs'].append((False, t, q['id']))
                if s in ('fwd', 'both', 'parfwd'):
                    q['refs'].append((True, t, nd['id']))
                if s in ('par', 'parfwd', 'parinv') and inst:
                    nd['par'] = q['id']
            if nd['cls'] in INST and not nd['par'] and pars and r.random() < 0.2 and any(not x[0] for x in nd['refs']):
                nd['par'] = pars[0]['id']
            # forward hierarchical references to nodes outside of the nodeset that come later
        for i, nd in enumerate(rest):
            if nd.get('ext'):
                continue
            later = [x for x in rest[i + 1:] if x.get('ext')]
            if later and r.random() < 0.3:
                nd['refs'].append((True, hr(), r.choice(later)['id']))
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):        # non-hierarchical references, anywhere
                tgt = r.choice(rest + self.nodes) if r.random() < 0.8 else dict(id=(-1, 'i=%d' % r.randint(1, 3000)) if r.random() < 0.7 or not p['rawid'] else (('raw', len(self.fileuris[nd['file']]) + r.choice([1, 1, 2])), 'i=%d' % r.randint(1, 9)))
                nd['refs'].append((r.random() < 0.7, r.choice(self.non), tgt['id']))
            if r.random() < 0.05:      # to itself
                nd['refs'].append((r.random() < 0.5, r.choice(self.hier + self.non), nd['id']))
                if not nd['refs'][-1][0] and self.ish.get(nd['refs'][-1][1]) and nd['par']:
                    nd['refs'].pop()
            if r.random() < 0.05 and nd['refs']:
                nd['refs'].append(r.choice(nd['refs']))          # twice
            if nd['cls'] in ('UAObject', 'UAVariable') and r.random() < 0.7:
                nd['refs'].append((True, (-1, 'i=40'), (-1, 'i=%d' % r.choice([58, 61, 62, 63, 68])) if r.random() < 0.7 else r.choice(rest)['id']))
            elif r.random() < 0.05 and nd['cls'] not in ('UAObject', 'UAVariable'):
                nd['refs'].append((True, (-1, 'i=40'), (-1, 'i=58')))
        real = [x for x in rest if not x.get('ext')]
        # encodings
        for nd in list(real):
            if nd['cls'] == 'UADataType' and r.random() < p['enc']:
                for nm in r.sample(['Default Binary', 'Default XML', 'Default JSON'], r.randint(1, 3)):
                    en = dict(id=self.newid(), cls='UAObject', refs=[(False, (-1, 'i=38'), nd['id'])], file=r.randrange(self.nfiles), par=None, bn=nm)
                    if r.random() < 0.3:
                        nd['refs'].append((True, (-1, 'i=38'), en['id']))
                    if r.random() < 0.5:
                        en['refs'].append((True, (-1, 'i=40'), (-1, 'i=76')))
                    if r.random() < 0.1:
                        en['refs'].append((False, (-1, 'i=38'), (-1, 'i=%d' % r.randint(300, 400))))
                    real.append(en)
        if r.random() < p['dup'] and real:
            for _ in range(r.randint(1, 3)):
                nd = r.choice(real)
                d = dict(nd, refs=[x for x in nd['refs'] if r.random() < 0.7], cls=r.choice([nd['cls'], nd['cls'], 'UAObject']))
                if d['cls'] not in INST:
                    d['par'] = None
                real.append(d)
        if r.random() < p['cyc'] and len(real) > 1:
            self.add_cycle(real)
        if r.random() < p['unresolved'] and real:
            nd = r.choice(real)
            t = self.newid()
            if t[0] != -1:
                nd['refs'].append((r.random() < 0.5, t, r.choice(real)['id']))
        self.nodes += real
        if p.get('segments') and self.nfiles > 1:
            self.segment(real)

    def segment(self, real):
        """distributes the nodes so that every file follows the files of its parents and reference types"""
        r = self.r
        early = r.random() < 0.6
        for i, nd in enumerate(self.rts):
            nd['file'] = 0 if early else i * self.nfiles // max(1, len(self.rts)) * (r.random() < 0.7)
            if i and nd['file'] < max([m['file'] for m in self.rts if m['id'] == nd['sup']] or [0]):
                nd['file'] = max(m['file'] for m in self.rts if m['id'] == nd['sup'])
        fl = sorted(r.randrange(self.nfiles) for _ in real)
        for nd, f in zip(real, fl):
            nd['file'] = f
        frt = {m['id']: m['file'] for m in self.rts}
        for nd in self.rts + real:
            nd['refs'] = [x for x in nd['refs'] if frt.get(x[1], 0) <= nd['file']]

    def add_cycle(self, real):
        """a cycle along existing relations or between arbitrary nodes"""
        r = self.r
        k = r.randint(1, min(6, len(real)))
        ring = r.sample(real, k)
        if k == 1:
            ring = ring + [dict(id=self.newid(), refs=[], cls=None)]     # through a node outside of the nodeset
            a, x = ring
            t = r.choice(self.hier[:10])
            a['refs'].append((True, t, x['id'])); a['refs'].append((False, t, x['id'])); return
        for i, a in enumerate(ring):
            b = ring[(i + 1) % k]
            t = r.choice(self.hier)
            s = r.random()
            if s < 0.45:
                a['refs'].append((True, t, b['id']))
            elif s < 0.8 or b['cls'] not in INST or any(not x[0] and self.ish.get(x[1]) for x in b['refs']):
                b['refs'].append((False, t, a['id']))
            else:
                b['par'] = a['id']

    # -------------------------------------------------------------- documents
    def make_doc(self, f):
        r, p = self.r, self.p
        kids = []
        us = E('NamespaceUris', c=[E('Uri', c=[T(self.uris[u])]) for u in self.fileuris[f]])
        if us['c'] or r.random() < 0.3:
            kids.append(us)
        self.f = f
        # aliases: name -> key
        al, self.alias = [], {}
        pool = [((-1, 'i=%d' % i), nm) for i, nm in NAMES.items()]
        pool += [(x['id'], 'RT_' + word(r, 3)) for x in self.rts]
        pool += [(x['id'], word(r)) for x in self.nodes if x.get('cls')][:40]
        for _ in range(r.randint(*p['aliases'])):
            key, nm = r.choice(pool)
            if r.random() < 0.1 and not (p.get('back') and key in ((-1, 'i=40'), (-1, 'i=45'))):
                nm = r.choice(['i=85', 'i=47', 'ns=1;i=1', 'a b', 'Has&Component', 'é', nm + 'x', nm[:-1] or 'q', 'HasComponent', nm.lower()])
                if nm.startswith('i='):
                    self.lex.id(nm, 0, nm)
                elif nm.startswith('ns='):
                    self.lex.id(nm, 1, nm[5:])
            k = 1 if p.get('back') and '=' in nm else r.random()
            if k < 0.04:
                el = E('Alias', {'Alias': nm}, [])
                val = None
            elif k < 0.08:
                el = E('Alias', {'Alias': nm}, [T(r.choice(['garbage', 'HasComponentX', 'i=', 'ns=1', 'x=5']))])
                val = None
            else:
                el = E('Alias', {'Alias': nm}, [T(self.spell(key, f))])
                val = key
            if r.random() < 0.03:
                el['a'].pop('Alias')
            elif nm not in self.alias:
                self.alias[nm] = val
            al.append(el)
        self.byid = {}
        for nm, k in self.alias.items():
            if k:
                self.byid.setdefault(k, []).append(nm)
        if al:
            if r.random() < 0.1:
                i = r.randint(0, len(al)); kids += [E('Aliases', c=al[:i]), E('Aliases', c=al[i:])]
            elif r.random() < 0.05:
                kids += al
            else:
                kids.append(E('Aliases', c=al))
        elif r.random() < 0.3:
            kids.append(E('Aliases'))
        nodes = [x for x in self.nodes if x['file'] == f]
        o = p['order'] if p['order'] != 'any' else r.choice(['shuffle', 'topo', 'reverse'])
        if o == 'shuffle':
            r.shuffle(nodes)
        elif o == 'reverse':
            nodes.reverse()
        kids += [self.node(x, f) for x in nodes]
        doc = E('UANodeSet', {'LastModified': '2020-01-01'} if r.random() < 0.3 else {}, kids)
        if p['foreign']:
            self.add_foreign(doc)
        if p['unk']:
            self.add_unknown(doc, 0)
        return doc

    def ref_text(self, key, f):
        if key in self.byid and self.r.random() < self.p['aliasuse']:
            return self.r.choice(self.byid[key])
        # an id text that is also declared as alias name stands for the alias
        for _ in range(8):
            t = self.spell(key, f)
            if t not in self.alias:
                return t
        return t

    def loc(self, name):
        r = self.r
        a = {}
        if r.random() < 0.4:
            a['Locale'] = r.choice(['en', 'de-DE', '', 'é', word(r, 3)])
        c = []
        if r.random() < 0.9:
            c = [T(text(r, 'long' if r.random() < self.p['long'] else None))]
        return E(name, a, c)

    def node(self, nd, f):
        r, p = self.r, self.p
        a = {'NodeId': self.spell(nd['id'], f)}
        if 'bn' in nd or r.random() < 0.93:
            nm = nd.get('bn') or r.choice([word(r), word(r), 'é' + word(r, 2), 'a b', 'Default Binary' if r.random() < 0.1 else word(r)])
            idx = r.choice([0, 0] + [i + 1 for i in range(len(self.fileuris[f]))] + ([77, len(self.fileuris[f]) + 1] if p['rawid'] and r.random() < 0.15 else []))
            if r.random() < 0.05 and nm != nd.get('bn'):
                nm += ':x'; idx = idx or 0
                t = '%d:%s' % (idx, nm)
            else:
                t = nm if idx == 0 and r.random() < 0.8 else '%d:%s' % (idx, nm)
            a['BrowseName'] = self.lex.bn(t, idx, nm)
        if nd.get('par'):
            a['ParentNodeId'] = self.spell(nd['par'], f)
        cls = nd['cls']
        spec = {'UAObject': ['EventNotifier'], 'UAObjectType': ['IsAbstract'], 'UAVariable': ['ValueRank', 'ArrayDimensions', 'AccessLevel', 'UserAccessLevel', 'Historizing', 'MinimumSamplingInterval'],
                'UADataType': ['IsAbstract'], 'UAMethod': ['Executable', 'UserExecutable'], 'UAReferenceType': ['IsAbstract', 'Symmetric'],
                'UAVariableType': ['IsAbstract', 'ValueRank', 'ArrayDimensions'], 'UAView': ['ContainsNoLoops', 'EventNotifier']}[cls]
        for n in spec:
            if r.random() < p['attrs']:
                a[n] = r.choice(['true', 'false', '0', '1', '3', '-1', '1,2', '2,0', '100.5', '', 'TRUE', ' 1 ', '4294967295']) if r.random() < 0.8 else text(r)
        if cls in ('UAVariable', 'UAVariableType') and r.random() < 0.75:
            a['DataType'] = self.dtype(f)
        for n in ['Foo', 'WriteMask', 'SymbolicName', 'ReleaseStatus', 'MethodDeclarationId', 'DataTypeX', 'nodeid', 'Value', 'EventNotifier', 'IsAbstract', 'Executable', 'ValueRank', 'Symmetric', 'AccessLevel']:
            if n not in a and n not in spec and r.random() < (0.06 if p['strange'] else 0):
                a[n] = text(r, 'short')
        items = list(a.items()); r.shuffle(items); a = dict(items)
        c = []
        if r.random() < p['texts']:
            c.append(self.loc('DisplayName'))
        if r.random() < p['texts'] * 0.7:
            c.append(self.loc('Description'))
        if cls == 'UAReferenceType' and r.random() < p['texts']:
            c.append(self.loc('InverseName'))
        if r.random() < 0.02:
            c.append(self.loc(r.choice(['DisplayName', 'Description', 'InverseName'])))
        refs = []
        for fw, t, g in nd['refs']:
            ra = {'ReferenceType': self.ref_text(t, f)}
            if not fw:
                ra['IsForward'] = r.choice(['false', 'false', '0'])
            elif r.random() < 0.2:
                ra['IsForward'] = r.choice(['true', '1'])
            if r.random() < 0.5:
                ra = dict(reversed(list(ra.items())))
            refs.append(E('Reference', ra, [T(self.ref_text(g, f))]))
        if p['nulls'] and r.random() < p['nulls']:
            k = r.random()
            if k < 0.4:
                refs.append(E('Reference', {'ReferenceType': r.choice(['NoSuchName', 'garbage', 'hascomponent'])}, [T(self.spell(r.choice(self.nodes)['id'], f))]))
            elif k < 0.8:
                refs.append(E('Reference', {'ReferenceType': 'i=%d' % r.choice(NONHIER)}, [T(r.choice(['NoSuchNode', 'x=1', 'i=', 'ns=1;q=3']))] if r.random() < 0.8 else []))
                self.lex.id(refs[-1]['a']['ReferenceType'], 0, refs[-1]['a']['ReferenceType'])
            elif self.uris:
                refs.append(E('Reference', {}, [T(self.spell(r.choice(self.nodes)['id'], f))]))
        if p['shuffle_refs']:
            r.shuffle(refs)
        if refs and r.random() < 0.05:
            i = r.randint(0, len(refs)); rs = [E('References', c=refs[:i]), E('References', c=refs[i:])]
        else:
            rs = [E('References', c=refs)] if refs or r.random() < 0.5 else []
        c += rs
        tail = []
        if cls == 'UADataType' and r.random() < p['df']:
            tail.append(self.definition(f))
            if r.random() < 0.05:
                tail.append(self.definition(f))
        elif r.random() < 0.02:
            tail.append(self.definition(f))
        if cls == 'UAVariable' and r.random() < p['val']:
            tail.append(self.value())
            if r.random() < 0.03:
                tail.append(self.value())
        elif cls == 'UAVariableType' and r.random() < 0.1:
            tail.append(self.value())
        if r.random() < p['ext']:
            tail.append(E('Extensions', c=[self.extension() for _ in range(r.choice([1, 1, 1, 2, 3, 0]))]))
        r.shuffle(tail)
        c += tail
        if r.random() < 0.3:
            r.shuffle(c)
        return E(cls, a, c)

    def dtype(self, f):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.ref_text((-1, 'i=%d' % r.choice([1, 6, 7, 9, 11, 12, 13, 15, 20, 21, 22, 24, 26, 29])), f)
        if k < 0.85:
            ks = [x for x in self.nodes if x['cls'] == 'UADataType'] or self.nodes
            return self.ref_text(r.choice(ks)['id'], f) if ks else 'i=24'
        if self.p['nulls'] and k < 0.95:
            return r.choice(['NoSuchType', 'garbage', 'boolean'])
        if self.alias:
            return r.choice(list(self.alias))
        self.lex.id('i=24', 0, 'i=24')
        return 'i=24'

    # values
    def prim(self, name):
        r = self.r
        k = r.random()
        if k < 0.1:
            return E(name)
        if k < 0.15:
            return E(name, c=[T(r.choice([' ', '\n ', '\t']))])
        if k < 0.2:
            return E(name, {'xsi': 'x'}, [T(text(r, 'short'))])
        return E(name, c=[T(text(r, 'long' if r.random() < self.p['long'] else None) if r.random() < 0.5 else str(r.randint(-1000, 100000)))])

    def struct(self, name, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.25:
            return self.prim(name)
        names = [r.choice([xname(r, 3), 'Name', 'X', 'ListOfX', 'ExtensionObject', 'Body', 'TypeId', 'Identifier', 'Value', 'Int32', name]) for _ in range(r.randint(1, 4))]
        c = [self.struct(n, depth - 1) for n in names]
        if r.random() < 0.3:
            c = [x for y in c for x in (T(r.choice(['\n', ' ', 'stray'])), y)]
        return E(name, {}, c)

    def eo(self, shape=None):
        r = self.r
        c = []
        body = None
        k = r.random()
        tid = E('TypeId', c=[E('Identifier', c=[T(r.choice(['i=297', 'ns=1;i=5001', 'ns=2;s=Foo', text(r, 'word')]))])])
        if k < 0.85:
            n = xname(r, 5)
            body = E('Body', c=[self.struct(n, self.p['deepval'])])
        elif k < 0.93:
            body = E('Body')
        c = [tid] + ([body] if body else [])
        if r.random() < 0.2:
            c = [x for y in c for x in (T('\n  '), y)]
        return E('ExtensionObject', c=c)

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            el = self.prim(r.choice(['Int32', 'String', 'Boolean', 'Double', 'ByteString', 'DateTime', 'Guid', xname(r, 4), 'List', 'ListOf' if r.random() < 0.02 else 'XListOf']))
            if el['e'] == 'ListOf':
                el['c'] = []
            c = [el]
        elif k < 0.45:
            c = [self.struct(r.choice(['LocalizedText', 'QualifiedName', 'NodeId', 'Range', xname(r, 4)]), self.p['deepval'])]
        elif k < 0.65:
            m = r.choice(['Int32', 'String', 'Double', 'Boolean', 'LocalizedText'])
            n = r.choice([0, 1, 2, 3, 5, 5, 17, 40])
            c = [E('ListOf' + m, c=[self.struct(m, 1) if m == 'LocalizedText' else self.prim(m) for _ in range(n)])]
        elif k < 0.8:
            c = [self.eo()]
        elif k < 0.95:
            n = r.choice([0, 1, 2, 3, 6])
            c = [E('ListOfExtensionObject', c=[self.eo() for _ in range(n)])]
        elif k < 0.97:
            c = []
        else:
            c = [self.struct(xname(r, 4), self.p['deepval'] + 2)]
        if r.random() < 0.3 and c:
            c = [T('\n    '), c[0], T('\n  ')]
        if r.random() < 0.06 and c and not any(x['e'] in ('ExtensionObject', 'ListOfExtensionObject') for x in c):
            c.append(self.prim(r.choice(['Int32', 'Second', 'ListOfInt32'])))
            if c[-1]['e'].startswith('ListOf'):
                c[-1]['c'] = [self.prim('Int32')]
        return E('Value', c=c)

    def definition(self, f):
        r = self.r
        a = {'Name': word(r)}
        if r.random() < 0.15:
            a['IsUnion'] = r.choice(['true', '1', 'false', '0'])
        if r.random() < 0.1:
            a['IsOptionSet'] = r.choice(['true', '1', 'false'])
        kind = r.choice(['enum', 'struct', 'struct', 'mixed'] if r.random() < 0.2 else ['enum', 'struct', 'struct'])
        c = []
        for i in range(r.choice([0, 1, 2, 3, 5, 9, 30] if r.random() < 0.2 else [1, 2, 3, 4])):
            fa = {}
            if r.random() < 0.97:
                fa['Name'] = r.choice([word(r), text(r, 'short')])
            if kind == 'enum' or (kind == 'mixed' and r.random() < 0.5):
                v = r.choice([i, i * 2, -1 - i, 2147483647, -2147483648, 0, r.randint(-100, 5000)])
                fa['Value'] = self.lex.int(str(v), v)
            else:
                if r.random() < 0.9:
                    fa['DataType'] = self.dtype(f)
                if r.random() < 0.4:
                    v = r.choice([-1, 1, 0, 2, -2, -3])
                    fa['ValueRank'] = self.lex.int(str(v), v)
                if r.random() < 0.3:
                    fa['IsOptional'] = r.choice(['true', 'false', '1', '0'])
                if r.random() < 0.1:
                    fa['AllowSubTypes'] = 'true'
            items = list(fa.items()); r.shuffle(items)
            el = E('Field', dict(items))
            if r.random() < 0.1:
                el['c'] = [T('\n'), E('Description', {}, [T(text(r))])] if r.random() < 0.5 else [E('DisplayName', {'Locale': 'en'}, [T(text(r))])]
            c.append(el)
        self.lex.int('-1', -1)
        return E('Definition', a, c)

    def xtree(self, depth):
        r = self.r
        c = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < 0.45:
                c.append(T(text(r)))
            elif depth > 0:
                c.append(self.xtree(depth - 1))
        n = r.choice([xname(r, 4), 'Extension', 'Extensions', 'Value', 'UAObject', 'Foo', 'Reference', 'DisplayName'])
        return E(n, {('a' + word(r, 2)): text(r) for _ in range(r.choice([0, 0, 1, 2, 3]))}, c)

    def extension(self):
        r = self.r
        c = [self.xtree(r.randint(0, 3)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < 0.4:
            c = [x for y in c for x in (T(r.choice(['\n', '  ', 'text'])), y)] + [T('\n')]
        return E('Extension', {'x': 'y'} if r.random() < 0.2 else {}, c)

    # attributes of another namespace with the name of a known one (C08)
    def add_foreign(self, el):
        r = self.r
        if el['e'] in ('', 'Value', 'Extension'):
            return
        for k in el['c']:
            self.add_foreign(k)
        if r.random() < self.p['foreign']:
            items = list(el['a'].items())
            for n in set(r.choice((list(el['a']) or ['Name']) + FOREIGN) for _ in range(r.choice([1, 1, 2, 4]))):
                items.insert(r.randint(0, len(items)), ('p:' + n, r.choice(['1', 'true', 'false', 'ns=1;i=1', 'i=47', 'i=12', '1:x', '', 'en', '-1'])))
            el['a'] = dict(items)

    # unknown elements (C10)
    def unknown(self, depth=None):
        r = self.r
        if depth is None:
            depth = r.choice([0, 0, 1, 1, 2, 3, 6])

        def sub(d):
            n = r.choice(KNOWN + UNKNOWN)
            a = {'NodeId': 'ns=1;i=%d' % r.randint(1, 9)} if n.startswith('UA') else {'Alias': 'HasComponent'} if n == 'Alias' else {'ReferenceType': 'i=47'} if n == 'Reference' else {}
            c = []
            for _ in range(r.choice([0, 1, 2, 3])):
                c.append(T(text(r, 'short')) if r.random() < 0.5 or d <= 0 else sub(d - 1))
            return E(n, a, c)
        return E(r.choice(UNKNOWN), {'a': 'b'} if r.random() < 0.3 else {}, [sub(depth - 1) if r.random() < 0.7 and depth > 0 else T(text(r, 'short')) for _ in range(r.choice([0, 1, 2]))])

    def add_unknown(self, el, depth):
        r, p = self.r, self.p
        n = el['e']
        if n in ('', 'Value', 'Extension') or n in UNKNOWN:
            return
        for k in el['c']:
            if not (n == 'Field'):
                self.add_unknown(k, depth + 1)
        if r.random() < p['unk']:
            for _ in range(r.choice([1, 1, 2])):
                u = self.unknown()
                if r.random() < 0.15 and depth > 0:
                    # a known element at a place where it has no meaning
                    alt = {'References': 'Value', 'NamespaceUris': 'Alias', 'Definition': 'Reference', 'DisplayName': 'Uri', 'Reference': 'Reference', 'Description': 'Description', 'Uri': 'Uri',
                           'Alias': 'Alias', 'Field': 'Field', 'Extensions': 'Value', 'InverseName': 'InverseName'}.get(n)
                    if n in CLS:
                        alt = r.choice(['Field', 'Reference', 'Uri', 'UAObject', 'Extension', 'Alias', 'NamespaceUris', 'Int32'])
                    if alt:
                        u['e'] = alt
                        if alt in ('UAObject',):
                            u['a'] = {'NodeId': 'ns=1;i=77'}
                # text of an element can be interrupted anywhere
                if el['c'] and all(k['e'] == '' for k in el['c']) and len(el['c'][0]['x']) > 1 and n not in LOOSE:
                    s = el['c'][0]['x']; i = r.randint(0, len(s))
                    el['c'][0:1] = [T(s[:i]), u, T(s[i:])]
                else:
                    el['c'].insert(r.randint(0, len(el['c'])), u)


def permuted(doc, r):
    """the same nodeset with the nodes and references in another order"""
    ns = [k for k in doc['c'] if k['e'] in CLS]
    rest = [k for k in doc['c'] if k['e'] not in CLS]

    def pn(n):
        c = []
        for k in n['c']:
            if k['e'] == 'References':
                q = list(k['c']); r.shuffle(q); k = E('References', k['a'], q)
            c.append(k)
        return E(n['e'], n['a'], c)
    ns = [pn(n) for n in ns]
    r.shuffle(ns)
    return E(doc['e'], doc['a'], rest + ns)
