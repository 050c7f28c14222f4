"""Generates nodesets that are loaded into servers: reference types, data types,
object and variable types, instances with values, on top of the host's nodes."""
import base64, datetime, random, struct, uuid
import gen
from gen import E, T, World, word, xname, text

HIER = [35, 36, 46, 47, 48, 49, 56, 17604]      # of the host, not abstract
NONHIER = [37, 39, 41, 51, 52, 53, 54, 117, 3065, 17603, 17597]
BUILTIN = ['', 'Boolean', 'SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'String', 'DateTime', 'Guid', 'ByteString',
           'XmlElement', 'NodeId', 'ExpandedNodeId', 'StatusCode', 'QualifiedName', 'LocalizedText', 'ExtensionObject', 'DataValue', 'Variant', 'DiagnosticInfo']
NUM = {n: i for i, n in enumerate(BUILTIN)}
ALIAS0 = {290: 'Double', 294: 'DateTime', 295: 'String', 288: 'UInt32', 289: 'UInt32', 30: 'ByteString'}
GOOD = ['Boolean', 'SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'String', 'DateTime', 'Guid', 'ByteString', 'NodeId', 'StatusCode',
        'QualifiedName', 'LocalizedText']
N0 = lambda i: (-1, 'i=%d' % i)
STRUCTS = {     # structures of the host: members (name, type, array)
    296: [('Name', 12, 0), ('DataType', 17, 0), ('ValueRank', 6, 0), ('ArrayDimensions', 7, 1), ('Description', 21, 0)],
    7594: [('Value', 8, 0), ('DisplayName', 21, 0), ('Description', 21, 0)],
    884: [('Low', 11, 0), ('High', 11, 0)],
    887: [('NamespaceUri', 12, 0), ('UnitId', 6, 0), ('DisplayName', 21, 0), ('Description', 21, 0)],
    8912: [('Offset', 4, 0), ('DaylightSavingInOffset', 1, 0)],
    12080: [('X', 11, 0), ('Value', 10, 0)]}
ENUMS = [257, 852]
SIZES = {'SByte': (8, 1), 'Byte': (8, 0), 'Int16': (16, 1), 'UInt16': (16, 0), 'Int32': (32, 1), 'UInt32': (32, 0), 'Int64': (64, 1), 'UInt64': (64, 0)}

SBASE = dict(gen.BASE, uris=(1, 3), rts=(0, 3), dts=(0, 4), ots=(0, 2), vts=(0, 2), nodes=(2, 10), raw=0.0, rawid=False, strange=0, back=True, missing=0.06, wrong=0.04,
             bad=0.06, noval=0.2, ns0uri=0.03, ext=0.1, late=0.3, enc=0.5, latefile=0.1, cycdt=0.05, unkdt=0.08, allpresent=0.3, vdepth=3, valsper=1, long=0.01, absrt=0.15, redecl=0.0, sideways=0.12)


class SWorld(World):
    def __init__(self, r, **prof):
        World.__init__(self, r, **dict(SBASE, **prof))

    # ------------------------------------------------------------ lexical level
    def lexed(self, kind, t, v):
        if not hasattr(self.lex, 'tab'):
            self.lex.tab, self.lex.dims = {}, {}
            for k, vs in (('Byte', '01'), ('Int32', ('-1', '0', '1')), ('Double', ('-1',)), ('Boolean', ('true', 'false'))):
                for x in vs:
                    self.lexed(k, x, struct.pack('>d', float(x)).hex() if k == 'Double' else x)
        if t is not None:
            self.lex.tab.setdefault(kind, {})[t] = v
        return t

    def litnum(self, kind, v):
        t = str(v)
        if v >= 0 and self.r.random() < 0.05:
            t = '0' * self.r.randint(1, 3) + t
        return self.lexed(kind, t, str(v))

    def lit(self, kind):
        """a text of this kind"""
        r = self.r
        if kind in SIZES:
            n, sg = SIZES[kind]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            return self.litnum(kind, r.choice([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1), hi // 2 + 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -200), min(hi, 200))]))
        if kind == 'Boolean':
            t = r.choice(['true', 'false', 'true', '1', '0'])
            return self.lexed(kind, t, {'1': 'true', '0': 'false'}.get(t, t))
        if kind in ('Float', 'Double'):
            f, n = ('>f', 4) if kind == 'Float' else ('>d', 8)
            k = r.random()
            if k < 0.12:
                t = r.choice(['INF', '-INF', 'NaN'])
                return self.lexed(kind, t, 'nan' if t == 'NaN' else struct.pack(f, float(t.replace('INF', 'inf'))).hex())
            if k < 0.4:
                t = r.choice(['0', '1', '-1', '0.5', '-0', '1.25', '3', '100', '-2.5', '1e3', '1E-2' if kind == 'Double' else '25E-2', '.5', '5.', '12345678', '0.1' if kind == 'Double' else '0.125'])
                return self.lexed(kind, t, struct.pack(f, float(t)).hex())
            b = bytes(r.getrandbits(8) for _ in range(n))
            if r.random() < 0.2:
                b = r.choice([b'\x7f\x7f\xff\xff', b'\x00\x00\x00\x01', b'\x80\x00\x00\x00', b'\x00\x80\x00\x00'] if n == 4 else [b'\x7f\xef' + b'\xff' * 6, b'\0' * 7 + b'\1', b'\x80' + b'\0' * 7, b'\0\x10' + b'\0' * 6])
            x = struct.unpack(f, b)[0]
            if x != x or x in (float('inf'), float('-inf')):
                x = 1.0
            t = '%.9g' % x if n == 4 else r.choice([repr(x), '%.17g' % x])
            return self.lexed(kind, t, struct.pack(f, x).hex())
        if kind == 'DateTime':
            d = datetime.datetime(r.choice([1601, 1970, 2000, 2023, 9999, r.randint(1602, 9998)]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
            if r.random() < 0.1:
                d = r.choice([datetime.datetime(1601, 1, 1), datetime.datetime(2024, 2, 29, 23, 59, 59), datetime.datetime(2100, 3, 1), datetime.datetime(9999, 12, 31, 23, 59, 59), datetime.datetime(1969, 12, 31, 23, 59, 59)])
            q = d - datetime.datetime(1601, 1, 1)
            ticks = (q.days * 86400 + q.seconds) * 10000000
            t = d.strftime('%Y').zfill(4) + d.strftime('-%m-%dT%H:%M:%S')
            if r.random() < 0.5:
                fr = ''.join(r.choice('0123456789') for _ in range(r.choice([1, 3, 3, 6, 7, 9])))
                t += '.' + fr; ticks += int(fr[:7].ljust(7, '0'))
            k = r.random()
            if k < 0.6:
                t += 'Z'
            elif k < 0.8 and 1602 < d.year < 9990:
                h, m = r.randint(0, 14), r.choice([0, 0, 30, 45])
                s = r.choice('+-')
                t += '%s%02d:%02d' % (s, h, m); ticks += (-1 if s == '+' else 1) * (h * 60 + m) * 60 * 10000000
            return self.lexed(kind, t, str(ticks))
        if kind == 'ByteString':
            b = bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 16, 100])))
            t = base64.b64encode(b).decode()
            if r.random() < 0.1:
                return self.lexed(kind, r.choice(['QQ', 'QUJ', 'A', 'QUJDR', 'Q?==', 'QUJ!']), '!')
            if r.random() < 0.3:
                i = r.randint(0, len(t)); t = t[:i] + r.choice(['\n', ' ', '\n   ', '\t']) + t[i:]
            return self.lexed(kind, t, b.hex())
        if kind == 'Guid':
            g = str(uuid.UUID(int=r.getrandbits(128) if r.random() < 0.9 else r.choice([0, (1 << 128) - 1])))
            return self.lexed(kind, r.choice([g, g.upper()]), g)
        if kind == 'Enum':
            v = r.choice([0, 1, 2, 5, -1, 2147483647, -2147483648, r.randint(-50, 500)])
            t = str(v) if r.random() < 0.5 else '%s_%d' % (r.choice(['Name', 'A_b', 'é', 'X1', 'a b', '_']), v)
            return self.lexed(kind, t, str(v))
        if kind == 'String':
            return text(r, 'long' if r.random() < self.p['long'] else None)
        return None

    # ------------------------------------------------------------ nodes
    def newid(self, rt=False):
        key = World.newid(self, rt)
        u = key[0]
        if isinstance(u, int) and u >= 0 and self.uris[u].startswith('http://opcfoundation.org/UA/') and key[1].startswith('i='):
            self.used.add((u, 'i=%d' % (200000 + len(self.used))))
            key = (u, 'i=%d' % (200000 + len(self.used)))
            self.used.add(key)
        return key

    def make_nodes(self):
        r, p = self.r, self.p
        self.lexed('', None, None)
        if r.random() < p['ns0uri']:
            self.uris[r.randrange(len(self.uris))] = r.choice(['http://opcfoundation.org/UA/', 'urn:open62541.server.application'])
        if p['bad'] > 0 and r.random() < 0.1:
            self.p = p = dict(p, raw=0.2, rawid=True)
        self.ish, self.svc = {}, 'srv'
        self.non = [N0(i) for i in NONHIER]
        self.hier = [N0(i) for i in HIER]
        nf = self.nfiles
        first = lambda: 0 if r.random() > 0.1 else r.randrange(nf)
        sub = N0(45)

        def node(cls, **kw):
            return dict(dict(id=self.newid(cls == 'UAReferenceType'), cls=cls, refs=[], file=r.randrange(nf), par=None, abs=False), **kw)
        # reference types
        self.rts, ok = [], []
        for i in range(r.randint(*p['rts'])):
            nd = node('UAReferenceType', file=first(), abs=r.random() < p['absrt'])
            k = r.random()
            par = r.choice(self.rts) if self.rts and k < 0.5 else None
            sup = par['id'] if par else r.choice([N0(i) for i in [33, 34, 44, 47, 46, 35, 49, 36]]) if k < 0.85 else r.choice([N0(32), N0(31), N0(37), N0(41), N0(52)])
            nd['file'] = max(nd['file'], par['file'] if par else 0)
            nd['h'] = par['h'] if par else k < 0.85
            k = r.random()
            if k < 0.9:
                nd['refs'].append((False, sub, sup))
            if par and (k >= 0.95 or r.random() < 0.2):
                par['refs'].append((True, sub, nd['id']))
            if k >= 0.9:
                nd['h'] = False
            if par:
                nd['file'] = max(nd['file'], par['file'])
            self.rts.append(nd)
            (self.hier if nd['h'] else self.non).append(nd['id'])
        frt = {m['id']: m['file'] for m in self.rts}
        # data types
        self.dts = self.make_dts(node)
        # object and variable types
        ots = [N0(58), N0(61)]; vts = [N0(62), N0(63), N0(68)]
        types = []
        for cls, lst, n in (('UAObjectType', ots, p['ots']), ('UAVariableType', vts, p['vts'])):
            for _ in range(r.randint(*n)):
                nd = node(cls, abs=r.random() < 0.2)
                if r.random() < 0.93:
                    nd['refs'].append((False, sub if r.random() < 0.96 else r.choice(self.hier), r.choice(lst)))
                lst.append(nd['id']); types.append(nd)
        # instances
        real = []
        pool = types + self.dts
        shape = r.choice(['tree', 'chain', 'mix'])
        late = r.random() < p['late']
        hr = lambda: r.choice(self.hier)
        for i in range(r.randint(*p['nodes'])):
            cls = r.choice(p['classes'] or ['UAObject', 'UAObject', 'UAVariable', 'UAVariable', 'UAVariable', 'UAMethod', 'UAView'])
            nd = node(cls)
            k = r.random()
            if k < p['missing']:
                par = self.newid() if r.random() < 0.7 else N0(r.choice([99999, 3, 2254]))
            elif real and k < (0.9 if shape == 'chain' else 0.6):
                q = real[-1] if shape == 'chain' else r.choice(real)
                if not late and cls in ('UAObject', 'UAMethod') and q['cls'] != 'UAObject':
                    q = None
                par = q['id'] if q else N0(85)
                nd['file'] = max(nd['file'], q['file']) if q else nd['file']
            elif pool and k < 0.75:
                q = r.choice(pool); par = q['id']; nd['file'] = max(nd['file'], q['file'])
            else:
                par = N0(r.choice([85, 85, 84, 2253, 58, 63, 86]))
            t = hr() if r.random() > p['wrong'] else r.choice([N0(33), N0(44)] + self.non + [m['id'] for m in self.rts])
            k = r.random()
            pn = next((m for m in real + types if m['id'] == par), None)
            if k < 0.55:
                nd['refs'].append((False, t, par))
            elif k < 0.7:
                nd['refs'].append((False, t, par)); nd['par'] = par
            elif k < 0.8 and pn:
                nd['par'] = par; pn['refs'].append((True, t, nd['id']))
            elif k < 0.85:
                nd['par'] = par
            elif k < 0.92 and pn:
                nd['refs'].append((False, t, par)); pn['refs'].append((True, t, nd['id']))
            elif k < 0.96 and pn:
                pn['refs'].append((True, t, nd['id']))
            else:
                nd['refs'].append((False, t, par)); nd['refs'].append((False, hr(), N0(85) if r.random() < 0.5 or not real else r.choice(real)['id']))
            if cls in ('UAObject', 'UAVariable') and r.random() < 0.75:
                td = r.choice(ots if cls == 'UAObject' else vts)
                if r.random() < p['wrong']:
                    td = r.choice([self.newid(), N0(58), N0(63), N0(85)] + ots + vts)
                nd['refs'].append((True, N0(40), td))
            real.append(nd)
        allnodes = self.rts + self.dts + types + real
        # types that are linked to nodes besides their supertypes as well, before or after these
        for lst in (self.rts, self.dts, [t for t in types if t['cls'] == 'UAObjectType'], [t for t in types if t['cls'] == 'UAVariableType']):
            for i, nd in enumerate(lst):
                while r.random() < p['sideways']:
                    k = r.random()
                    tgt = N0(r.choice([85, 86, 87, 90, 99997])) if k < 0.4 else r.choice(lst[:i])['id'] if i and k < 0.7 else r.choice(real)['id'] if real and k < 0.75 else N0(58)
                    nd['refs'].insert(r.randint(0, len(nd['refs'])), (False, r.choice([N0(x) for x in HIER]) if k < 0.5 else hr(), tgt))
                if r.random() < p['sideways'] * 0.2:
                    nd['refs'] = [x for x in nd['refs'] if x[1] != sub] or nd['refs']
        if real and r.random() < 0.05:
            r.choice(real)['refs'].append((r.random() < 0.6, N0(31), r.choice(allnodes)['id']))
        for nd in self.rts + self.dts:
            if r.random() < 0.3:
                for _ in range(r.choice([1, 1, 2])):
                    nd['refs'].insert(r.randint(0, len(nd['refs'])), (r.random() < 0.7, N0(r.choice(NONHIER)), r.choice(allnodes)['id'] if r.random() < 0.6 else N0(r.choice([85, 58, 78, 99998]))))
        for nd in types + real:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                tgt = r.choice(allnodes)['id'] if r.random() < 0.75 else N0(r.choice([85, 58, 78, 80, 2041, 99998]))
                nd['refs'].append((r.random() < 0.7, r.choice(self.non), tgt))
            if r.random() < 0.04 and nd['refs']:
                x = r.choice(nd['refs'])
                if x[1] != N0(40):
                    nd['refs'].append(x)
            if r.random() < 0.05 and self.rts:      # to a node that exists already
                nd['refs'].append((True, r.choice(self.hier), N0(r.choice([86, 87, 90]))))
        if len(real) > 1 and r.random() < p['cyc']:
            a, b = r.sample(real, 2)
            for x, y in r.choice([[(a, b), (b, a)], [(a, b), (b, a)], [(a, a)], [(a, b), (b, r.choice(real)), (r.choice(real), a)]]):
                if r.random() < 0.5:
                    x['refs'].append((True, hr(), y['id']))
                else:
                    y['refs'].append((False, hr(), x['id']))
        if real and r.random() < p['unresolved']:
            r.choice(real)['refs'].append((r.random() < 0.5, r.choice([self.newid(), N0(99995), N0(58)]), r.choice(real)['id']))
        # encodings
        for nd in list(self.dts):
            if r.random() < p['enc']:
                for nm in r.sample(['Default Binary', 'Default XML', 'Default JSON'], r.choice([1, 1, 2, 3])):
                    en = node('UAObject', file=nd['file'] if r.random() > p['latefile'] else r.randrange(nf), bn=nm)
                    k = r.random()
                    if k < 0.8:
                        en['refs'].append((False, N0(38), nd['id']))
                    if k > 0.6 and nm == 'Default Binary':
                        nd['refs'].append((True, N0(38), en['id']))
                    if r.random() < 0.6:
                        en['refs'].append((True, N0(40), N0(76)))
                    allnodes.append(en)
        if nf > 1:
            for nd in allnodes:
                nd['refs'] = [x for x in nd['refs'] if frt.get(x[1], 0) <= nd['file']]
        if p['dup'] and r.random() < p['dup'] and real:
            x = r.choice(real)
            allnodes.append(dict(x, refs=list(x['refs'])))
        if nf > 1 and r.random() < p['redecl']:
            # a later file declares nodes of an earlier one again, differently
            for x in r.sample(types + real + self.dts, min(len(types + real + self.dts), r.choice([1, 1, 2, 4]))):
                if x['file'] < nf - 1:
                    allnodes.append(dict(x, file=r.randrange(x['file'] + 1, nf), refs=[y for y in x['refs'] if r.random() < 0.7 or y[1] in (N0(45), N0(40))]))
        self.nodes = allnodes

    def make_dts(self, node):
        r, p = self.r, self.p
        out = []
        n = r.randint(*p['dts'])
        own = lambda k: isinstance(k[0], int) and k[0] >= 0 and self.uris[k[0]] != 'http://opcfoundation.org/UA/'
        if all(x == 'http://opcfoundation.org/UA/' for x in self.uris):
            n = 0       # data types of namespace 0 are the host's
        for i in range(n):
            nd = node('UADataType')
            while not own(nd['id']):
                nd['id'] = self.newid()
            k = r.random()
            cands = [d for d in out if d['base'] != 'none']
            par = r.choice(cands) if cands and k < 0.35 else None
            if par:
                sup, base = par['id'], par['base']
            else:
                b = r.choice([22, 22, 22, 22, 22, 29, 29, 12755, 6, 11, 12, 3, 13, 15, 1, 10, 9, 290, 294, 30, 24, 26, 27, 12756, 884, 17, 21, 25, 16])
                sup = N0(b)
                base = ('struct' if b in (22, 12756, 884) else 'optset' if b == 12755 else 'enum' if b == 29 else BUILTIN[b] if b <= 25 and b not in (24,) else ALIAS0.get(b, 'Variant'))
                if k > 0.96:
                    sup, base = (None, 'none') if r.random() < 0.5 else (self.newid(), 'none')
            nd.update(sup=sup, base=base, parent=par, abs=r.random() < 0.1, name=xname(r, 5))
            if par and r.random() < 0.7:
                nd['file'] = max(nd['file'], par['file'])
            if sup:
                nd['refs'].append((False, N0(45), sup))
            if par and r.random() < 0.1:
                par['refs'].append((True, N0(45), nd['id']))
            out.append(nd)
        for i, nd in enumerate(out):
            b, par = nd['base'], nd['parent']
            nd['union'] = b == 'struct' and r.random() < 0.25 and not par
            if par and b == 'struct':
                nd['union'] = par['union'] and r.random() < 0.9
            nd['own'], nd['hasdef'] = [], True
            if b != 'struct':
                nd['hasdef'] = r.random() < (0.8 if b in ('enum', 'optset') else 0.2)
                continue
            if r.random() < 0.08:
                nd['hasdef'] = False; continue
            used = set()
            q = par
            while q:
                used |= {f[0] for f in q.get('own', [])}; q = q['parent']
            for j in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])):
                while True:
                    nm = r.choice([xname(r, 3), 'Value', 'Name', 'X', 'ListOfY', 'SwitchField' if r.random() < 0.02 and not nd['union'] else xname(r, 2), 'é' + word(r, 1), 'Body'])
                    if nm not in used:
                        break
                used.add(nm)
                arr = r.random() < 0.25
                opt = not nd['union'] and r.random() < p.get('optional', 0.15)
                # by value only types before this one
                k = r.random()
                if k < 0.45 or not out:
                    ft = N0(NUM[r.choice(GOOD)])
                elif k < 0.55:
                    ft = N0(r.choice(list(STRUCTS) + ENUMS + [290, 294, 295, 288, 30]))
                elif k < 0.6 + p['unkdt'] * 0.5:
                    ft = r.choice([N0(24), N0(22), N0(26), N0(29), N0(16), N0(18), N0(23), N0(25), N0(12756), N0(99997), self.newid(), N0(293)])
                elif arr or opt or r.random() < p['cycdt']:
                    ft = r.choice(out)['id']
                else:
                    # any other type that is not one that contains this one: later ones contain nothing that comes before
                    m = out[i + 1:] if p.get('forward', self.fwd()) else out[:i]
                    m = [x for x in m if not self.inherits(x, nd) and not self.inherits(nd, x)]
                    ft = r.choice(m)['id'] if m else N0(6)
                nd['own'].append((nm, ft, arr, opt))
        return out

    def fwd(self):
        if not hasattr(self, 'fwd_'):
            self.fwd_ = self.r.random() < 0.5
        return self.fwd_

    @staticmethod
    def inherits(a, b):
        while a:
            if a is b:
                return True
            a = a['parent']
        return False

    # ------------------------------------------------------------ documents
    def node(self, nd, f):
        r, p = self.r, self.p
        cls = nd['cls']
        a = {'NodeId': self.spell(nd['id'], f)}
        if 'bn' in nd or r.random() < 0.97:
            nm = nd.get('bn') or nd.get('name') or r.choice([word(r), word(r), 'é' + word(r, 2), 'a b', 'x:' + word(r, 2)])
            idx = r.choice([0] + [i + 1 for i in range(len(self.fileuris[f]))] * 2)
            t = nm if idx == 0 and r.random() < 0.8 and ':' not in nm else '%d:%s' % (idx, nm)
            a['BrowseName'] = self.lex.bn(t, idx, nm)
        if nd.get('par'):
            a['ParentNodeId'] = self.spell(nd['par'], f)
        att = lambda n, kind, pr=0.5: a.update({n: self.lit(kind)}) if r.random() < pr else None
        if cls in ('UAReferenceType', 'UADataType', 'UAObjectType', 'UAVariableType'):
            if nd['abs']:
                a['IsAbstract'] = r.choice(['true', 'true', '1']); self.lexed('Boolean', a['IsAbstract'], 'true')
            elif r.random() < 0.3:
                a['IsAbstract'] = r.choice(['false', '0']); self.lexed('Boolean', a['IsAbstract'], 'false')
        if cls == 'UAReferenceType':
            att('Symmetric', 'Boolean')
        elif cls == 'UAObject':
            att('EventNotifier', 'Byte', 0.3)
        elif cls == 'UAMethod':
            att('Executable', 'Boolean'); att('UserExecutable', 'Boolean')
        elif cls == 'UAView':
            att('ContainsNoLoops', 'Boolean'); att('EventNotifier', 'Byte')
        tail = []
        if cls in ('UAVariable', 'UAVariableType'):
            if cls == 'UAVariable':
                att('AccessLevel', 'Byte', 0.3); att('UserAccessLevel', 'Byte', 0.3); att('Historizing', 'Boolean', 0.3); att('MinimumSamplingInterval', 'Double', 0.3)
            key = self.vtype()
            if key is not None:
                a['DataType'] = self.ref_text(key, f)
            v, arr = None, None
            if cls == 'UAVariable' and r.random() > p['noval']:
                v, arr = self.value_of(key, f)
            k = r.random()
            if arr is not None and k < 0.8:
                rank = 1 if arr else r.choice([-1, -1, -2, -3])
            else:
                rank = r.choice([None, None, -1, 1, 0, -2, -3, 2, 3])
            if rank is not None:
                a['ValueRank'] = self.lexed('Int32', str(rank), str(rank)); self.lex.int(str(rank), rank)
            if r.random() < 0.25:
                n = max(1, rank or 1) if r.random() < 0.8 else r.randint(1, 4)
                ds = [r.choice(['0', '1', '3', '10', '4294967295']) for _ in range(n)]
                t = r.choice([',', ', ' if r.random() < 0.0 else ',']).join(ds)
                a['ArrayDimensions'] = t; self.lex.dims[t] = ds
            if v is not None:
                tail.append(v)
        items = list(a.items()); r.shuffle(items); a = dict(items)
        c = []
        for n in ('DisplayName', 'Description') + (('InverseName',) if cls == 'UAReferenceType' else ()):
            if r.random() < p['texts']:
                c.append(self.loc(n))
        refs = []
        for fw, t, g in nd['refs']:
            ra = {'ReferenceType': self.ref_text(t, f)}
            if not fw:
                ra['IsForward'] = r.choice(['false', 'false', '0'])
            elif r.random() < 0.2:
                ra['IsForward'] = r.choice(['true', '1'])
            refs.append(E('Reference', ra, [T(self.ref_text(g, f))]))
        r.shuffle(refs)
        if refs or r.random() < 0.5:
            c.append(E('References', c=refs))
        if cls == 'UADataType' and nd['hasdef']:
            tail.append(self.definition_of(nd, f))
        if r.random() < p['ext']:
            tail.append(E('Extensions', c=[self.extension() for _ in range(r.choice([1, 1, 2]))]))
        r.shuffle(tail)
        c += tail
        if r.random() < 0.2:
            r.shuffle(c)
        return E(cls, a, c)

    def definition_of(self, nd, f):
        r = self.r
        a = {'Name': nd['name']}
        if nd['union']:
            a['IsUnion'] = r.choice(['true', 'true', '1'])
        c = []
        if nd['base'] == 'enum':
            for i in range(r.randint(0, 4)):
                v = r.choice([i, i * 10, -i])
                c.append(E('Field', {'Name': xname(r, 4), 'Value': self.lex.int(str(v), v)}))
        elif nd['base'] == 'struct':
            for nm, ft, arr, opt in nd['own']:
                fa = {'Name': nm, 'DataType': self.ref_text(ft, f)}
                if ft == N0(24) and r.random() < 0.5:
                    del fa['DataType']
                if arr:
                    v = r.choice([1, 1, 1, 0, 2]); fa['ValueRank'] = self.lex.int(str(v), v)
                elif r.random() < 0.3:
                    v = r.choice([-1, -1, -2, -3]); fa['ValueRank'] = self.lex.int(str(v), v)
                if opt:
                    fa['IsOptional'] = r.choice(['true', 'true', '1'])
                elif r.random() < 0.1:
                    fa['IsOptional'] = r.choice(['false', '0'])
                items = list(fa.items()); r.shuffle(items)
                c.append(E('Field', dict(items), [E('Description', {}, [T(text(r))])] if r.random() < 0.1 else []))
        else:
            for i in range(r.randint(0, 3)):
                c.append(E('Field', {'Name': xname(r, 4), 'Value': self.lex.int(str(i), i)}))
            if r.random() < 0.5:
                a['IsOptionSet'] = r.choice(['true', '1'])
        return E('Definition', a, c)

    # ------------------------------------------------------------ values
    def vtype(self):
        """type of a variable: a key or None"""
        r = self.r
        k = r.random()
        if k < 0.08:
            return None
        if k < (0.35 if self.dts else 0.8):
            return N0(NUM[r.choice(GOOD)])
        if k < 0.85 and self.dts:
            return r.choice(self.dts)['id']
        if k < 0.95:
            return N0(r.choice(list(STRUCTS) + ENUMS + [290, 294, 295, 288, 30]))
        return r.choice([N0(24), N0(26), N0(28), N0(22), N0(29), N0(16), N0(18), N0(23), N0(99996), self.newid()])

    def kind(self, key):
        """('prim', builtin) | ('enum',) | ('struct', members) | ('union', members) | ('variant',)"""
        if key is None:
            return ('variant',)
        u, ident = key
        d = next((x for x in self.dts if x['id'] == key), None)
        if u == -1 and d is None:
            if not ident.startswith('i='):
                return ('variant',)
            n = int(ident[2:])
            if n in STRUCTS:
                return ('struct', [(a, N0(b), bool(c), False) for a, b, c in STRUCTS[n]])
            if n in ENUMS or n == 29:
                return ('enum',)
            if n in ALIAS0:
                return ('prim', ALIAS0[n])
            if n == 24 or n > 25:
                return ('variant',)
            return ('prim', BUILTIN[n])
        if d is None or d['base'] in ('none', 'Variant'):
            return ('variant',)
        if d['base'] == 'enum':
            return ('enum',)
        if d['base'] == 'optset':
            return ('struct', [('Value', N0(15), False, False), ('ValidBits', N0(15), False, False)])
        if d['base'] == 'struct':
            ms, q = list(d['own']), d['parent']
            while q:
                ms = q['own'] + ms; q = q['parent']
            top = d
            while top['parent']:
                top = top['parent']
            if top['sup'] == N0(884):
                ms = [('Low', N0(11), False, False), ('High', N0(11), False, False)] + ms
            return ('union' if d['union'] else 'struct', ms)
        return ('prim', d['base'])

    def elem_name(self, key):
        k = self.kind(key)
        return k[1] if k[0] == 'prim' else 'Int32' if k[0] == 'enum' else 'ExtensionObject'

    def tree(self, key, name, f, depth, clean):
        """an element for a value of type key"""
        r = self.r
        if not clean and r.random() < self.p['bad']:
            k = r.random()
            if k < 0.3:
                return E(name)
            if k < 0.6:
                return E(name, c=[E('Odd', c=[T('1')])])
            return E(name, c=[T(text(r, 'word'))])
        k = self.kind(key)
        if k[0] == 'variant':
            return E(name)
        if k[0] == 'enum':
            return E(name, c=[T(self.lit('Enum'))])
        if k[0] == 'prim':
            return self.prim_tree(k[1], name, f)
        if depth <= 0:
            return E(name)
        c = []
        if k[0] == 'struct':
            for nm, ft, arr, opt in k[1]:
                if r.random() < (1 if clean else 0.85):
                    c.append(self.member(nm, ft, arr, f, depth - 1, clean))
            if r.random() < 0.15:
                r.shuffle(c)
        else:
            n = len(k[1])
            sel = r.randint(1, n) if n and r.random() < 0.9 else 0
            if not clean and r.random() < self.p['bad']:
                sel = n + 1
            t = str(sel); self.lex.int(t, sel); self.lexed('UInt32', t, t)
            if sel or r.random() < 0.5:
                c.append(E('SwitchField', c=[T(t)]))
            if 1 <= sel <= n and r.random() < 0.92:
                nm, ft, arr, opt = k[1][sel - 1]
                c.append(self.member(nm, ft, arr, f, depth - 1, clean))
        if not clean and r.random() < 0.1:
            c.insert(r.randint(0, len(c)), E('Unknown' + xname(r, 2), c=[T('1')]))
        if c and r.random() < 0.15:
            c = [x for y in c for x in (T(r.choice(['\n', ' '])), y)]
        return E(name, c=c)

    def member(self, nm, ft, arr, f, depth, clean):
        r = self.r
        if arr:
            n = r.choice([0, 1, 2, 3])
            return E(nm, c=[self.tree(ft, self.elem_name(ft), f, depth, clean) for _ in range(n)])
        return self.tree(ft, nm, f, depth, clean)

    def prim_tree(self, kind, name, f):
        r = self.r
        if r.random() < 0.04:
            return E(name)
        if kind == 'Guid':
            return E(name, c=[E('String', c=[T(self.lit('Guid'))])])
        if kind == 'StatusCode':
            return E(name, c=[E('Code', c=[T(self.lit('UInt32'))])])
        if kind == 'NodeId':
            k = r.random()
            key = r.choice(self.nodes)['id'] if self.nodes and k < 0.5 else N0(r.randint(1, 3000)) if k < 0.6 else self.anyid()
            return E(name, c=[E('Identifier', c=[T(self.spell(key, f))])])
        if kind == 'QualifiedName':
            c = []
            if r.random() < 0.8:
                i = r.randint(0, len(self.fileuris[f])); t = str(i)
                self.lex.int(t, i); self.lexed('UInt16', t, t)
                c.append(E('NamespaceIndex', c=[T(t)]))
            if r.random() < 0.9:
                c.append(E('Name', c=[T(text(r))]))
            return E(name, c=c)
        if kind == 'LocalizedText':
            c = []
            if r.random() < 0.7:
                c.append(E('Locale', c=[T(r.choice(['en', 'de', 'é']))] if r.random() < 0.8 else []))
            if r.random() < 0.9:
                c.append(E('Text', c=[T(text(r))]))
            return E(name, c=c)
        t = self.lit(kind)
        return E(name, c=[T(t if t is not None else 'x')])

    def anyid(self):
        u = self.r.randrange(len(self.uris)) if self.uris else -1
        return (u, self.r.choice(['i=%d' % self.r.randint(1, 99999), 's=' + word(self.r), 'g=' + str(uuid.UUID(int=self.r.getrandbits(128))), 'b=AQID']))

    def value_of(self, key, f):
        """Value element, and whether it is an array"""
        r, p = self.r, self.p
        k = self.kind(key)
        if k[0] == 'variant':
            key = N0(NUM[r.choice(GOOD + ['XmlElement', 'Variant'])]) if r.random() < 0.8 else r.choice([N0(884), N0(12)])
            k = self.kind(key)
        clean = r.random() < p['allpresent']
        if r.random() < 0.03:
            return E('Value'), None
        arr = r.random() < 0.35
        if k[0] in ('struct', 'union'):
            def eo():
                c = [E('TypeId', c=[E('Identifier', c=[T(r.choice(['i=297', 'ns=1;i=5001', self.spell(key, f)]))])]),
                     E('Body', c=[self.tree(key, xname(r, 4), f, p['vdepth'], clean)])]
                return E('ExtensionObject', c=c)
            el = E('ListOfExtensionObject', c=[eo() for _ in range(r.choice([0, 1, 2, 3]))]) if arr else eo()
        else:
            n = self.elem_name(key)
            if r.random() < 0.04:
                n = r.choice(GOOD)
            el = E('ListOf' + n, c=[self.tree(key, n, f, p['vdepth'], clean) for _ in range(r.choice([0, 1, 2, 3, 5, 20]))]) if arr else self.tree(key, n, f, p['vdepth'], clean)
        c = [el]
        if r.random() < 0.2:
            c = [T('\n '), el, T('\n')]
        return E('Value', c=c), arr
