"""Replays of everything that the small models of the specification enumerate."""
import json, random, re
import gen, vlib
from cases import Case
from gen import E, T, CLS, INST, render, PLAIN, MIXED, WILD
from families import ref, ns0, uris

CACHE = {}


def enum(module, consts, tag, invs, res=None, what='', heap='8g', extra='', timeout=800):
    """checks a model with TLC and returns the JSON values it prints"""
    key = (module, tuple(sorted(consts.items())))
    if key not in CACHE:
        d = vlib.workdir('%s_%s' % (module, '_'.join(re.sub(r'\W', '', str(v)) for _, v in sorted(consts.items()))))
        cfg = d + '/%s.cfg' % module
        with open(cfg, 'w') as o:
            o.write('SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS\n%s\n' % (
                ' '.join(invs), extra, '\n'.join(' %s = %s' % kv for kv in consts.items())))
        r = vlib.model_check(module, cfg, d=d, heap=heap, timeout=timeout)
        if res:
            res.model(r, '%s %s' % (module, ' '.join('%s=%s' % kv for kv in sorted(consts.items()))))
        out = [json.loads(l.replace('\\"', '"')) for l in re.findall(r'^"%s (.*)"$' % tag, r.out, re.M)]
        if not out:
            raise vlib.ToolError('%s prints no %s' % (module, tag))
        CACHE[key] = sorted(out, key=json.dumps)
    return CACHE[key]


# ------------------------------------------------------------------ graphs
HREF = ['i=%d' % k for k in (33, 34, 35, 36, 44, 45, 46, 47, 48, 49)]


def ids_for(c, r, n):
    k = r.random()
    if k < 0.5:
        s = ['i=%d' % x for x in r.sample(range(1, 3 * n + 3), n)]
    elif k < 0.75:
        s = r.sample(['s=a', 's=b', 's=ab', 's=A', 's=1', 'i=1', 'i=2', 'i=10', 's=10', 's=é', 'b=AQ==', 'b=AQE=', 'g=00000001-0000-0000-0000-000000000000', 'g=00000000-0000-0000-0000-000000000001'], n)
    else:
        s = ['s=%s' % gen.word(r, 3) + str(i) for i in range(n)]
    return [c.lex.id('ns=1;' + x, 1, x) for x in s]


def graph(c, r, edges, n, orders=1):
    """documents for a graph of hierarchical relations: [[tree per file] per order]"""
    ids = ids_for(c, r, n)
    mono = r.choice(CLS) if r.random() < 0.5 else None
    if mono == 'UAReferenceType' and r.random() < 0.7:
        mono = 'UAObject'
    cls = [mono or r.choice(['UAObject', 'UAVariable', 'UAMethod', 'UAView', 'UAObjectType', 'UADataType', 'UAVariableType']) for _ in range(n)]
    ext = r.randrange(n) if r.random() < 0.2 else -1
    refs, par = [[] for _ in range(n)], {}
    into = {}
    for a, b in edges:
        into.setdefault(b, []).append(a)
    style = r.choice(['inverse', 'forward', 'mixed', 'mixed'])
    for b, ps in into.items():
        byattr = None
        if cls[b] in INST and b != ext and r.random() < 0.4:
            byattr = r.choice(ps)
            par[b] = ids[byattr]
        for a in ps:
            if a == ext and b == ext:
                continue
            t = r.choice(HREF)
            if byattr is not None:
                # nothing but forward references to this node; the attribute is enough for one
                if a != ext and (a != byattr or r.random() < 0.4):
                    refs[a].append(ref(c, t, ids[b], True))
                continue
            inv = {'inverse': True, 'forward': False}.get(style, r.random() < 0.5)
            both = style == 'mixed' and r.random() < 0.3
            if b != ext and (inv or both or a == ext):
                refs[b].append(ref(c, t, ids[a]))
            if a != ext and (not inv or both or b == ext):
                refs[a].append(ref(c, t, ids[b], True))
    els = []
    for i in range(n):
        if i == ext:
            continue
        a = {'NodeId': ids[i], 'BrowseName': c.lex.bn('n%d' % i, 0, 'n%d' % i)}
        if i in par:
            a['ParentNodeId'] = par[i]
        r.shuffle(refs[i])
        els.append(E(cls[i], a, [E('References', c=refs[i])] if refs[i] else []))
    out = []
    for k in range(orders):
        r.shuffle(els)
        cut = r.randint(1, len(els) - 1) if len(els) > 1 and r.random() < 0.3 else len(els)
        out.append([E('UANodeSet', c=[uris(1)] + els[:cut])] + ([E('UANodeSet', c=[uris(1)] + els[cut:])] if cut < len(els) else []))
    return out


def graphs(part, cid, r, n, orders=1):
    c = Case(cid, 'graphs of the model Hierarchy'); ns0(c, 33, 34, 35, 36, 44, 45, 46, 47, 48, 49)
    j = 0
    for edges in part:
        for docs in graph(c, r, [(a - 1, b - 1) for a, b in edges], n, orders):
            L = 'LM'[j % 2]; j += 1
            c.new(L, r.choice(['int', 'cust']), 'cap')
            inter = r.random() < 0.5
            for k, d in enumerate(docs):
                c.imp(L, c.doc(d), c.file(render(d, r, PLAIN)), 'plain')
                if inter and k + 1 < len(docs):
                    c.op('sort', L); c.op('dump', L)
            for o in ('sort', 'dump', 'del'):
                c.op(o, L)
    c.op('ledger')
    return c


def hierarchy(quick, rnd, res, n, limit, orders, per):
    gs = enum('Hierarchy', {'N': n}, 'GRAPH', ['AncestorsFirst', 'Complete', 'NoCycleTaken', 'Emit'], res)
    total = len(gs)
    gs = rnd.sample(gs, min(limit or total, total))
    return [graphs(gs[i:i + per], 'h%04d' % (i // per), random.Random(rnd.getrandbits(64)), n, orders) for i in range(0, len(gs), per)], {'model': total, 'replayed': len(gs)}


# ------------------------------------------------------------------ reference types
def classified(part, cid, r):
    c = Case(cid, 'reference types of the model Classify'); ns0(c, 32, 33, 35, 45, 47, 85, 37)
    names = {'H': 'i=33', 'N': 'i=32', 'S': 'i=45'}
    for j, decl in enumerate(part):
        L = 'LM'[j % 2]
        c.new(L, r.choice(['int', 'cust']), 'cap')
        num = r.sample(range(1, 60), len(decl) + 1)
        nm = dict(names, X=c.lex.id('ns=1;i=%d' % num[-1], 1, 'i=%d' % num[-1]))
        if r.random() < 0.5:
            nm['H'] = r.choice(['i=33', 'i=35', 'i=47'])
            nm['N'] = r.choice(['i=32', 'i=37'])
        for i in range(len(decl)):
            nm['abcd'[i]] = c.lex.id('ns=1;i=%d' % num[i], 1, 'i=%d' % num[i])
        items = []
        for i, refs in enumerate(decl):
            rs = [ref(c, nm[v], nm[s]) for v, s in refs]
            r.shuffle(rs)
            if r.random() < 0.1:
                rs.append(ref(c, 'i=37', nm['abcd'[r.randrange(len(decl))]], r.random() < 0.5))
            items.append(E('UAReferenceType', {'NodeId': nm['abcd'[i]], 'BrowseName': c.lex.bn('t%d' % i, 0, 't%d' % i)}, [E('References', c=rs)] if rs else []))
        for i in range(len(decl)):
            t = nm['abcd'[i]]
            rs = [ref(c, t, 'i=85', r.random() < 0.3)]
            o = E(r.choice(['UAObject', 'UAVariable', 'UADataType', 'UAMethod']), {'NodeId': c.lex.id('ns=1;s=u%d' % i, 1, 's=u%d' % i), 'BrowseName': c.lex.bn('u%d' % i, 0, 'u%d' % i)}, [E('References', c=rs)])
            items.insert(r.randint(0, len(items)), o)
        cut = r.randint(1, len(items) - 1) if r.random() < 0.3 else len(items)
        for part_ in (items[:cut], items[cut:]):
            if part_:
                d = E('UANodeSet', c=[uris(1)] + part_)
                c.imp(L, c.doc(d), c.file(render(d, r, PLAIN)), 'plain')
        for o in ('sort', 'dump', 'del'):
            c.op(o, L)
    c.op('ledger')
    return c


def classify(quick, rnd, res, k, n, vias, limit):
    ts = enum('Classify', {'K': k, 'R': n, 'Vias': '"%s"' % vias}, 'TYPES', ['Inv', 'Emit'], res)
    total = len(ts)
    ts = rnd.sample(ts, min(limit or total, total))
    return [classified(ts[i:i + 30], 'c%d%d%s%04d' % (k, n, vias[0], i // 30), random.Random(rnd.getrandbits(64))) for i in range(0, len(ts), 30)], {'model': total, 'replayed': len(ts)}


# ------------------------------------------------------------------ histories
def lifefiles(c, r, kinds):
    """the files of the model Lifecycle: kind -> (index of the document, index of the file, expected result)"""
    ns0(c, 33, 35, 45, 46, 47, 85, 24, 63)
    num = dict(zip('p c k1 k2 u x y b'.split(), r.sample(range(1, 90), 8)))
    out = {}
    rel = {'c': r.choice(['inverse', 'parent', 'both', 'forward']), 'u': r.random() < 0.5}
    cls = {k: r.choice(['UAObject', 'UAVariable', 'UAMethod', 'UAView'] if k == 'c' and rel['c'] in ('parent', 'both') else ['UAObject', 'UAVariable', 'UADataType', 'UAObjectType', 'UAMethod', 'UAVariableType', 'UAView']) for k in ('p', 'c', 'k1', 'k2', 'u', 'b')}
    for kind in kinds:
        if kind == 'M':
            out[kind] = (0, c.file(r.choice([None, None, b'', 'dir'])), 'fail'); continue
        at = r.randint(1, 3)                       # where the file has its namespace
        table = E('NamespaceUris', c=[E('Uri', c=[T('urn:mine' if i == at else 'urn:%s%d' % (kind, i))]) for i in range(1, at + 1)])
        me = lambda k: c.lex.id('ns=%d;i=%d' % (at, num[k]), at, 'i=%d' % num[k])
        al = E('Aliases', c=[E('Alias', {'Alias': 'rel'}, [T({'P': 'i=35', 'C': 'i=47', 'U': 'i=46'}.get(kind, 'i=35'))])])

        def node(k, refs, cl=None, **a):
            v = [E('DisplayName', c=[T('%s of %s' % (k, kind))])]
            if r.random() < 0.3:
                v.append(E('Description', c=[T('d' * r.choice([1, 30, 2000]))]))
            if cls.get(k) == 'UAVariable' and not cl:
                v.append(E('Value', c=[E('Int32', c=[T('1')])]))
            if r.random() < 0.3:
                v.append(E('Extensions', c=[E('Extension', c=[E('any', c=[T(k)])])]))
            return E(cl or cls[k], dict({'NodeId': me(k), 'BrowseName': c.lex.bn('%d:%s' % (at, k), at, k)}, **a), v + [E('References', c=refs)])
        R = lambda t, g, fw=False: E('Reference', dict({'ReferenceType': t}, **({} if fw else {'IsForward': 'false'})), [T(g)])
        if kind == 'P':
            body = [node('p', [R('rel', 'i=85')] + ([R('i=47', me('c'), True)] if rel['c'] == 'forward' else []))]
        elif kind == 'C':
            body = [node('c', [R('rel', me('p'))] if rel['c'] in ('inverse', 'both') else [], **({'ParentNodeId': me('p')} if rel['c'] in ('parent', 'both') else {}))]
        elif kind == 'K':
            body = [node('k1', [R('rel', me('k2'))] + ([R('rel', me('p'))] if r.random() < 0.3 else [])), node('k2', [R('rel', me('k1'))])]
        elif kind == 'U':
            body = [node('u', [R(me('x'), me('p'))] + ([R('rel', 'i=85')] if rel['u'] else []))]
        elif kind == 'R':
            body = [node('x', [R('i=45', me('y'))], 'UAReferenceType')]
        elif kind == 'S':
            body = [node('y', [R('i=45', 'i=33')], 'UAReferenceType')]
        else:
            body = [node('b', [R('rel', 'i=85')])]
        d = E('UANodeSet', c=[table, al] + body)
        x = render(d, r, PLAIN)
        if kind == 'B':
            x = x[:x.rindex(b'</UANodeSet')] + r.choice([b'', b'<UAObject', b'</UAObject>', b'<UAObject NodeId="ns=1;i=5"><Value><Int32>', b'&nope;', b'<UADataType NodeId="ns=1;i=77"><Definition><Field Name="a"/>'])
        out[kind] = (c.doc(d), c.file(x), 'fail' if kind == 'B' else 'ok')
    return out


def histories(part, cid, r):
    c = Case(cid, 'histories of the model Lifecycle')
    if r.random() < 0.5:
        c.pre.append('nsbase\t%d' % r.randint(1, 5))
    files = lifefiles(c, r, sorted({op for h in part for _, op in h if len(op) == 1}))
    svc = {'A': r.choice(['int', 'cust']), 'B': r.choice(['int', 'cust'])}
    mode = r.choice(['plain', 'ext'])
    for h in part:
        live = []
        for L, op in h:
            if op == 'new':
                c.new(L, svc[L], 'cap'); live.append(L)
            elif op == 'del':
                c.op('del', L); live.remove(L)
            elif len(op) == 1:
                c.imp(L, *files[op][:2], mode, files[op][2])
            else:
                c.op(op, L)
        for L in live:
            if r.random() < 0.8:
                c.op('sort', L); c.op('dump', L)
            c.op('del', L)
    c.op('ledger')
    return c


def lifecycle(quick, rnd, res, k, loaders, kinds, limit):
    tla = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    hs = enum('Lifecycle', {'K': k, 'Loaders': tla(loaders), 'Kinds': tla(kinds)}, 'HIST', ['SortRight', 'NothingElse', 'NothingLost', 'KnownRight', 'Emit'], res)
    total = len(hs)
    hs = rnd.sample(hs, min(limit or total, total))
    return [histories(hs[i:i + 25], 'l%d%d_%04d' % (len(loaders), k, i // 25), random.Random(rnd.getrandbits(64))) for i in range(0, len(hs), 25)], {'model': total, 'replayed': len(hs)}


# ------------------------------------------------------------------ adding to a server
ROOT = {'ObjectType': ['i=58'], 'VariableType': ['i=63', 'i=62'], 'DataType': ['i=24', 'i=22', 'i=29'], 'ReferenceType': ['i=32', 'i=35', 'i=33']}


def added(part, cid, r):
    import back, fam_back
    c = back.SCase(cid, 'nodesets of the model AddNodes'); ns0(c, 47, 35, 46, 45, 40, 85, 63, 62, 58, 33, 32, 24, 22, 29)
    fam_back.defaults(c)
    no = c.lex.id('ns=1;s=no', 1, 's=no')
    for spec in part:
        n = len(spec)
        num = r.sample(range(1, 4 * n), n)
        ids = [c.lex.id('ns=1;i=%d' % k, 1, 'i=%d' % k) for k in num]
        refs, attr = [[] for _ in range(n)], [{} for _ in range(n)]
        at = lambda x: no if x == 10 else ids[x - 1]
        for i, (cls, par, td) in enumerate(spec):
            if cls in ROOT:
                if par != 20:
                    p = r.choice(ROOT[cls]) if par == 0 else at(par)
                    refs[i].append(ref(c, 'i=45', p))
                    if 0 < par < 10 and r.random() < 0.2:
                        refs[par - 1].append(ref(c, 'i=45', ids[i], True))
            elif par != 20:
                p = 'i=85' if par == 0 else at(par)
                t = r.choice(['i=47', 'i=35', 'i=46'])
                k = r.random()
                if k < 0.2:                                 # only the attribute
                    attr[i]['ParentNodeId'] = p
                elif k < 0.4 and 0 < par < 10:              # attribute and reference from the parent
                    attr[i]['ParentNodeId'] = p
                    refs[par - 1].append(ref(c, t, ids[i], True))
                else:
                    refs[i].append(ref(c, t, p))
                    if k < 0.6:
                        attr[i]['ParentNodeId'] = p
            if cls in ('Object', 'Variable') and (td or r.random() < 0.3):
                refs[i].append(ref(c, 'i=40', at(td) if td else 'i=58' if cls == 'Object' else 'i=63', True))
        els = []
        for i, (cls, par, td) in enumerate(spec):
            r.shuffle(refs[i])
            els.append(E('UA' + cls, dict(attr[i], NodeId=ids[i], BrowseName=c.lex.bn('n%d' % i, 0, 'n%d' % i)), [E('References', c=refs[i])] if refs[i] else []))
        r.shuffle(els)
        d = E('UANodeSet', c=[uris(1)] + els)
        c.snew('A', [])
        k, f = c.doc(d), c.file(render(d, r, PLAIN))
        c.load('A', k, f)
        if r.random() < 0.05:
            c.load('A', k, f)
        c.ops.append(('sdel', 'A'))
    c.ops.append(('ledger',))
    return c


def addnodes(quick, rnd, res, n, classes, defs, roots, limit):
    ss = enum('AddNodes', {'N': n, 'Classes': '{%s}' % ', '.join('"%s"' % x for x in classes.split()), 'Defs': defs, 'Roots': roots}, 'SET', ['Sound', 'Complete', 'Emit'], res)
    total = len(ss)
    ss = rnd.sample(ss, min(limit or total, total))
    return [added(ss[i:i + 20], 'n%d%s%d_%04d' % (n, defs[0], len(classes), i // 20), random.Random(rnd.getrandbits(64))) for i in range(0, len(ss), 20)], {'model': total, 'replayed': len(ss)}


# ------------------------------------------------------------------ layout of data types
LEAF = {11: [1, 2, 3], 12: [4, 5], 14: [6, 7, 10, 19, 29], 18: [8, 9, 11, 13], 20: [12, 15, 16], 21: [14], 23: [20, 21], 22: [24]}


def laidout(part, cid, r):
    import back, fam_back
    c = back.SCase(cid, 'sets of data types of the model Layout'); ns0(c, 22, 29, 45, 38, 76, 24, 12, *sum(LEAF.values(), []))
    fam_back.defaults(c)
    groups = []
    num = r.sample(range(1, 3000), 1 + sum(len(x) for x in part)); k = 0
    for spec in part:
        n = len(spec)
        ids = []
        for i in range(n):
            t = 'i=%d' % num[k] if r.random() < 0.8 else 's=t%d' % k
            ids.append(c.lex.id('ns=1;' + t, 1, t)); k += 1
        els = []
        for i, (kind, sup, own, ab) in enumerate(spec):
            refs = [ref(c, 'i=45', ids[sup - 1] if sup else 'i=22')]
            fs = []
            for j, (t, m) in enumerate(own):
                a = {'Name': 'm%d' % j, 'DataType': ids[t - 1] if t < 10 else 'i=%d' % r.choice(LEAF[t])}
                if m == 1:
                    a['ValueRank'] = c.lex.int('1', 1)
                elif r.random() < 0.2:
                    a['ValueRank'] = c.lex.int('-1', -1)
                if m == 2:
                    a['IsOptional'] = r.choice(['true', 'true', '1'])
                fs.append(E('Field', a))
            d = {'Name': 'T%d' % k}
            if kind == 'U':
                d['IsUnion'] = r.choice(['true', 'true', '1'])
            at = {'NodeId': ids[i], 'BrowseName': c.lex.bn('t%d' % i, 0, 't%d' % i)}
            if ab:
                at['IsAbstract'] = 'true'
            body = [E('References', c=refs), E('Definition', d, fs)]
            if r.random() < 0.1:
                body.reverse()
            els.append(E('UADataType', at, body))
        r.shuffle(els)
        groups.append(els)
    r.shuffle(groups)
    els = [e for g in groups for e in g]
    if r.random() < 0.3:
        r.shuffle(els)
    d = E('UANodeSet', c=[uris(1)] + els)
    c.snew('A', [])
    q, f = c.doc(d), c.file(render(d, r, PLAIN))
    c.load('A', q, f)
    c.ops.append(('sdel', 'A')); c.ops.append(('ledger',))
    return c


def layout(quick, rnd, res, nt, k, leafs, mods, kinds, rec, ab, limit):
    tla = lambda xs: '{%s}' % ', '.join(map(str, xs))
    ts = enum('Layout', {'NT': nt, 'K': k, 'Leafs': tla(leafs), 'Mods': tla(mods), 'Kinds': tla('"%s"' % x for x in kinds), 'Rec': rec, 'Abstract': ab},
              'TYPES', ['Ends', 'Right', 'Kept', 'Founded', 'Emit'], res)
    total = len(ts)
    ts = rnd.sample(ts, min(limit or total, total))
    m = 60 // nt
    return [laidout(ts[i:i + m], 't%d_%d%s_%04d' % (nt, k, ab[0], i // m), random.Random(rnd.getrandbits(64))) for i in range(0, len(ts), m)], {'model': total, 'replayed': len(ts)}


LAY = [
    ('model of the layout, 1 type of 3 members', layout, (1, 3, (11, 12, 14, 18, 20, 21), (0, 1, 2), 'SU', 'FALSE', 'FALSE', 3000), (1, 3, (11, 12, 14, 18, 20, 21, 23), (0, 1, 2), 'SU', 'FALSE', 'FALSE', 0)),
    ('model of the layout, 2 types', layout, (2, 12, (11, 14, 20), (0, 1, 2), 'SU', 'TRUE', 'FALSE', 2000), (2, 12, (11, 12, 14, 18, 20), (0, 1, 2), 'SU', 'TRUE', 'FALSE', 0)),
    ('model of the layout, 2 types that can be abstract', layout, (2, 11, (11, 14, 20), (0, 1, 2), 'SU', 'TRUE', 'TRUE', 1000), (2, 21, (11, 14, 20), (0, 1, 2), 'SU', 'TRUE', 'TRUE', 0)),
    ('model of the layout, 3 types', layout, (3, 111, (11,), (0, 1), 'SU', 'TRUE', 'FALSE', 1500), (3, 111, (11, 20), (0, 1), 'SU', 'TRUE', 'FALSE', 0)),
]


# ------------------------------------------------------------------ histories of loads
def loadfiles(c, r, kinds):
    """the files of the model Reload: kind -> (index of the document, index of the file, expected result)"""
    ns0(c, 22, 24, 33, 35, 37, 38, 39, 40, 41, 45, 46, 47, 51, 58, 63, 85, 6, 12, 1, 32, 54, 297)
    num = r.sample(range(1, 300), 40)
    key = {}
    other = ['urn:o%d' % i for i in range(3)]
    own = r.choice(['i=39', 'i=41', 'i=51', 'i=54', 'i=37'])
    inst = ['UAObject', 'UAVariable', 'UAMethod', 'UAView']
    cls = {k: r.choice(inst[:2] if k in ('p', 'c', 'q') else inst) for k in ('p', 'p2', 'c', 'c2', 'q', 't', 'm')}
    rel = {k: r.choice(['i=35', 'i=47', 'i=46']) for k in cls}
    members = [('a', r.choice(['i=6', 'i=12', 'i=1']), r.random() < 0.3), ('b', r.choice(['i=6', 'i=12', 'i=1']), False)]
    NM = {'i=6': 'Int32', 'i=12': 'String', 'i=1': 'Boolean'}

    def lit(t):
        x = {'i=6': lambda: str(r.choice([0, -1, 2147483647, r.randint(-999, 999)])), 'i=12': lambda: r.choice(['q', 'äö', 'z' * 50]), 'i=1': lambda: r.choice(['true', 'false'])}[t]()
        if t != 'i=12':
            c.tab.setdefault(NM[t], {})[x] = x
        return x

    def leaf(n, t, arr=False):
        return E(n, c=[E(NM[t], c=[T(lit(t))]) for _ in range(r.randint(1, 3))] if arr else [T(lit(t))])
    inner = lambda: [leaf(n, t, arr) for n, t, arr in members if r.random() < 0.9]

    def value(ms):
        if r.random() < 0.2:
            return []
        return [E('Value', c=[E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=297')])]), E('Body', c=[E('V', c=ms)])])])]
    out = {}
    for kind in kinds:
        at = r.randint(1, 3)
        us = r.sample(other, at - 1)
        table = E('NamespaceUris', c=[E('Uri', c=[T(u)]) for u in us + ['urn:mine'] + r.sample([u for u in other if u not in us], r.randint(0, 1))])

        def me(k):
            if k not in key:
                key[k] = ('i=%d' if len(key) % 3 else 's=n%d') % num[len(key)]
            return c.lex.id('ns=%d;%s' % (at, key[k]), at, key[k])

        def node(k, cl, refs, body=(), **a):
            at_ = dict({'NodeId': me(k), 'BrowseName': c.lex.bn('%d:%s' % (at, k), at, k)}, **a)
            b = [E('DisplayName', c=[T('%s of %s' % (k, kind))]), E('References', c=refs)] + list(body)
            return E(cl, at_, b)
        R = lambda t, g, fw=False: ref(c, t, g, fw)

        def kid(k, p, extra=()):
            if r.random() < 0.3:
                return node(k, cls[k], list(extra) + ([R(rel[k], me(p))] if r.random() < 0.5 else []), ParentNodeId=me(p))
            return node(k, cls[k], [R(rel[k], me(p))] + list(extra))
        top = lambda k, extra=(): node(k, cls[k], [R(rel[k], 'i=85')] + list(extra))
        sub = lambda k, cl, p, body=(): node(k, cl, [R('i=45', p)], body)
        def struct(ms):
            return [E('Definition', {'Name': 'S'}, [E('Field', dict({'Name': n, 'DataType': t}, **({'ValueRank': c.lex.int('1', 1)} if arr else {}))) for n, t, arr in ms])]
        if kind == 'P':
            body = [top('p'), kid('p2', 'p')]
        elif kind == 'C':
            body = [kid('c', 'p'), kid('c2', 'c')]
        elif kind == 'Q':
            body = [top('q', [R(own, me('c'), True), R(own, me('c2'))])]
        elif kind == 'R':
            body = [sub('rt', 'UAReferenceType', 'i=32'), sub('rt2', 'UAReferenceType', me('rt'))]
        elif kind == 'T':
            body = [top('t', [R(me('rt2'), me('p'), True), R(own, me('t'), True)])]
        elif kind == 'D':
            body = [sub('d', 'UADataType', 'i=22', struct(members))]
        elif kind == 'E':
            body = [sub('e', 'UADataType', 'i=22', struct([('x', me('d'), False), ('y', 'i=12', True)])),
                    node('v', 'UAVariable', [R('i=35', 'i=85')], value([E('x', c=inner()), leaf('y', 'i=12', True)]), DataType=me('e'))]
        elif kind == 'S':
            body = [sub('s', 'UADataType', me('d'), struct([('z', 'i=6', False)])),
                    node('w', 'UAVariable', [R('i=47', me('p')), R(me('rt'), me('t'), True)], value(inner() + [leaf('z', 'i=6')]), DataType=me('s'))]
        elif kind == 'M':
            body = [top('p'), top('m', [R(own, me('p2'), True), R(own, me('q'))])]
        elif kind == 'Y':
            body = [node('y1', 'UAObject', [R('i=47', me('y2'))]), node('y2', 'UAObject', [R('i=47', me('y1'))])]
        else:
            body = [node('b', 'UAObject', [R('i=35', 'i=85')])]
        r.shuffle(body)
        d = E('UANodeSet', c=[table] + body)
        x = render(d, r, PLAIN)
        if kind == 'B':
            x = x[:x.rindex(b'</UANodeSet')] + r.choice([b'', b'</UAObject>', b'<UADataType NodeId="ns=1;i=77"><Definition><Field Name="a"/>'])
        out[kind] = (c.doc(d), c.file(x), 'fail' if kind == 'B' else 'ok')
    return out


def loads(part, cid, r):
    import back, fam_back
    c = back.SCase(cid, 'histories of the model Reload')
    files = loadfiles(c, r, sorted({f for h in part for _, f in h}))
    fam_back.defaults(c)
    for h in part:
        ss = sorted({s for s, _ in h})
        for s in ss:
            c.snew(s, r.sample(['urn:mine', 'urn:h', 'urn:o0'], r.randint(0, 2)))
        for s, f in h:
            d, fl, exp = files[f]
            c.load(s, d, fl, r.choice(['plain', 'plain', 'ext']), exp)
        for s in ss:
            c.ops.append(('sdel', s))
    c.ops.append(('ledger',))
    return c


def reload(quick, rnd, res, k, servers, kinds, limit):
    tla = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    hs = enum('Reload', {'K': k, 'Servers': tla(servers), 'Kinds': tla(kinds)}, 'LOADS', ['Keeps', 'Once', 'Again', 'Sound', 'Whole', 'Emit'], res)
    total = len(hs)
    hs = rnd.sample(hs, min(limit or total, total))
    return [loads(hs[i:i + 8], 'r%d%d_%04d' % (len(servers), k, i // 8), random.Random(rnd.getrandbits(64))) for i in range(0, len(hs), 8)], {'model': total, 'replayed': len(hs)}


RELOAD = [('model of loading again, 1 server', reload, (4, 'A', 'PCQRTDESMBY', 1200), (4, 'A', 'PCQRTDESMBY', 0)),
          ('model of loading again, 2 servers', reload, (3, 'AB', 'PCQRTDESMBY', 400), (4, 'AB', 'PCDESM', 8000))]
# ------------------------------------------------------------------ namespaces and aliases
URIS = [('urn:a', 'urn:a/'), ('urn:A', 'urn:a'), ('http://x/y', 'http://x'), ('urn:é', 'urn:e'), ('a', 'b'), ('urn:0123456789abcdef', 'urn:0123456789abcdeg'), ('urn:a&b', 'urn:a')]
NAMES = ['X', 'Organizes', 'i=1', 'ns=1;i=1', 'é', 'HasComponent2', '1', 'x y']


def filed(c, r, f, names, k, first, server):
    """the document of a file of the model Names: k-th of its history"""
    X = r.choice(NAMES)
    idt = lambda i, x: c.lex.id('ns=%d;%s' % (i, x), i, x)
    u = E('NamespaceUris', c=[E('Uri', c=[T(names[x])]) for x in f['t']])
    al = E('Aliases', c=[E('Alias', {'Alias': X}, [T(idt(i, first))]) for i in f['a']])
    refs = [ref(c, 'i=47', 'i=85')]
    a = {'NodeId': idt(f['i'], 'i=%d' % (1000 + k)), 'BrowseName': c.lex.bn('%d:n' % f['i'], f['i'], 'n')}
    cls = 'UAObject'
    if f['a']:
        refs.append(ref(c, r.choice(['i=35', 'i=41'] if server else ['i=35', 'i=37']), X, True))
        if not server and r.random() < 0.5:
            cls = r.choice(['UAVariable', 'UAVariableType']); a['DataType'] = X
    r.shuffle(refs)
    parts = [x for x, y in ((u, f['t']), (al, f['a'])) if y or r.random() < 0.5]
    return E('UANodeSet', c=parts + [E(cls, a, [E('References', c=refs)])])


def named(part, cid, r, server):
    if server:
        import back, fam_back
        c = back.SCase(cid, 'files of the model Names'); fam_back.defaults(c)
    else:
        c = Case(cid, 'files of the model Names')
        if r.random() < 0.5:
            c.pre.append('nsbase\t%d' % r.randint(1, 5))
    ns0(c, 33, 35, 37, 41, 45, 47, 85, 24, 63, 58)
    k = 0
    for j, h in enumerate(part):
        L = 'LM'[j % 2]
        us = r.choice(URIS); names = {'a': us[0], 'b': us[1]}
        first = 'i=%d' % (1000 + k)
        if server:
            c.snew(L, [names[x] for x in r.sample('ab', r.choice([0, 0, 1, 2]))] + r.sample(['urn:other'], r.randint(0, 1)))
        else:
            c.new(L, r.choice(['int', 'cust']), 'cap')
        for f in h:
            d = filed(c, r, f, names, k, first, server); k += 1
            fl = c.file(render(d, r, PLAIN))
            if server:
                c.load(L, c.doc(d), fl, 'plain', 'ok')
            else:
                c.imp(L, c.doc(d), fl, 'plain')
        for o in ('sdel',) if server else ('sort', 'dump', 'del'):
            c.op(o, L)
    c.op('ledger')
    return c


def namings(quick, rnd, res, k, big, limit, server):
    hs = enum('Names', {'K': k, 'Big': big}, 'FILES', ['Right', 'Injective', 'Emit'], res)
    total = len(hs)
    hs = rnd.sample(hs, min(limit or total, total))
    per = 10 if server else 25
    return [named(hs[i:i + per], 'n%d%s%s_%04d' % (k, big[0].lower(), 's' if server else '', i // per), random.Random(rnd.getrandbits(64)), server)
            for i in range(0, len(hs), per)], {'model': total, 'replayed': len(hs)}


NAMED = lambda q2, q3, server=False: [('model of names, 2 files', namings, (2, 'TRUE', q2, server), (2, 'TRUE', 0, server)),
                                      ('model of names, 3 files', namings, (3, 'FALSE', q3, server), (3, 'FALSE', 0, server))]
# ------------------------------------------------------------------ values of structures
def valued(part, cid, r):
    import back, fam_back
    c = back.SCase(cid, 'values of the model Values'); ns0(c, 22, 29, 45, 35, 85, 24, 63, 297, 1, 2, 3, 6, 7, 8, 9, 11, 12)
    fam_back.defaults(c)
    num = iter(r.sample(range(1, 3000), 2000))
    new = lambda: (lambda t: c.lex.id('ns=1;' + t, 1, t))('i=%d' % next(num))
    lexed = lambda k, t, v=None: c.tab.setdefault(k, {}).__setitem__(t, t if v is None else v) or t
    RANGE = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int32': (-2**31, 2**31 - 1), 'UInt32': (0, 2**32 - 1), 'Int64': (-2**63, 2**63 - 1), 'UInt64': (0, 2**64 - 1), 'Enum': (0, 2**31 - 1)}
    NUM = {'Byte': 3, 'SByte': 2, 'Int32': 6, 'UInt32': 7, 'Int64': 8, 'UInt64': 9, 'Boolean': 1, 'String': 12}
    b, i4, d8 = r.choice(['Byte', 'SByte', 'Boolean']), r.choice(['Int32', 'UInt32']), r.choice(['Int64', 'UInt64'])

    def lit(k):
        if k == 'Boolean':
            return lexed(k, r.choice(['true', 'false']))
        if k == 'String':
            return r.choice(['x', 'äö', 'some text', 'y' * 300])
        lo, hi = RANGE[k]
        t = str(r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -99), 99)]))
        return lexed(k, t)
    T1 = {'B': b, 'I': i4, 'D': d8, 'O': i4, 'A': b, 'S': 'String'}
    own = {'N': new(), 'U': new(), 'E': new()}
    els = []

    def dtype(id, sup, fields, **a):
        fs = [E('Field', dict({'Name': n, 'DataType': t}, **x)) for n, t, x in fields]
        els.append(E('UADataType', {'NodeId': id, 'BrowseName': c.lex.bn('t', 0, 't')}, [E('References', c=[ref(c, 'i=45', sup)]), E('Definition', dict({'Name': 'T'}, **a), fs)]))
    dtype(own['N'], 'i=22', [('n1', 'i=%d' % NUM[b], {}), ('n2', 'i=%d' % NUM[i4], {})])
    dtype(own['U'], 'i=22', [('u1', 'i=%d' % NUM[b], {}), ('u2', 'i=%d' % NUM[i4], {})], IsUnion='true')
    dtype(own['E'], 'i=29', [('e%d' % k, 'i=24', {'Value': c.lex.int(str(k), k)}) for k in range(2)])
    shapes = {}

    def shape(kinds):
        if kinds not in shapes:
            shapes[kinds] = new()
            fs = []
            for j, k in enumerate(kinds):
                x = {'IsOptional': 'true'} if k == 'O' else {'ValueRank': c.lex.int('1', 1)} if k == 'A' else {}
                fs.append(('m%d' % j, own.get(k) or 'i=%d' % NUM[T1[k]], x))
            dtype(shapes[kinds], 'i=22', fs)
        return shapes[kinds]

    def leaf(n, k):
        return E(n, c=[T(lit(k))])

    def switch(v):
        lexed('UInt32', str(v)); c.lex.int(str(v), v)
        return E('SwitchField', c=[T(str(v))])

    def member(n, k, s):
        if s == 'absent':
            return []
        if s == 'empty':
            return [E(n)]
        if k in 'AN' or k == 'U':
            if s == 'bad':
                return [E(n, c=[T('x')])]
        elif s == 'bad':
            return [E(n, c=[E('Odd', c=[T('1')])])]
        if k == 'A':
            one = lambda: E(n, c=[leaf(b, b) for _ in range(r.choice([1, 2, 3]))])
        elif k == 'N':
            one = lambda: E(n, c=([leaf('n1', b)] if s in ('good', 'first') else [E('n1', c=[E('Odd')])] if s == 'badpart' else []) + ([leaf('n2', i4)] if s in ('good', 'second', 'badpart') else []))
        elif k == 'U':
            one = lambda: E(n, c={'good': lambda: [switch(1), leaf('u1', b)], 'second': lambda: [switch(2), leaf('u2', i4)], 'zero': lambda: [switch(0)],
                                  'bare': lambda: [switch(2)], 'wrong': lambda: [switch(3)]}[s]())
        elif k == 'E':
            one = lambda: leaf(n, 'Enum')
        else:
            one = lambda: leaf(n, T1[k])
        return [one(), one()] if s == 'twice' else [one()]

    def body(kinds, sts, odd):
        ms = [member('m%d' % j, k, s) for j, (k, s) in enumerate(zip(kinds, sts))]
        if odd == 'reverse':
            ms.reverse()
        ms = [e for m in ms for e in m]
        if odd == 'unknown':
            ms.insert(r.randint(0, len(ms)), E('Strange', c=[T('1')] if r.random() < 0.5 else [E('m0', c=[T('1')])]))
        return E('V', c=ms)
    groups = {}
    for kinds, sts, odd in part:
        groups.setdefault(''.join(kinds), []).append((sts, odd))
    ws = []
    for kinds, vs in groups.items():
        while vs:
            k = r.choice([1, 1, 1, 2, 3])
            ws.append((kinds, vs[:k], k > 1)); vs = vs[k:]
    for n, (kinds, vs, arr) in enumerate(ws):
        t = shape(kinds)
        eos = [E('ExtensionObject', c=[E('TypeId', c=[E('Identifier', c=[T('i=297')])]), E('Body', c=[body(kinds, *v)])]) for v in vs]
        els.append(E('UAVariable', dict({'NodeId': new(), 'BrowseName': c.lex.bn('v%d' % n, 0, 'v%d' % n), 'DataType': t}, **({'ValueRank': c.lex.int('1', 1)} if arr else {})),
                     [E('References', c=[ref(c, 'i=35', 'i=85')]), E('Value', c=[E('ListOfExtensionObject', c=eos) if arr else eos[0]])]))
    r.shuffle(els)
    d = E('UANodeSet', c=[uris(1)] + els)
    c.snew('A', [])
    q, f = c.doc(d), c.file(render(d, r, r.choice([PLAIN, MIXED])))
    c.load('A', q, f)
    c.ops.append(('sdel', 'A')); c.ops.append(('ledger',))
    return c


def values(quick, rnd, res, k, kinds, limit):
    vs = enum('Values', {'K': k, 'Kinds': '{%s}' % ', '.join('"%s"' % x for x in kinds)}, 'VALUE', ['None', 'Value', 'Right', 'NothingElse', 'Emit'], res)
    total = len(vs)
    vs = rnd.sample(vs, min(limit or total, total))
    return [valued(vs[i:i + 40], 'w%d_%05d' % (k, i // 40), random.Random(rnd.getrandbits(64))) for i in range(0, len(vs), 40)], {'model': total, 'replayed': len(vs)}


ALL = 'Object Variable Method View ObjectType VariableType DataType ReferenceType'
ADD = lambda q, t: [
    ('model of adding nodes, 3 nodes', addnodes, (3, 'Object Variable Method ObjectType DataType', 'FALSE', '{0, 10, 20}', q[0]), (3, ALL, 'FALSE', '{0, 10, 20}', t)),
    ('model of adding nodes, type definitions', addnodes, (3, 'Object Variable ObjectType VariableType', 'TRUE', '{0, 10}', q[1]), (3, 'Object Variable ObjectType VariableType', 'TRUE', '{0, 10}', t)),
] + ([('model of adding nodes, 4 nodes', addnodes, (4, 'Object Variable Method', 'FALSE', '{0, 10}', q[2]), (4, 'Object Variable Method View', 'FALSE', '{0, 10}', t))])
# property -> [(family, function, arguments for quick, arguments for thorough)]
LIFE = lambda q, t, two=(0, 0): [('model of the life of a loader', lifecycle, (6, 'A', 'PCURSKBM', q), (6, 'A', 'PCURSKBM', t))] + (
    [('model of the life of two loaders', lifecycle, (6, 'AB', 'PURM', two[0]), (6, 'AB', 'PURM', two[1]))] if two[0] else [])
PLAN = {
    'C04': NAMED(3000, 1000),
    'C05': NAMED(3000, 600),
    'C23': NAMED(1000, 500, True),
    'C19': ADD((1200, 1200, 400), 8000),
    'C20': ADD((1200, 600, 1200), 12000),
    'C15': LIFE(2500, 40000),
    'C21': LAY,
    'C22': [('model of values, 2 members', values, (2, 'BIDAONUSE', 2500), (2, 'BIDAONUSE', 0)), ('model of values, 3 members', values, (3, 'BANU', 1500), (3, 'BIAONU', 40000))],
    'C26': RELOAD,
    'C18': LIFE(2500, 40000, (1500, 20000)),
    'C25': LIFE(800, 10000, (3000, 60000)),
    'C02': [('model of the hierarchy', hierarchy, (4, 0, 1, 30), (4, 0, 8, 30))],
    'C03': [('model of the hierarchy', hierarchy, (4, 0, 1, 30), (4, 0, 8, 30))] + LIFE(800, 10000),
    'C06': [('model of the classification, %d types' % k, classify, q, t) for k, q, t in (
        (2, (2, 2, 'any', 0), (2, 2, 'any', 0)), (3, (3, 1, 'any', 1500), (3, 1, 'any', 0)), (4, (4, 1, 'HasSubtype', 800), (4, 1, 'HasSubtype', 0)))]
        + [('model of the classification, 3 types, 2 supertypes', classify, (3, 2, 'HasSubtype', 1500), (3, 2, 'HasSubtype', 0))],
    'C07': [('model of the hierarchy', hierarchy, (4, 1500, 1, 30), (4, 0, 4, 30))],
    'C17': [('model of the hierarchy', hierarchy, (4, 1500, 1, 30), (4, 0, 4, 30))] + LIFE(2000, 40000),
    'C24': [('model of the hierarchy', hierarchy, (4, 1200, 3, 15), (4, 0, 8, 15))],
}


def plan(prop, quick, rnd, res):
    import sax
    out = sax.plan(prop, quick, rnd, res)
    for name, f, q, t in PLAN.get(prop, []):
        cs, info = f(quick, rnd, res, *(q if quick else t))
        res.cov.setdefault('enumerated', {})[name] = info
        out.append((name, cs))
    return out
