"""Documents enumerated by TLC from spec/Sax.tla (the import as a state machine),
filled with texts and attributes, and put together to cases for the real loader."""
import json, re
import gen, vlib
from cases import Case
from gen import E, T, render, PLAIN, MIXED, WILD

CACHE = {}
ROOT = {'node': 1, 'value': 2, 'ext': 1, 'top': 0}


def shapes(scope, elems, wild, res=None):
    """all documents of the model; TLC checks on the way that the automaton
    makes of each what it means"""
    key = (scope, elems, wild)
    if key not in CACHE:
        d = vlib.workdir('sax_%s_%d_%d' % key)
        cfg = d + '/Sax.cfg'
        with open(cfg, 'w') as o:
            o.write('SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANTS Scope = "%s"\n MaxElems = %d\n MaxWild = %d\n TextMode = "all"\n' % key)
        r = vlib.model_check('Sax', cfg, d=d, heap='8g')
        if res:
            res.model(r, 'Sax %s, %d elements, %d of them misplaced' % key)
        out = [json.loads(l.replace('\\"', '"')) for l in re.findall(r'^"DOC (.*)"$', r.out, re.M)]
        if not out:
            raise vlib.ToolError('no documents from Sax')
        CACHE[key] = sorted(out, key=json.dumps)
    return CACHE[key]


class Fill:
    def __init__(self, c, r, scope):
        self.c, self.r, self.scope, self.n = c, r, scope, 0
        self.tx = r.choice([0.0, 0.5, 0.5, 1.0])     # how much text
        self.names, self.uris = [], 0

    def text(self):
        self.n += 1
        return self.r.choice(['t%d' % self.n, 't%d' % self.n, 'é%d ' % self.n, ' ', '\n  ', '<&%d>' % self.n, ' u%d' % self.n])

    def gaps(self, kids, whole=None):
        """texts between the children; whole: the texts together give this text"""
        out, r = [], self.r
        cut = None
        if whole is not None:
            cut = sorted(r.randint(0, len(whole)) for _ in kids) + [len(whole)]
        pos = 0
        for i in range(len(kids) + 1):
            if whole is not None:
                if whole[pos:cut[i]]:
                    out.append(T(whole[pos:cut[i]]))
                pos = cut[i]
            elif r.random() < self.tx:
                out.append(T(self.text()))
            if i < len(kids):
                out.append(kids[i])
        return out

    def idtext(self):
        r = self.r
        s = r.choice(['i=85', 'i=%d' % r.randint(60, 99), 's=é;x', 's=abc', 'i=4294967295'])
        return self.c.lex.id(s, 0, s)

    def el(self, sh, up, top=False):
        r, (e, ks) = self.r, sh
        self.n += 1
        a, whole = {}, None
        if e in gen.CLS and (top or r.random() < 0.8):
            a = {'NodeId': self.c.lex.id('s=n%d' % self.n, 0, 's=n%d' % self.n), 'BrowseName': self.c.lex.bn('b%d' % self.n, 0, 'b%d' % self.n)}
        elif e in ('DisplayName', 'Description', 'InverseName') and r.random() < 0.4:
            a = {'Locale': r.choice(['en', 'de', ''])}
        elif e == 'Reference':
            if r.random() < 0.9:
                k = r.choice([33, 35, 47, 46, 37, 41, 39]); a['ReferenceType'] = self.c.lex.id('i=%d' % k, 0, 'i=%d' % k)
            if r.random() < 0.6:
                a['IsForward'] = r.choice(['true', 'false', 'false', '1', '0'])
            if r.random() < 0.8:
                whole = self.idtext()
        elif e == 'Field':
            a['Name'] = 'f%d' % self.n
            if r.random() < 0.4:
                v = r.randint(-5, 50); a['Value'] = self.c.lex.int(str(v), v)
            else:
                if r.random() < 0.7:
                    k = r.choice([1, 6, 12]); a['DataType'] = self.c.lex.id('i=%d' % k, 0, 'i=%d' % k)
                if r.random() < 0.4:
                    a['ValueRank'] = self.c.lex.int('1', 1)
                if r.random() < 0.4:
                    a['IsOptional'] = r.choice(['true', 'false', '1'])
        elif e == 'Definition' and r.random() < 0.5:
            a = {k: r.choice(['true', 'false', 'false', '1']) for k in r.sample(['IsUnion', 'IsOptionSet', 'Name'], r.randint(1, 2))}
        elif e == 'Alias':
            if r.random() < 0.95:
                a['Alias'] = r.choice(['A', 'B', 'A%d' % self.n])
                if up in ('UANodeSet', 'Aliases', 'Extensions'):
                    self.names.append(a['Alias'])
            if r.random() < 0.9:
                whole = self.idtext()
        elif e == 'Uri':
            if r.random() < 0.9:
                whole = 'urn:x%d' % r.randint(0, 3) if r.random() < 0.4 else 'urn:y%d' % self.n
        elif e == 'Identifier' and r.random() < 0.8:
            whole = self.idtext()
        elif self.scope == 'ext' and r.random() < 0.5:
            a = {k: gen.text(r, 'short') for k in r.sample(['a', 'b', 'Name'], r.randint(1, 2))}
        return E(e, a, self.gaps([self.el(k, e) for k in ks], whole))


def strip(sh, depth):
    for _ in range(depth):
        sh = sh[1][0]
    return sh


def packed(scope, part, cid, r, style, mode):
    """one document with many nodes, each a document of the model"""
    c = Case(cid, 'documents of the model Sax, scope ' + scope)
    kids = []
    c.new('A', r.choice(['int', 'cust']), r.choice(['cap', 'int']))
    for sh in part:
        f = Fill(c, r, scope); f.n = len(kids) * 100
        kids.append(f.el(strip(sh, 1), 'UANodeSet', True))
        if style is not PLAIN and r.random() < 0.02:
            kids.append(E('Foo', c=[E('UAObject')]))
    doc = E('UANodeSet', c=kids)
    c.imp('A', c.doc(doc), c.file(render(doc, r, style, r.choice([0, r.randint(1, 1024)]))), mode or r.choice(['plain', 'ext', 'ext']))
    c.op('sort'); c.op('dump'); c.op('del'); c.op('ledger')
    return c


def tops(part, cid, r, style):
    """many small documents, each with a loader of its own"""
    c = Case(cid, 'documents of the model Sax, scope top')
    c.pre.append('nsbase\t%d' % r.choice([1, 2, 7]))
    for i, sh in enumerate(part):
        L = 'LM'[i % 2]
        f = Fill(c, r, 'top')
        doc = f.el(sh, '')
        # a last node that shows what the names and indices stand for
        rs = [E('Reference', {'ReferenceType': c.lex.id('i=41', 0, 'i=41')}, [T(n)]) for n in dict.fromkeys(f.names)]
        a = {'NodeId': c.lex.id('ns=1;s=probe', 1, 's=probe'), 'BrowseName': c.lex.bn('2:probe', 2, 'probe')}
        doc['c'].append(E('UAVariable', a, [E('References', c=rs)]))
        c.new(L, 'int', 'cap')
        c.imp(L, c.doc(doc), c.file(render(doc, r, style)), 'plain')
        for o in ('sort', 'dump', 'del'):
            c.op(o, L)
    c.op('ledger')
    return c


def cases(prefix, rnd, scope, elems, wild, limit, per, want=None, mode=None, styles=(PLAIN, MIXED), res=None):
    """all documents of the model (or a sample of them) as cases"""
    import random
    sh = shapes(scope, elems, wild, res)
    total = len(sh)
    if want:
        sh = [s for s in sh if want(json.dumps(s))]
    n = len(sh)
    if limit and n > limit:
        sh = rnd.sample(sh, limit)
    else:
        sh = list(sh); rnd.shuffle(sh)
    out = []
    for i in range(0, len(sh), per):
        r = random.Random(rnd.getrandbits(64))
        cid = '%s%04d' % (prefix, i // per)
        st = r.choice(styles)
        out.append(tops(sh[i:i + per], cid, r, st) if scope == 'top' else packed(scope, sh[i:i + per], cid, r, st, mode))
    return out, {'model': total, 'in_question': n, 'replayed': len(sh)}


ALL = (PLAIN, MIXED, WILD)
N3, N4 = ('node', 3, 1), ('node', 4, 1)
V4, V5, V6 = ('value', 4, 1), ('value', 5, 1), ('value', 5, 2)
X4, X5 = ('ext', 4, 1), ('ext', 5, 2)
T3, T4 = ('top', 3, 1), ('top', 4, 1)


def has(*names):
    return lambda s: any('"%s"' % n in s for n in names)


# property -> (model for quick, limit, model for thorough, limit, condition, mode, spelling)
PLAN = {
    'C01': [(T3, 0, T4, 0, has('UAObject', 'UADataType'), None, (PLAIN, MIXED))],
    'C04': [(T3, 0, T4, 0, has('Uri'), None, (PLAIN, MIXED))],
    'C05': [(T3, 0, T4, 0, has('Alias'), None, (PLAIN, MIXED))],
    'C07': [(N3, 6000, N4, 60000, has('Reference'), None, (PLAIN, MIXED))],
    'C08': [(N3, 6000, N4, 60000, has('DisplayName', 'Description', 'InverseName'), None, (PLAIN, MIXED))],
    'C09': [(N3, 4000, N4, 40000, None, 'ext', (WILD,)), (V4, 4000, V5, 40000, None, 'plain', (WILD,)), (T3, 900, T4, 0, None, None, (WILD,))],
    'C10': [(N3, 0, N4, 150000, None, None, (PLAIN, MIXED)), (V4, 6000, V5, 0, None, None, (PLAIN, MIXED)), (X4, 0, X5, 30000, None, 'ext', (PLAIN, MIXED)), (T3, 0, T4, 0, None, None, (PLAIN, MIXED))],
    'C11': [(V4, 0, V6, 200000, None, None, ALL)],
    'C12': [(N3, 6000, N4, 60000, has('Definition'), None, (PLAIN, MIXED))],
    'C14': [(X4, 0, X5, 60000, None, 'ext', ALL), (N3, 3000, N4, 20000, has('Extension'), 'ext', (PLAIN, MIXED))],
}


def plan(prop, quick, rnd, res):
    """cases of all models of a property: [(family, [case])]"""
    out = []
    for i, (q, ql, t, tl, want, mode, styles) in enumerate(PLAN.get(prop, [])):
        (scope, n, w), limit = (q, ql) if quick else (t, tl)
        per = 30 if scope == 'top' else 120
        cs, info = cases('x%d_' % i, rnd, scope, n, w, limit, per, want, mode, styles, res)
        name = 'model of the import: ' + scope
        res.cov.setdefault('enumerated', {})[name] = dict(info, elements=n, misplaced=w)
        out.append((name, cs))
    return out
