"""Cases for the loader library: histories of calls with generated nodesets,
run on the real code and judged by spec/Judge.tla."""
import copy, json, os, random, re
import gen, vlib
from gen import E, T, World, render, PLAIN, MIXED, WILD


DUMMY = '\x7f_'     # a key that keeps a JSON object from being empty


class Case:
    back = False        # on the loader library; True: on the backend

    def __init__(self, cid, note=''):
        self.id, self.note = cid, note
        self.lex = gen.Lex()
        self.family = ''
        self.docs, self.files, self.ops, self.pre = [], [], [], []

    def doc(self, tree):
        self.docs.append(tree); return len(self.docs)

    def file(self, data):
        self.files.append(data); return len(self.files) - 1

    def use(self, world):
        for k in ('ids', 'bns', 'ints'):
            getattr(self.lex, k).update(getattr(world.lex, k))

    # history
    def new(self, L='A', svc='int', log='cap'):
        self.ops.append(('new', L, svc, log))

    def imp(self, L, doc, file, mode='plain', exp='ok'):
        self.ops.append(('import', L, doc, file, mode, exp))

    def op(self, name, L='A'):
        self.ops.append((name, L))

    def commands(self, d):
        out = list(self.pre)
        for i, b in enumerate(self.files):
            if b == 'dir':
                os.makedirs(self.path(d, i), exist_ok=True)
            elif b is not None:
                with open(self.path(d, i), 'wb') as o:
                    o.write(b)
        return out + self.lines(self.ops, d)

    def lines(self, ops, d):
        out, open_ = [], False
        for o in ops:
            if o[0] == 'nest':
                out += ['n\t' + x for x in self.lines(o[2], d)] + ['nest\t%d' % o[1]]; open_ = True; continue
            elif o[0] == 'threads':
                for k, q in enumerate(o[1]):
                    out += ['t\t%d\t%s' % (k, x) for x in self.lines(q, d)]
                out.append('join')
            elif o[0] == 'new':
                out.append('new\t%s\t%s\t%s' % (o[1], o[2], o[3]))
            elif o[0] == 'import':
                out.append('import\t%s\t%s\t%s' % (o[1], self.path(d, o[3]), o[4]))
            elif o[0] == 'ledger':
                out.append('ledger')
            else:
                out.append('%s\t%s' % (o[0], o[1]))
            if open_:
                out.append('nestend'); open_ = False
        return out

    def path(self, d, i):
        return os.path.join(d, '%s_%d.xml' % (self.id, i))

    def group(self, raw):
        """raw events of the harness -> one event per call; events of nested
        calls and of threads are taken out and put before the surrounding call"""
        main, segs, depth = [], [], 0
        for x in raw:
            if x['ev'] == 'nest':
                segs.append([]); depth = 1
            elif x['ev'] == 'unnest':
                depth = 0
            elif depth and x['ev'] not in ('end', 'done'):
                segs[-1].append(x)
            else:
                main.append(x)
        return self.group1(self.ops, main, segs, {})

    def group1(self, ops, raw, segs, caplog):
        ev, i = [], 0
        n = len(raw)

        def until(name):
            nonlocal i
            got = []
            while i < n and raw[i]['ev'] not in (name, 'end', 'done'):
                got.append(raw[i]); i += 1
            if i < n and raw[i]['ev'] == name:
                i += 1
                return got, raw[i - 1]
            return got, None
        for o in ops:
            if o[0] in ('nest', 'threads'):
                for q in ([o[2]] if o[0] == 'nest' else o[1]):
                    ev += self.group1(q, segs.pop(0) if segs else [], [], caplog)
            elif o[0] == 'new':
                got, e = until('new')
                caplog[o[1]] = o[3] == 'cap'
                if e is None:
                    break
                ev.append({'ev': 'new', 'L': o[1], 'ret': e['ret'], 'svc': o[2]})
            elif o[0] in ('import', 'sort'):
                got, e = until(o[0])
                if e is None:
                    break
                r = {'ev': o[0], 'L': o[1], 'ret': e['ret'], 'caplog': caplog.get(o[1], False),
                     'logs': [x['lv'] for x in got if x['ev'] == 'log' and x['L'] == o[1]], 'foreign': [x['lv'] for x in got if x['ev'] == 'log' and x['L'] != o[1]],
                     'rt': [{'id': x['id'], 'hier': x['hier'], 'L': x['L']} for x in got if x['ev'] == 'newrt']}
                if o[0] == 'import':
                    r.update(doc=o[2], exp=o[5], mode=o[4], addns=[{'L': x['L'], 'uri': x['uri'], 'ret': x['ret']} for x in got if x['ev'] == 'addns'],
                             x=[{'ev': x['ev'], 'd': x['d'], 'n': x.get('n', ''), 'a': x.get('a', []), 'v': x.get('v', '')} for x in got if x['ev'] in ('xnew', 'xstart', 'xend', 'xfin')])
                ev.append(r)
            elif o[0] == 'dump':
                got, e = until('bidir')
                if e is None:
                    break
                ev.append({'ev': 'dump', 'L': o[1], 'nodes': [x for x in got if x['ev'] == 'node'], 'counts': [x for x in got if x['ev'] == 'count'], 'bidir': e['refs']})
            elif o[0] == 'del':
                got, e = until('del')
                if e is None:
                    break
                ev.append({'ev': 'del', 'L': o[1]})
            elif o[0] == 'ledger':
                got, e = until('ledger')
                if e is None:
                    break
                ev.append(e)
        ev += [{'ev': x['ev'], 'how': x.get('how', '')} for x in raw[i:] if x['ev'] in ('done', 'end')]
        return ev

    def judged(self, raw):
        return {'id': self.id, 'ids': dict(self.lex.ids, **{DUMMY: [0, 'i=0']}), 'bns': dict(self.lex.bns, **{DUMMY: [0, '_']}), 'ints': dict(self.lex.ints, **{DUMMY: 0}),
                'docs': self.docs, 'ev': self.group(raw)}


# ------------------------------------------------------------------ builders
def simple(cid, r, prof, style=None, log=None, mode=None, final=True):
    """one loader; all files imported, sorted once"""
    w = World(r, **prof)
    c = Case(cid); c.use(w)
    c.new('A', w.svc, log or r.choice(['cap', 'cap', 'int']))
    for d in w.docs:
        st = style or r.choice([PLAIN, PLAIN, MIXED, WILD])
        pad = r.choice([0, 0, 0, r.randint(1, 1024)])
        c.imp('A', c.doc(d), c.file(render(d, r, st, pad)), mode or r.choice(['plain', 'ext', 'ext']))
    c.op('sort'); c.op('dump')
    if final:
        c.op('del'); c.op('ledger')
    c.world = w
    return c


def wellformed(b):
    import xml.parsers.expat as x
    p = x.ParserCreate()
    try:
        p.Parse(b, True)
        return True
    except x.ExpatError:
        return False


def judge_run(res, tier, name, cases, prop, timeout=30, heap='3g', harness='h_core', module='Judge', tlimit=780, env={}):
    """runs the cases on the code and judges them; confirmed failures become violations"""
    env = dict(env, PROP=prop)
    d = vlib.workdir('%s_%s_%s' % (prop, tier, name))
    exe = vlib.build(harness)
    for c in cases:
        for o in c.ops:
            if o[0] in ('import', 'load') and o[5] == 'ok' and not wellformed(c.files[o[3]]):
                raise vlib.ToolError('generated document of %s is not well-formed' % c.id)
    scens = [(c.id, c.commands(d)) for c in cases]
    obs = vlib.run_scenarios(exe, scens, d, timeout)
    cases = [c for c in cases if not vlib.skipped(obs[c.id])]       # only after others have not come to an end
    jc = [c.judged(obs[c.id]) for c in cases]
    fails, st, tr = vlib.judge(module, jc, d, env=env, heap=heap, timeout=tlimit)
    cov = res.cov
    cov['states'] += st; cov['transitions'] += tr
    cov['traces_validated_against_impl'] += len(cases)
    fam = cov.setdefault('families', {})
    for c in cases:
        f = fam.setdefault(c.family, {'cases': 0, 'documents': 0, 'calls': 0, 'delivered': 0})
        f['cases'] += 1; f['documents'] += len(c.docs); f['calls'] += len(c.ops)
        f['delivered'] += sum(1 for x in obs[c.id] if x['ev'] in ('node', 'snode'))
        if f['cases'] == 1 and len(cov['samples']) < 6:
            first = next((x for x in c.files if isinstance(x, bytes) and x), b'')
            cov['samples'].append({'case': c.id, 'family': c.family, 'history': [list(map(str, o)) for o in c.ops][:8], 'document': first.decode('utf8', 'replace')[:600]})
    cov['distinct_nontrivial'] += len({hash(json.dumps([c.docs, c.ops], sort_keys=True)) for c in cases if any(x['ev'] in ('node', 'import', 'load') for x in obs[c.id])})
    cov['rule'] = 'a case is a history of calls with generated documents; non-trivial: at least one import happened; distinct by documents and calls'
    if fails:
        bad = [c for c in cases if c.id in fails]
        bad.sort(key=lambda c: sum(len(f or b'') for f in c.files))
        bad = bad[:12]
        d2 = vlib.workdir('%s_%s_%s_again' % (prop, tier, name))
        obs2 = vlib.run_scenarios(exe, [(c.id, c.commands(d2)) for c in bad], d2, timeout)
        bad = [c for c in bad if not vlib.skipped(obs2[c.id])]
        f2, _, _ = vlib.judge(module, [c.judged(obs2[c.id]) for c in bad], d2, env=env, heap=heap)
        if not f2:
            raise vlib.ToolError('failures that do not repeat: %s' % list(fails.values())[:3])
        for c in [c for c in bad if c.id in f2][:3]:
            files = {os.path.basename(c.path(d2, i)): b for i, b in enumerate(c.files) if isinstance(b, bytes)}
            files['scenario.txt'] = 'S %s\n%s\nE\n' % (c.id, '\n'.join(c.commands(d2)))
            files['observed.ndjson'] = '\n'.join(map(json.dumps, obs2[c.id]))
            err = os.path.join(d2, 'out', c.id + '.err')
            if os.path.exists(err):
                files['stderr.txt'] = open(err, 'rb').read()
            files['case.json'] = json.dumps(c.judged(obs2[c.id]))
            res.violation(f2[c.id], files, 'family %s %s\nrun: %s scenario.txt <outdir>; judge: TLC spec/%s.tla with TRACE=case.json PROP=%s' % (c.family, c.note, exe, module, prop))
    return obs


def many(prefix, n, rnd, f):
    return [f('%s%04d' % (prefix, i), random.Random(rnd.getrandbits(64))) for i in range(n)]


def run(res, tier):
    import families
    rnd = random.Random(vlib.seed() * 1000003 + int(res.prop[1:]))
    cs = []
    for k, (name, f, q, t) in enumerate(families.plan(res.prop)):
        new = many('%s%d_' % (chr(97 + k) if k < 26 else chr(39 + k), k), q if tier == 'quick' else t, rnd, f)
        for c in new:
            c.family = name
        cs += new
    import models
    for name, new in models.plan(res.prop, tier == 'quick', rnd, res):
        for c in new:
            c.family = name
        cs += new
    if not cs:
        raise vlib.ToolError('no families for ' + res.prop)
    # bounded memory: in portions
    n = 1500
    for back in (False, True):
        part = [c for c in cs if c.back == back]
        for i in range(0, len(part), n):
            opts = {}
            if back:
                import back as b
                opts = dict(harness='h_back', module='JudgeServer', env={'BASE': b.host()})
            judge_run(res, tier, '%s%d' % ('loads' if back else 'cases', i // n), part[i:i + n], res.prop, timeout=60, **opts)
            if res.violations:
                return
