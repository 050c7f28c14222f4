"""Cases for the open62541 backend: histories of loads into servers, run on the
real code and judged by spec/JudgeServer.tla."""
import json, os, random
import cases, vlib
from cases import Case


class SCase(Case):
    back = True

    def __init__(self, cid, note=''):
        Case.__init__(self, cid, note)
        self.tab = {}       # kind -> text -> canonical text
        self.dims = {}

    def use(self, world):
        Case.use(self, world)
        for k, v in world.lex.tab.items():
            self.tab.setdefault(k, {}).update(v)
        self.dims.update(world.lex.dims)

    def snew(self, S='A', uris=()):
        self.ops.append(('snew', S, list(uris)))

    def nsadd(self, S, uri):
        self.ops.append(('nsadd', S, uri))

    def load(self, S, doc, file, mode='plain', exp='ok'):
        self.ops.append(('load', S, doc, file, mode, exp))

    def lines(self, ops, d):
        out = []
        for o in ops:
            if o[0] == 'snew':
                out.append('\t'.join(['snew', o[1]] + o[2]))
            elif o[0] == 'nsadd':
                out.append('nsadd\t%s\t%s' % (o[1], o[2]))
            elif o[0] == 'load':
                out += ['load\t%s\t%s\t%s' % (o[1], self.path(d, o[3]), o[4]), 'sdump\t%s' % o[1]]
            elif o[0] == 'ledger':
                out.append('ledger')
            else:
                out.append('%s\t%s' % (o[0], o[1]))
        return out

    def group(self, raw):
        ev, i, n = [], 0, len(raw)

        def until(name):
            nonlocal i
            got = []
            while i < n and raw[i]['ev'] not in (name, 'end', 'done'):
                got.append(raw[i]); i += 1
            if i < n and raw[i]['ev'] == name:
                i += 1
                return got, raw[i - 1]
            return got, None
        for o in self.ops:
            if o[0] == 'load':
                got, e = until('load')
                if e is None:
                    break
                dump, b = until('sdump')
                if b is None:
                    break
                ev.append({'ev': 'load', 'S': o[1], 'doc': o[2], 'mode': o[4], 'exp': o[5], 'ret': e['ret'], 'logged': o[4] not in ('nopath', 'noserver'),
                           'logs': [x['lv'] for x in got if x['ev'] == 'log' and x['S'] == o[1]], 'xd': [x['d'] for x in got if x['ev'] == 'xnew'],
                           'post': {'ns': next(x['uris'] for x in dump if x['ev'] == 'ns'), 'nodes': [cut(x) for x in dump if x['ev'] == 'snode'],
                                    'brefs': [cut(x) for x in dump if x['ev'] == 'bnode'], 'types': [cut(x) for x in dump if x['ev'] == 'stype'], 'base': b['base']}})
            elif o[0] in ('snew', 'nsadd', 'sdel', 'ledger'):
                got, e = until(o[0])
                if e is None:
                    break
                ev.append(e if o[0] == 'ledger' else {'ev': 'snew', 'S': o[1], 'uris': o[2]} if o[0] == 'snew' else
                          {'ev': 'nsadd', 'S': o[1], 'uri': o[2]} if o[0] == 'nsadd' else {'ev': 'sdel', 'S': o[1]})
        ev += [{'ev': x['ev'], 'how': x.get('how', '')} for x in raw[i:] if x['ev'] in ('done', 'end')]
        return ev

    def judged(self, raw):
        t = {k: dict(self.tab.get(k, {}), **{DUMMY: '_'}) for k in KINDS}
        return {'id': self.id, 'ids': dict(self.lex.ids, **{DUMMY: [0, 'i=0']}), 'bns': dict(self.lex.bns, **{DUMMY: [0, '_']}), 'ints': dict(self.lex.ints, **{DUMMY: 0}),
                'lex': t, 'dims': dict(self.dims, **{DUMMY: []}), 'neg': ['_'] + [v for v in t['Int32'].values() if v.startswith('-')], 'docs': self.docs, 'ev': self.group(raw)}


DUMMY = cases.DUMMY
KINDS = ['Boolean', 'SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'DateTime', 'ByteString', 'Guid', 'Enum']


def cut(x):
    x = dict(x); x.pop('ev'); x.pop('al', None); return x


def host():
    """the server before any load, as data for the specification"""
    exe = vlib.build('h_back')
    p = os.path.join(os.path.dirname(exe), 'host.ndjson')
    if not os.path.exists(p):
        d = vlib.workdir('host%d' % os.getpid())
        raw = vlib.run_scenarios(exe, [('host', ['sbase'])], d)['host']
        h = {'ns': next(x['uris'] for x in raw if x['ev'] == 'ns'),
             'nodes': [{'id': x['id'], 'cls': x['cls'], 'abs': x['abs'], 'sup': [r['g'] for r in x['refs'] if not r['f'] and r['t'] == [0, 'i=45']]} for x in raw if x['ev'] == 'base'],
             'types': [{k: v for k, v in x.items() if k != 'ev'} for x in raw if x['ev'] == 'btype']}
        if not h['nodes'] or not h['types'] or raw[-1] != {'ev': 'end', 'how': 'ok'}:
            raise vlib.ToolError('host cannot be read')
        with open(p + '.%d' % os.getpid(), 'w') as o:
            o.write(json.dumps(h) + '\n')
        os.rename(p + '.%d' % os.getpid(), p)
    return p
