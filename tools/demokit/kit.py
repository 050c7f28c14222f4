"""Builds the loader library of the current directory with a small driver and runs histories on it."""
import atexit, glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)
DRV = os.path.join(TMP, 'drv')


def build(backend=False):
    src = glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/*/*.c') + [HERE + '/drv/hcommon.c', HERE + '/drv/types.c', HERE + '/drv/types_table.c']
    if backend:
        src += glob.glob(REPO + '/backends/open62541/src/**/*.c', recursive=True) + glob.glob(HERE + '/drv/server*.c') + [HERE + '/drv/h_back.c']
    else:
        src += [HERE + '/drv/h_core.c']
    inc = ['-I' + HERE + '/drv/include', '-I' + HERE + '/drv', '-I' + REPO + '/include', '-I' + REPO + '/src',
           '-I' + REPO + '/backends/open62541/include', '-I' + REPO + '/backends/open62541/src', '-I/usr/include/libxml2']
    r = subprocess.run(['gcc', '-w', '-std=gnu99', '-O1', '-g', '-fsanitize=address', '-DUSE_CLEANUP_CUSTOM_DATATYPES=1'] + inc + src +
                       ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-lxml2', '-lm', '-lpthread', '-o', DRV],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:]); sys.exit(9)


N = [0]


def doc(text):
    """a file with this text; returns its path"""
    N[0] += 1
    p = os.path.join(TMP, 'd%d.xml' % N[0])
    with open(p, 'wb') as f:
        f.write(text.encode() if isinstance(text, str) else text)
    return p


def run(cmds, timeout=60):
    """commands of the driver -> events"""
    if not os.path.exists(DRV):
        build()
    N[0] += 1
    sid = 's%d' % N[0]
    f = os.path.join(TMP, sid + '.txt')
    with open(f, 'w') as o:
        o.write('S %s\n%s\nE\n' % (sid, '\n'.join('\t'.join(map(str, c)) for c in cmds)))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', LC_ALL='C')
    subprocess.run([DRV, f, TMP, str(timeout)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ev = []
    for l in open(os.path.join(TMP, sid + '.ndjson'), 'rb'):
        try:
            ev.append(json.loads(l.decode('utf8', 'replace'), strict=False))
        except ValueError:
            pass
    return ev


def load(*texts, **kw):
    """imports the texts with one loader, sorts, returns (events, nodes by id)"""
    cmds = list(kw.get('pre', [])) + [['new', 'A', 'int', 'cap']] + [['import', 'A', doc(t), kw.get('mode', 'plain')] for t in texts] + \
        [['sort', 'A'], ['dump', 'A'], ['del', 'A'], ['ledger']]
    ev = run(cmds)
    return ev, {n['id'][1] if n['id'][0] in (0, 2) else tuple(n['id']): n for n in ev if n['ev'] == 'node'}


def ok(ev):
    """the history ran to its end"""
    return any(e['ev'] == 'end' and e.get('how') == 'ok' for e in ev)


def expect(cond, what):
    if not cond:
        print('BROKEN:', what); sys.exit(1)


def nodeset(body, uris=('urn:one',)):
    return '<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd">\n<NamespaceUris>%s</NamespaceUris>\n%s\n</UANodeSet>\n' % (
        ''.join('<Uri>%s</Uri>' % u for u in uris), body)


def node(cls, nid, refs=(), attrs='', body='', bn=None):
    """refs: (type, target, forward)"""
    r = ''.join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if f else ' IsForward="false"', g) for t, g, f in refs)
    return '<UA%s NodeId="%s" BrowseName="%s" %s><DisplayName>x</DisplayName>%s<References>%s</References></UA%s>' % (cls, nid, bn or '1:b', attrs, body, r, cls)


def serve(*texts, **kw):
    """loads the texts into one server; returns (events, results, nodes by id, data types by name) of the end"""
    cmds = [['snew', 'A'] + list(kw.get('uris', []))] + [['load', 'A', doc(t), kw.get('mode', 'plain')] for t in texts] + [['sdump', 'A'], ['sdel', 'A'], ['ledger']]
    ev = run(cmds)
    return (ev, [e['ret'] for e in ev if e['ev'] == 'load'], {tuple(e['id']): e for e in ev if e['ev'] == 'snode'},
            {e['name']: e for e in ev if e['ev'] == 'stype'})
