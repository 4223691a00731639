"""C13: consent to overwriting."""
import os

from .. import engine, gen as G, scenario
from . import common

COUNT = dict(quick=320, thorough=6000)
LEVEL = 'exploration'
RULE = ('Each case is a history of 2-4 sessions in one folder, each starting the model through the library or the command line, with or '
        'without the overwrite option, with result files of earlier sessions, foreign files or none in place, and a simulated user who '
        'answers, closes the input, interrupts or kills the process at the question about either file; removing a file may fail.')
NOTE = ('the user is a stand-in for input(); command line runs execute hapuamod/__main__.py in the simulated process.')

YES = ('Y', 'y', 'Yes', 'yes', 'YES')
NO = ('n', 'N', 'no', 'NO', '', ' ', 'quit', '0', 'maybe', 'not yet', 'any', 'never', 'ok', '1', 'true', 'yet no', 'o')
NAMES = ((None, None), ('out.nc', 'ts.nc'), ('out.nc', None), ('a/res.nc', 'b/res.nc'), ('res/long name.nc', 'ts.nc'), ('out.dat', 'series.dat'),
         ('ABS/o.nc', 'ABS/t.nc'))


def gen(seed, i, tier):
    r = scenario.rng_for(seed, 'C13', i)
    s = G.scenario_for(seed, 'C13-%d' % i, family=r.choice(('straight', 'open', 'closed')))
    t = s['time']
    t['MorDtMax'] = t['MorDtMin']
    t['dur'] = int(t['MorDtMin'] * r.choice((1, 2, 3)))
    s['out'].update(OutInt=r.choice((.001, 1e6)), TsOutInt=r.choice((.001, 1e6)))
    c = dict(scn=s, names=list(r.choice(NAMES)), cnf=r.choice(('model.cnf', 'my model.cnf', 'run.1.cnf', 'model')), apart=r.random() < 0.4,
             decoys=r.random() < 0.5, sessions=[])
    for k in range(r.choice((2, 2, 3, 4))):
        e = dict(entry=r.choice(('lib', 'lib', 'cli')), over=r.random() < 0.25, pre=[None, None], ans=[None, None])
        if e['entry'] == 'cli':
            e['args'] = (['-o'] if e['over'] and r.random() < 0.5 else ['--Overwrite'] if e['over'] else []) + r.choice(([], [], ['-q'], ['-v']))
        else:
            e['default'] = not e['over'] and r.random() < 0.5
        for f in (0, 1):
            if k == 0 or r.random() < 0.2:
                e['pre'][f] = r.choice((None, None, 'junk', 'empty', 'readonly', 'gone'))
            e['ans'][f] = r.choice((r.choice(YES), r.choice(YES), r.choice(YES), r.choice(NO), r.choice(NO), 'EOF', 'INT', 'KILL'))
        e['stuck'] = r.choice((None, None, None, None, None, 0, 1))
        c['sessions'].append(e)
    return c


def shrink(case):
    from .. import runner
    for j in range(len(case['sessions']) - 1):
        c = scenario.json.loads(scenario.json.dumps(case))
        del c['sessions'][j]
        yield c
    for j, e in enumerate(case['sessions']):
        for k, v in (('stuck', None), ('entry', 'lib'), ('pre', [None, None])):
            if e[k] != v:
                c = scenario.json.loads(scenario.json.dumps(case))
                c['sessions'][j][k] = v
                c['sessions'][j].pop('args', None)
                yield c


def tree(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.basename(p).startswith('.'):
                continue
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def run(case, ctx):
    s0 = case['scn']
    wd = ctx.dir()
    cfgdir = os.path.join(wd, 'cfg') if case['apart'] else wd
    os.makedirs(cfgdir, exist_ok=True)
    stem = os.path.splitext(case['cnf'])[0]
    conf = [n.replace('ABS', wd + '/abs') if n else n for n in case['names']]
    shown = [conf[0] or stem + '_outputs.nc', conf[1] or stem + '_TSoutputs.nc']
    path = [os.path.join(wd, n) for n in shown]
    for p in path:
        os.makedirs(os.path.dirname(p), exist_ok=True)
    if case['decoys']:
        for d in {wd, cfgdir}:
            for n in ('out.nc', 'ts.nc', 'model_outputs.nc', 'o.nc', shown[0] + '.bak', shown[1] + '~'):
                p = os.path.join(d, n if not os.path.isabs(n) else os.path.basename(n))
                if p not in path and os.path.isdir(os.path.dirname(p)):
                    with open(p, 'w') as f:
                        f.write('keep me')
    log = os.path.join(wd, stem + '_log.txt')
    for k, e in enumerate(case['sessions']):
        s = scenario.json.loads(scenario.json.dumps(s0))
        s['name'] = 'session%d' % k
        s['out'].update(OutFile=conf[0], TsOutFile=conf[1])
        s['out'] = {a: (("'%s'" % b) if a.endswith('File') and b else b) for a, b in s['out'].items()}
        cfg = scenario.write_inputs(s, cfgdir, case['cnf'])
        for f in (0, 1):
            pre = e['pre'][f]
            if pre and os.path.exists(path[f]):
                os.chmod(path[f], 0o644)
                os.unlink(path[f])
            if pre in ('junk', 'empty', 'readonly'):
                with open(path[f], 'wb') as h:
                    h.write(b'' if pre == 'empty' else b'precious %d' % k)
                if pre == 'readonly':
                    os.chmod(path[f], 0o444)
        before = tree(wd)
        there = [p in before for p in path]
        by = {shown[f]: e['ans'][f] for f in (0, 1)}
        stuck = [os.path.basename(path[e['stuck']])] if e['stuck'] is not None else []
        q = engine.simulate(s, dict(answers_by=by, remove_fails=stuck, hires=False), wd, overwrite=None if e.get('default') else e['over'], cfg=cfg,
                            inputs=False, entry=e['entry'], args=e.get('args', ()), cwd=wd)
        ctx.note(s, q)
        ctx.sim_s += s['time']['dur'] if q['status'] == 'ok' else 0
        ctx.count('sessions')
        ctx.probe('%s %s' % (e['entry'], q['status']))
        what = 'session %d (%s%s, %s in place, answers %r, asked %r)' % (k, e['entry'], ', overwrite' if e['over'] else '', [shown[f] for f in (0, 1) if there[f]],
                                                                        e['ans'], q['prompts'])
        after = tree(wd)
        asked = [any(named(x, shown) == f for x in q['prompts']) for f in (0, 1)]
        if any(named(x, shown) is None for x in q['prompts']):
            ctx.bad('question', '%s: a question does not name the file' % what)
            return
        ok = True
        for f in (0, 1):
            consent = e['over'] or (asked[f] and e['ans'][f] in YES)
            if asked[f] and (e['over'] or not there[f]):
                ctx.bad('question', '%s: asked about %s' % (what, shown[f]))
                return
            if there[f] and not consent:
                ctx.count('kept')
                if after.get(path[f]) != before[path[f]]:
                    ctx.bad('overwritten', '%s: %s was %s' % (what, shown[f], 'removed' if path[f] not in after else 'changed'))
                    return
                ok = False
        if q['status'] in ('hang', 'budget', 'died'):
            common.died(ctx, q, 'end')
            return
        jam = q.get('fired', {}).get('remove_fails')
        if not ok:
            if q['status'] == 'ok':
                ctx.bad('no error', '%s: ended normally' % what)
                return
        elif not jam:
            # nothing in the way: the run has to succeed and leave its own results
            if q['status'] != 'ok':
                ctx.bad('refused', '%s: ended with %s %s' % (what, q.get('type', q['status']), q.get('msg', '')))
                return
            for f in (0, 1):
                ctx.count('replaced')
                try:
                    d = engine.real['Dataset'](path[f])
                    nm, n = d.ModelName, d['time'].size
                    d.close()
                except OSError as x:
                    ctx.bad('not replaced', '%s: %s unreadable: %s' % (what, shown[f], x))
                    return
                if nm != s['name'] or n < 1:
                    ctx.bad('not replaced', '%s: %s holds %d records of %s' % (what, shown[f], n, nm))
                    return
        elif q['status'] == 'ok' and after.get(path[e['stuck']]) == before.get(path[e['stuck']]):
            ctx.bad('no error', '%s: %s could not be removed, yet the run ended normally' % (what, shown[e['stuck']]))
            return
        other = [p for p in set(before) | set(after) if p not in path and p != log and before.get(p) != after.get(p)
                 and not (p.endswith('_log.txt') and p not in before)]
        if other:
            ctx.bad('other files', '%s: %s' % (what, sorted(os.path.relpath(p, wd) for p in other)[:4]))
            return


def named(prompt, shown):
    """which file a question is about"""
    hit = [f for f in (0, 1) if shown[f] in prompt]
    if len(hit) == 2:
        hit = [f for f in hit if len(shown[f]) == max(len(shown[0]), len(shown[1]))][:1]
    return hit[0] if hit else None
