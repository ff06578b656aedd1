"""Inputs that TLC makes: histories of the sweep drawn as polygons
(spec/SweepPaths.tla), enumerated and sampled."""
import random

import base
import gen


def run(config, simulate=None, seed=1, timeout=600):
    arguments = []
    if simulate:
        arguments = ['-simulate', 'num=%d' % simulate, '-depth', '80', '-seed', str(seed)]
    tlc = base.Tlc('SweepPaths', config, arguments=arguments, timeout=timeout,
                   workers=1 if simulate else None)
    if tlc.code or (not simulate and 'No error has been found' not in tlc.output):
        raise base.Machinery('TLC failed (%d):\n%s' % (tlc.code, tlc.output[-3000:]))
    stories = tlc.said('STORY')
    seen, result = set(), []
    for story in stories:
        key = repr(story['rings'])
        if key not in seen:
            seen.add(key)
            result.append(story)
    result.sort(key=lambda s: repr(s['rings']))       # the order of workers is arbitrary
    return result, tlc


def scripts(prop, seed, count, deep=False):
    """(script, big, strict, name) for about `count` histories (with the
    pieces of the picture for the properties that they decide), all of the
    histories, and what TLC counted."""
    rnd = random.Random('stories %s %s' % (prop, seed))
    whole, tlc = run('SweepAll' if deep else 'SweepFew')
    long, _ = run('SweepSim', simulate=2 * count, seed=rnd.randrange(1 << 30))
    facts = {'sweep_histories_enumerated': len(whole), 'sweep_histories_sampled': len(long),
             'sweep_path_states': tlc.distinct}
    rnd.shuffle(whole)
    rnd.shuffle(long)
    few = min(len(whole), count // 3)
    items = [(script(prop, rnd, story), False, False, 'sweep history')
             for story in whole[:few] + long[:count - few]]
    return items, whole[few:few + 500] + long, facts


def script(prop, rnd, story):
    rings = story['rings'][:]
    if rnd.random() < .3:
        rnd.shuffle(rings)
    if prop == 'C15':
        return [{'e': 'stages', 'rings': rings, 'rows': rnd.sample(gen.ALL, 8)}]
    events = [{'e': 'new', 'o': 1, 'rev': rnd.random() < .2}]
    for kind, ring in rings:
        if rnd.random() < .5:
            start = rnd.randrange(len(ring))
            ring = ring[start:] + ring[:start]
        events.append({'e': 'add', 'o': 1, 'k': kind, 'ring': ring})
    events.append(gen.ops(1, gen.ALL, []))
    if prop in ('C01', 'C02'):
        events.append({'e': 'swept', 'o': 1, 'pieces': story['pieces']})
    if prop == 'C09':
        events.append({'e': 'laws', 'o': 1})
    return events


def counters(deep=False):
    """Model checks that the local rules of the sweep do what they have to."""
    tlc = base.Tlc('Sweep', 'SweepDeep' if deep else 'Sweep', heap='12g', timeout=1500)
    tlc.require_success()
    return {'sweep_rule_states': tlc.distinct, 'sweep_rule_transitions': tlc.generated,
            'sweep_rule_bounds': 8 if deep else 6}


def runs(seed, deep):
    """Histories of active bounds: all of the short ones, sampled long ones."""
    short = base.Tlc('SweepRuns', 'SweepRunsDeep' if deep else 'SweepRuns')
    short.require_success()
    long = base.Tlc('SweepRuns', 'SweepRunsSim', workers=1, arguments=[
        '-simulate', 'num=%d' % (600 if deep else 150), '-depth', '80', '-seed', str(seed)])
    if long.code:
        raise base.Machinery('TLC failed (%d):\n%s' % (long.code, long.output[-3000:]))
    rnd = random.Random('runs %s' % seed)
    scripts = []
    for log, rows, every in ([(log, gen.ALL, False) for log in sorted(short.said('RUN'))]
                             + [(log, rnd.sample(gen.ALL, 16), True) for log in long.said('RUN')]):
        if not every and len(log) > 3 and not deep:
            rows = rnd.sample(rows, 12)
        script = [{'e': 'sweep', 'rows': rows, 'steps': len(log)}]
        script += [{'e': act[0], 'a': act[1:]} for act in log]
        if not every:
            for event in script[1:-1]:
                event['quiet'] = True
        scripts.append(script)
    return scripts, 'sweep history', {'sweep_runs_enumerated': len(short.said('RUN')),
                                      'sweep_runs_sampled': len(long.said('RUN')),
                                      'sweep_run_states': short.distinct}


def rings(seed, deep):
    """All normal rings of a small scope, added in groups."""
    tlc = base.Tlc('MinimumsCut', 'MinimumsCutDeep' if deep else 'MinimumsCut')
    tlc.require_success()
    rnd = random.Random('rings %s' % seed)
    every = sorted(tlc.said('RING'))
    rnd.shuffle(every)
    scripts = []
    for start in range(0, len(every), 4):
        script = []
        for ring in every[start:start + 4]:
            if rnd.random() < .5:
                at = rnd.randrange(len(ring))
                ring = ring[at:] + ring[:at]
            scale, dx, dy = rnd.choice([1, 1, 2, 7]), rnd.randint(-9, 9), rnd.randint(-9, 9)
            script.append({'e': 'minimums', 'k': rnd.randrange(2),
                           'ring': [[scale * x + dx, scale * y + dy] for x, y in ring]})
        scripts.append(script)
    return scripts, 'enumerated rings', {'rings_enumerated': len(every),
                                         'cut_states': tlc.distinct}


def values(seed, deep):
    """Sampled histories of values."""
    count = 4000 if deep else 700
    tlc = base.Tlc('ValuesRuns', workers=1, arguments=[
        '-simulate', 'num=%d' % count, '-depth', '40', '-seed', str(seed)])
    if tlc.code:
        raise base.Machinery('TLC failed (%d):\n%s' % (tlc.code, tlc.output[-3000:]))
    scripts = [[{'e': 'value', 'do': act[0], 'a': act[1:]} for act in log]
               for log in tlc.said('RUN')]
    return scripts, 'history of values', {'value_runs_sampled': len(scripts)}
