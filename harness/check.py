"""Checks one property:  check.py PROPERTY quick|thorough   (or --replay FILE).

Exit 0: nothing violated the property; 1: a VIOLATION line was printed;
2: the check itself failed."""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import asks                                                 # noqa: E402
import base                                                 # noqa: E402
import gen                                                  # noqa: E402
import stories                                              # noqa: E402
from base import EVIDENCE, ROOT, Machinery                  # noqa: E402

FINDINGS = os.path.join(ROOT, 'known_findings.json')
REPLAYS = os.path.join(EVIDENCE, 'replay')


def found_before():
    with open(FINDINGS) as stream:
        return json.load(stream)['findings']


# ----------------------------------------------------------------- the plans
# Every plan makes (script, big, name) triples for a round.
def combos_for(rnd, subj, clip, many=64):
    return gen.ALL if many >= 64 else rnd.sample(gen.ALL, many)


def plain_round(shapes=gen.EXACT, free=None, combos=64, points=0, limit=None, rev=.15):
    def make(rnd):
        subj, clip, name = gen.case(rnd, shapes, free, limit)
        heavy = sum(len(r) for r in subj + clip) > 40
        return (gen.plain(rnd, subj, clip,
                          combos_for(rnd, subj, clip, 16 if heavy and combos > 16 else combos),
                          points, rnd.random() < rev), False, name)
    return make


def wide_round(points=10, combos=6):
    def make(rnd):
        subj, clip, name = gen.case(rnd, [gen.wide], True)
        return (gen.plain(rnd, subj, clip, combos_for(rnd, subj, clip, combos), points,
                          rnd.random() < .15), True, name)
    return make


def laws_round(rnd):
    subj, clip, name = gen.case(rnd, gen.EXACT, True, limit=45)
    script = gen.plain(rnd, subj, clip, gen.ALL, 0, rnd.random() < .15)
    return script + [{'e': 'laws', 'o': 1}], False, name


def wide_laws_round(rnd):
    subj, clip, name = gen.case(rnd, [gen.wide], True)
    return (gen.plain(rnd, subj, clip, gen.ALL, 0) + [{'e': 'laws', 'o': 1}], True, name)


def relate_round(kinds, combos=16, shapes=gen.EXACT, limit=45, free=None, big=False):
    def make(rnd):
        kind = rnd.choice(kinds)
        subj, clip, name = gen.case(rnd, shapes, free, limit)
        return (gen.related(rnd, kind, subj, clip, rnd.sample(gen.ALL, combos)), big,
                name + ' / ' + kind)
    return make


def life_round(rnd):
    return gen.life(rnd, gen.EXACT), False, 'life'


def repeated_round(rnd):
    script, name = gen.repeated(rnd, gen.EXACT)
    return script, False, 'repeated ' + name


def bounds_round(rnd):
    script = []
    for o in range(1, rnd.randint(2, 4)):
        script.append({'e': 'new', 'o': o, 'rev': rnd.random() < .3})
        if rnd.random() < .3:
            script.append({'e': 'bounds', 'o': o})
        for _ in range(rnd.randint(1, 3)):
            if rnd.random() < .3:
                subj, clip, _ = gen.case(rnd, [gen.wide])
            else:
                subj, clip, _ = gen.case(rnd)
            for event in gen.additions(rnd, o, subj, clip):
                script.append(event)
                if rnd.random() < .6:
                    script.append({'e': 'bounds', 'o': o})
                if rnd.random() < .2:
                    script.append({'e': 'add', 'o': o, 'k': rnd.randrange(2),
                                   'ring': gen.degenerate_ring(rnd)})
                    script.append({'e': 'bounds', 'o': o})
            script.append({'e': 'bounds', 'o': o})
            script.append({'e': 'bounds', 'o': o})
            if rnd.random() < .4:
                script.append({'e': 'clear', 'o': o})
                script.append({'e': 'bounds', 'o': o})
    return script, False, 'bounds'


def acceptance_round(rnd):
    """Rings with every kind of redundancy; what is accepted."""
    script = [{'e': 'new', 'o': 1, 'rev': False}]
    for _ in range(rnd.randint(2, 6)):
        k = rnd.random()
        if k < .3:
            ring = gen.degenerate_ring(rnd)
        elif k < .6:
            n = rnd.choice([1, 2, 3])
            ring = [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(0, 9))]
        else:
            ring = gen.grid_ring(rnd, rnd.choice([3, 9]))
        if rnd.random() < .5:
            ring = gen.redundant_ring(rnd, ring) if ring else ring
        if rnd.random() < .3:
            rings = [ring, gen.degenerate_ring(rnd)]
            rnd.shuffle(rings)
            script.append({'e': 'addp', 'o': 1, 'k': rnd.randrange(2),
                           'rings': rings[:rnd.randint(0, 2)]})
        else:
            script.append({'e': 'add', 'o': 1, 'k': rnd.randrange(2), 'ring': ring})
        script.append({'e': 'bounds', 'o': 1})
    return script, False, 'acceptance'


def hot_round(rnd):
    subj, clip, name = gen.case(rnd, gen.EXACT, True)
    script = [{'e': 'new', 'o': 1, 'rev': False}]
    adds = gen.additions(rnd, 1, subj, clip)
    script += adds
    rings = []
    for event in adds:
        rings += [[event['k'], r] for r in (event['rings'] if 'rings' in event else [event['ring']])]
    script.append({'e': 'hot', 'o': 1, 'rings': rings})
    return script, False, name


def cut_round(rnd):
    """Rings added one after another to a list of local minima."""
    script, names = [], set()
    for _ in range(rnd.randint(1, 4)):
        if rnd.random() < .15:
            ring, name = gen.degenerate_ring(rnd), 'degenerate'
        else:
            subj, clip, name = gen.case(rnd, gen.EXACT + [gen.wide], limit=60)
            ring = rnd.choice(subj + clip or [[]])
            if ring and rnd.random() < .3:
                ring = gen.redundant_ring(rnd, ring)
        names.add(name)
        script.append({'e': 'minimums', 'k': rnd.randrange(2), 'ring': ring})
    return script, False, ' / '.join(sorted(names)) if len(names) == 1 else 'several'


def stages_round(shapes=gen.EXACT, free=True, rows=8, limit=60):
    def make(rnd):
        subj, clip, name = gen.case(rnd, shapes, free, limit)
        every = [p for r in subj + clip for p in r]
        dx, dy = (min(p[i] for p in every) for i in (0, 1)) if every else (0, 0)
        rings = [[k, r] for k, rs in enumerate((subj, clip)) for r in gen.shift(rs, -dx, -dy)]
        rnd.shuffle(rings)
        return ([{'e': 'stages', 'rings': rings, 'rows': combos_for(rnd, subj, clip, rows)}],
                False, name)
    return make


SYMMETRY = gen.SYMMETRIES
PLANS = {
    # property: [(plan, quick count, count per thorough round)], screened cases
    'C01': ([(plain_round(points=24), 150, 600), (plain_round([gen.tiny, gen.pool], points=16), 60, 300),
             (wide_round(), 60, 300)], 12000),
    'C02': ([(plain_round(free=True), 260, 900),
             (plain_round([gen.tiny, gen.snapping, gen.checkers, gen.ladder], True), 120, 400)], 12000),
    'C03': ([(plain_round(free=True), 200, 700),
             (plain_round([gen.checkers, gen.ladder, gen.octilinear, gen.nested, gen.many], True), 140, 500),
             (wide_round(0), 40, 200)], 12000),
    'C04': ([(plain_round(), 250, 800), (life_round, 60, 200), (wide_round(0, 16), 80, 300)], 40000),
    'C05': ([(repeated_round, 150, 500), (life_round, 120, 400)], 0),
    'C06': ([(relate_round(['redundant'], free=True), 160, 500), (acceptance_round, 300, 1000),
             (relate_round(['redundant'], 4, [gen.wide], free=True, big=True), 30, 100)], 0),
    'C07': ([(bounds_round, 400, 1500)], 0),
    'C08': ([(relate_round(SYMMETRY, free=True), 240, 800),
             (relate_round(SYMMETRY, 4, [gen.wide], free=True, big=True), 60, 200)], 0),
    'C09': ([(laws_round, 200, 700), (wide_laws_round, 40, 150)], 8000),
    'C10': ([(plain_round(free=True), 150, 500), (plain_round(), 100, 300), (wide_round(0, 16), 80, 300),
             (life_round, 60, 200)], 30000),
    'C11': ([(relate_round(['reverse output']), 200, 700),
             (relate_round(['reverse output'], 4, [gen.wide], big=True, free=True), 30, 100)], 0),
    'C12': ([(hot_round, 500, 2000)], 0),
    'C13': ([], 0),
    'C16': ([], 0),
    'C17': ([], 0),
    'C14': ([(cut_round, 700, 4000)], 0),
    'C15': ([(stages_round(), 160, 600),
             (stages_round([gen.checkers, gen.ladder, gen.octilinear, gen.nested, gen.many]), 80, 400),
             (stages_round(free=False), 40, 200)], 0),
}
# the specification that validates the recordings
MODULES = {'C13': 'SweepTrace', 'C14': 'MinimumsTrace', 'C15': 'StagesTrace',
           'C16': 'PrimitivesTrace', 'C17': 'ValuesTrace'}


# scripts for other specifications, enumerated by TLC
MODELS = {'C13': stories.runs, 'C14': stories.rings, 'C16': asks.scripts,
          'C17': stories.values}
# sweep histories made by TLC
STORIES = {'C01': (150, 600), 'C02': (150, 600), 'C03': (120, 500), 'C04': (80, 300),
           'C08': (1, 1), 'C09': (80, 300), 'C10': (60, 300), 'C11': (60, 300), 'C15': (100, 400)}


def screening(pool, rnd, count, deadline):
    """Operations on which the implementations differ or raise."""
    requests = []
    size = 60
    for _ in range(max(1, count // size)):
        cases = []
        for _ in range(size):
            k = rnd.random()
            free = None if k < .3 else True
            shapes = [gen.wide] if k > .92 else gen.EXACT
            subj, clip, _ = gen.case(rnd, shapes, free, 60)
            cases.append([subj, clip, rnd.choice(gen.ALL), shapes[0] is gen.wide])
        requests.append({'kind': 'screen', 'cases': cases})
    replies = pool.map(requests, 60, deadline)
    odd, done = [], 0
    for request, reply in zip(requests, replies):
        if reply == 'late':
            continue
        done += size
        if reply is None:
            odd += request['cases'][:size] if len(odd) < 200 else []
            continue
        odd += [c for c, r in zip(request['cases'], reply) if r[0]]
    return odd, done


def odd_scripts(rnd, odd, most):
    """Tie-free ones first; the smallest of them."""
    free = [c for c in odd if gen.tie_free(c[0] + c[1])]
    tied = [c for c in odd if c not in free]
    free.sort(key=lambda c: sum(len(r) for r in c[0] + c[1]))
    tied.sort(key=lambda c: sum(len(r) for r in c[0] + c[1]))
    chosen = free[:most] + tied[:max(most // 3, most - len(free))]
    result = []
    for subj, clip, row, big in chosen[:most]:
        points = gen.sample_points(rnd, subj + clip, 40)
        combos = [row]
        script = [{'e': 'new', 'o': 1, 'rev': False}]
        for k, rings in ((0, subj), (1, clip)):
            script += [{'e': 'add', 'o': 1, 'k': k, 'ring': r} for r in rings]
        script.append(gen.ops(1, combos, points))
        result.append((script, big, 'screened'))
    return result, len(free), len(tied)


# ------------------------------------------------------------------ the check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.started = time.time()
        self.violations, self.known = [], set()
        self.states = self.transitions = self.traces = 0
        self.evaluations = self.results = 0
        self.shapes, self.samples, self.facts = {}, [], {}
        self.seen = set()

    def record(self, pool, items):
        """items: (script, big, strict, name)"""
        events = pool.play([i[0] for i in items])
        traces = []
        for (script, big, strict, name), ev in zip(items, events):
            if ev == 'late':
                continue
            traces.append({'id': len(traces) + 1, 'big': big, 'strict': strict, 'ev': ev,
                           'name': name, 'script': script})
        return traces

    def judge(self, traces):
        run, rejections = base.validate(
            MODULES.get(self.prop, 'ClipperTrace'), [{k: t[k] for k in ('id', 'big', 'strict', 'ev')} for t in traces],
            [self.prop])
        self.states += run.distinct
        self.transitions += run.distinct - len(traces)
        self.traces += len(traces)
        for t in traces:
            self.shapes[t['name']] = self.shapes.get(t['name'], 0) + 1
            for e in t['ev']:
                if e['e'] == 'ops':
                    self.evaluations += 2 * len(e['tab'])
                    self.results += sum(1 for r in e['res'] if r['ok'] and r['polys'])
                elif 'of' in e and 'st' in e:
                    self.evaluations += 2 * len(e['of'])
                    self.results += len(e['st'])
                elif e['e'] == 'ask':
                    self.evaluations += 2 * len(e['q'])
                    self.seen.update(hash((e['kind'], json.dumps(q))) for q in e['q'])
                else:
                    self.evaluations += 1
                    if self.prop in MODULES:
                        self.seen.add(hash(json.dumps(e.get('P'))))
        by_id = {t['id']: t for t in traces}
        return [(by_id[r[0]], r) for r in rejections if r[2] == self.prop]

    def violation(self, trace, rejection, kind='trace'):
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as stream:
            json.dump({'property': self.prop, 'kind': kind, 'rejection': rejection,
                       'script': trace['script'], 'big': trace.get('big', False),
                       'strict': trace.get('strict', False), 'recorded': trace['ev']}, stream)
        self.violations.append(path)
        print('  %s at event %s: %s' % (rejection[3], rejection[1], json.dumps(rejection[4])[:300]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def findings(self, pool):
        """The listed defects: they may still be there, and nothing else may
        be wrong with those inputs."""
        mine = [f for f in found_before() if f['property'] == self.prop]
        if not mine:
            return
        traces = self.record(pool, [(f['script'], False, True, 'finding') for f in mine])
        for trace, rejection in self.judge(traces):
            finding = mine[trace['id'] - 1]
            clause = rejection[3]
            if clause in finding['clauses']:
                key = (finding['what'])
                if key not in self.known:
                    self.known.add(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, finding['what']))
            else:
                self.violation(trace, rejection)

    def round(self, pool, rnd, column, screened, deadline):
        items = []
        count = STORIES.get(self.prop, (0, 0))[column - 1]
        if count:
            told, found, facts = stories.scripts(self.prop, rnd.random(), count, column == 2)
            gen.use_stories(found)
            items += told
            for key, value in facts.items():
                self.facts[key] = self.facts.get(key, 0) + value
        if self.prop in MODELS:
            scripts, name, facts = MODELS[self.prop](rnd.randrange(1 << 30), column == 2)
            items += [(script, False, False, name) for script in scripts]
            for key, value in facts.items():
                self.facts[key] = self.facts.get(key, 0) + value
        for plan in PLANS[self.prop][0]:
            for _ in range(plan[column]):
                script, big, name = plan[0](rnd)
                items.append((script, big, False, name))
        if screened:
            odd, done = screening(pool, rnd, screened, deadline)
            scripts, free, tied = odd_scripts(rnd, odd, 40)
            items += [(s, big, False, name) for s, big, name in scripts]
            self.facts['screened'] = self.facts.get('screened', 0) + done
            self.facts['screened_odd_tie_free'] = self.facts.get('screened_odd_tie_free', 0) + free
            self.facts['screened_odd_ties'] = self.facts.get('screened_odd_ties', 0) + tied
        size = 4000 if self.prop in MODULES else 700
        for start in range(0, len(items), size):
            traces = self.record(pool, items[start:start + size])
            if len(self.samples) < 2:
                self.samples += [self.shorten(t) for t in traces[:2]]
            for trace, rejection in self.judge(traces):
                self.violation(trace, rejection)

    @staticmethod
    def shorten(trace):
        text = json.dumps({'name': trace['name'], 'ev': trace['ev'][:8]})
        return json.loads(text) if len(text) < 6000 else {'name': trace['name'],
                                                          'script': json.dumps(trace['script'])[:3000]}

    def write(self, rule):
        os.makedirs(EVIDENCE, exist_ok=True)
        coverage = {'states': self.states, 'transitions': self.transitions,
                    'traces_validated_against_impl': self.traces,
                    'evaluations': self.evaluations, 'distinct_nontrivial': self.results + len(self.seen),
                    'rule': rule, 'shapes': self.shapes, 'samples': self.samples}
        coverage.update(self.facts)
        evidence = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
                    'level': 'model_checking', 'coverage': coverage,
                    'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - self.started, 1),
                    'violations': len(self.violations),
                    'known_findings_seen': sorted(self.known)}
        path = os.path.join(EVIDENCE, self.prop + '.json')
        with open(path + '.tmp', 'w') as stream:
            json.dump(evidence, stream, indent=1)
        os.rename(path + '.tmp', path)


ASSUMPTIONS = [
    'TLC evaluates the specification correctly',
    'the recorder writes down what the implementations were given and answered',
    'integer coordinates; exact mode up to an extent of 480, limb mode (inputs screened to be '
    'free of ties by the recorder) up to 2000000']
RULE = ('histories generated from the seed over the listed shapes, driven into the port and the '
        'binding in lockstep and validated as behaviours of the specification; evaluations counts '
        'calls judged, distinct_nontrivial the different non-empty results among them')
THOROUGH_SECONDS = int(os.environ.get('VERIF_THOROUGH_SECONDS', '900'))


def main(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = Check(prop, tier, seed)
    pool = base.Pool()
    try:
        check.findings(pool)
        if prop == 'C01':
            check.facts.update(stories.counters(tier != 'quick'))
        screened = PLANS[prop][1]
        if tier == 'quick':
            check.round(pool, random.Random('%s %d' % (prop, seed)), 1, screened,
                        time.time() + 30)
        else:
            k = 0
            while not k or time.time() - check.started < THOROUGH_SECONDS and not check.violations:
                check.round(pool, random.Random('%s %d %d' % (prop, seed, k)), 2,
                            screened * 4, time.time() + 200)
                k += 1
    finally:
        pool.close()
    check.write(RULE)
    print('%s: %d traces, %d states, %d calls judged, %d violations, %.0f s'
          % (prop, check.traces, check.states, check.evaluations, len(check.violations),
             time.time() - check.started))
    return 1 if check.violations else 0


def replay(path):
    with open(path) as stream:
        saved = json.load(stream)
    check = Check(saved['property'], 'quick', 0)
    pool = base.Pool(1)
    try:
        traces = check.record(pool, [(saved['script'], saved['big'], saved['strict'], 'replay')])
        rejections = check.judge(traces)
    finally:
        pool.close()
    for _, r in rejections:
        print('%s at event %s: %s' % (r[3], r[1], json.dumps(r[4])[:1000]))
    print('reproduced' if rejections else 'not reproduced')
    return 1 if rejections else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            code = replay(sys.argv[2])
        else:
            code = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2
                        else os.environ.get('VERIF_TIER', 'quick'))
    except Machinery as error:
        print('the check failed: %s' % error)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
