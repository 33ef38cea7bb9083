# coding=utf-8
"""Machinery shared by all the monitors: event recording, verdicts, known findings, replay, sharding and evidence.

A check is a module of `mon.checks` with:

  PROPERTY  the id of the property it decides
  RULE      how its cases are made and what makes them non-trivial
  PHASES    list of (name, case function, {'quick': number of cases, 'thorough': number of cases})
  REQUIRE   {event name: minimum count}; the run is inconclusive (exit 2) when they are not reached

A case function takes (t, rng, i): the trace of events, a random generator seeded by
(VERIF_SEED, property, phase, i) and the number of the case. All the calls to the code under test go through
the trace, which records the event at the boundary of the public API (what was called, what came back);
the oracles judge those events and report with `t.fail`.
"""
from __future__ import print_function, absolute_import

import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 4


class Violation(Exception):
    def __init__(self, message, finding=None, detail=None):
        super(Violation, self).__init__(message)
        self.message = message
        self.finding = finding
        self.detail = detail or {}


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    """A case that takes much longer than it ever should (BaseException: nobody should handle it)."""


HANG_S = 120   # cases take from milliseconds to a few seconds, also in busy machines


def _hang(*_):
    raise Hang()


def show(x, limit=400):
    """Representation of anything, tolerant to objects under test that fail at representing themselves."""
    try:
        s = repr(x)
    except Exception as ex:  # noqa
        s = '<%s, repr failed with %s>' % (type(x).__name__, type(ex).__name__)
    return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)


def text(ex):
    """Message of an exception, tolerant to exceptions that fail at giving it."""
    try:
        return str(ex)
    except Exception as other:  # noqa
        return '<message of %s not available: %s>' % (type(ex).__name__, type(other).__name__)


class Interruption(BaseException):
    """An injected fault which is not an `Exception`, like the interruptions from the keyboard."""


class Outcome(object):
    """What came back from a call: a value or an exception."""
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def failed(self):
        return self.exc is not None

    def __repr__(self):
        return 'raised %s(%s)' % (type(self.exc).__name__, text(self.exc)) if self.failed else 'returned %s' % show(self.value)


class Trace(object):
    """Events and verdicts of one process of a run."""

    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.events = Counter()
        self.cases = 0
        self.assertions = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.window = []       # the last events, they are the witness history of a violation
        self.case_id = None
        self.hung = False

    # --- events

    def event(self, op, n=1):
        self.events[op] += n

    def call(self, op, fn, /, *args, **kwargs):
        """Calls the code under test, recording the event; gives back an `Outcome`."""
        self.events[op] += 1
        try:
            out = Outcome(value=fn(*args, **kwargs))
        except (Exception, Interruption) as ex:  # noqa, this is what the monitors observe
            self.events[op + ':raised'] += 1
            out = Outcome(exc=ex)
        if len(self.window) > 12:
            del self.window[0]
        self.window.append((op, args, kwargs, out))
        return out

    def ok(self, op, fn, /, *args, **kwargs):
        """As call, but any exception is a violation; gives back the value."""
        out = self.call(op, fn, *args, **kwargs)
        if out.failed:
            self.fail('%s failed with %s: %s' % (op, type(out.exc).__name__, show(text(out.exc))),
                      traceback=''.join(traceback.format_tb(out.exc.__traceback__)[-6:]))
        return out.value

    def raises(self, op, excs, fn, /, *args, **kwargs):
        """As call, but not raising (one of) the exceptions is a violation; gives back the exception."""
        out = self.call(op, fn, *args, **kwargs)
        if not out.failed:
            self.fail('%s should fail, but it returned %s' % (op, show(out.value)))
        if not isinstance(out.exc, excs):
            self.fail('%s should fail with %s, but failed with %s: %s' % (op, excs, type(out.exc), show(text(out.exc))))
        return out.exc

    # --- oracles

    def check(self, cond, message, /, finding=None, **detail):
        self.assertions += 1
        if not cond:
            self.fail(message, finding=finding, **detail)

    def same(self, got, expected, message, /, **detail):
        self.assertions += 1
        if got != expected:
            self.fail(message, **dict(detail, got=got, expected=expected))

    def fail(self, message, /, finding=None, **detail):
        raise Violation(message, finding, detail)

    # --- coverage

    def seen(self, key):
        """Declares the current case as non-trivial; key makes it distinct from others."""
        self.distinct.add(hashlib.md5(repr(key).encode('utf-8', 'backslashreplace')).hexdigest()[:12])

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text[:600] if type(text) is str else show(text, 600))

    # --- execution

    def run_case(self, phase, fn, i, known):
        rng = random.Random('%s:%s:%s:%d' % (self.seed, self.prop, phase, i))
        self.window = []
        self.case_id = (phase, i)
        self.cases += 1
        limit = HANG_S if self.tier == 'quick' else 2 * HANG_S
        try:
            signal.signal(signal.SIGALRM, _hang)
            try:
                try:
                    signal.setitimer(signal.ITIMER_REAL, limit, 10)
                    fn(self, rng, i)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                self.hung = True
                self.fail('a call did not come back in %d seconds' % limit)
            except (Violation, Inconclusive, MemoryError, OSError):
                raise
            except Exception as ex:  # noqa
                # On the code in which the property holds the oracles can judge all that they observe
                self.fail('the oracles cannot make sense of what they observed: %s: %s' % (type(ex).__name__, text(ex)),
                          traceback=''.join(traceback.format_tb(ex.__traceback__)[-6:]))
        except Violation as v:
            if v.finding is not None and v.finding in known:
                self.findings[v.finding] = known[v.finding]
                return
            self.violations.append(dict(
                property=self.prop, seed=self.seed, tier=self.tier, phase=phase, case=i,
                message=v.message, finding=v.finding,
                detail={k: (x if type(x) is str else show(x, 3000)) for k, x in v.detail.items()},
                history=['%s%s%s %r' % (op, show(a, 800), show(k, 800) if k else '', o)
                         for op, a, k, o in self.window]))

    def dump(self):
        return dict(events=dict(self.events), cases=self.cases, assertions=self.assertions,
                    distinct=sorted(self.distinct), samples=self.samples, violations=self.violations,
                    findings=self.findings)


def known_findings(prop):
    """{key: description} of the findings listed for a property (lines "finding: property=<id> key=<key> <what>")."""
    known = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as reader:
        for line in reader:
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == 'finding:' and parts[1] == 'property=' + prop:
                known[parts[2].partition('=')[2]] = parts[3].strip()
    return known


def _work(mod, seed, tier, shard, nshards, deadline, known):
    t = Trace(mod.PROPERTY, seed, tier)
    planned = done = 0
    for phase, fn, counts in mod.PHASES:
        n = counts[tier]
        sharded = not getattr(fn, 'unsharded', False)
        if not sharded and shard != 0:
            continue
        for i in range(n):
            if sharded and i % nshards != shard:
                continue
            planned += 1
            if time.time() > deadline or len(t.violations) >= MAX_VIOLATIONS or t.hung:
                continue
            t.run_case(phase, fn, i, known)
            done += 1
    d = t.dump()
    d['planned'], d['done'] = planned, done
    return d


def _fork_work(mod, seed, tier, nshards, deadline, known, scratch):
    pids = []
    for shard in range(nshards):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                d = _work(mod, seed, tier, shard, nshards, deadline, known)
                with open(os.path.join(scratch, 'shard%d.json' % shard), 'w') as writer:
                    json.dump(d, writer)
                code = 0
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    dumps = []
    for shard in range(nshards):
        if not os.path.isfile(os.path.join(scratch, 'shard%d.json' % shard)):
            raise Inconclusive('a process of the run ended without result')
        with open(os.path.join(scratch, 'shard%d.json' % shard)) as reader:
            dumps.append(json.load(reader))
    return dumps


def run(name, replay=None):
    mod = importlib.import_module('mon.checks.' + name.lower())
    prop = mod.PROPERTY
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    known = known_findings(prop)

    if replay is not None:
        with open(replay) as reader:
            r = json.load(reader)
        t = Trace(prop, r['seed'], r['tier'])
        fn = {phase: fn for phase, fn, _ in mod.PHASES}[r['phase']]
        t.run_case(r['phase'], fn, r['case'], known)
        for v in t.violations:
            print(json.dumps(v, indent=1))
        print('REPRODUCED' if t.violations else 'NOT REPRODUCED')
        return 1 if t.violations else 0

    start = time.time()
    limit = {'quick': 400, 'thorough': 780}[tier]
    deadline = start + limit
    nshards = getattr(mod, 'SHARDS', {}).get(tier, {'quick': 2, 'thorough': 7}[tier])
    if nshards > 1:
        import tempfile
        import shutil
        scratch = tempfile.mkdtemp(prefix='whatami-mon-')
        try:
            if hasattr(mod, 'prepare'):
                mod.prepare()
            dumps = _fork_work(mod, seed, tier, nshards, deadline, known, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    else:
        if hasattr(mod, 'prepare'):
            mod.prepare()
        dumps = [_work(mod, seed, tier, 0, 1, deadline, known)]

    events = Counter()
    distinct = set()
    samples, violations, findings = [], [], {}
    planned = done = assertions = 0
    for d in dumps:
        events.update(d['events'])
        distinct.update(d['distinct'])
        samples += d['samples'][:3]
        violations += d['violations']
        findings.update(d['findings'])
        planned += d['planned']
        done += d['done']
        assertions += d['assertions']

    for key, what in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))

    lacking = []
    if not violations:
        for event, minimum in sorted(getattr(mod, 'REQUIRE', {}).items()):
            if events[event] < minimum:
                lacking.append('%s observed %d times, at least %d needed' % (event, events[event], minimum))
        if not distinct:
            lacking.append('no non-trivial case was observed')
        if done < 0.5 * planned:
            lacking.append('only %d out of %d cases were run before the time limit' % (done, planned))

    evidence_dir = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(evidence_dir):
        os.makedirs(evidence_dir)
    wall = round(time.time() - start, 2)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=done, distinct_nontrivial=len(distinct), rule=mod.RULE,
                      samples=samples[:8] or ['(none)'],
                      planned=planned, oracle_assertions=assertions,
                      events_observed=dict(sorted(events.items())), shards=nshards,
                      known_findings_observed=sorted(findings), inconclusive_because=lacking),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'held on the executions described by coverage; says nothing about executions not produced'],
        violations=len(violations), wall_s=wall)
    with open(os.path.join(evidence_dir, '%s.json' % prop), 'w') as writer:
        json.dump(evidence, writer, indent=1, sort_keys=True)

    if violations:
        replay_dir = os.path.join(evidence_dir, 'replay')
        if not os.path.isdir(replay_dir):
            os.makedirs(replay_dir)
        for n, v in enumerate(violations[:MAX_VIOLATIONS]):
            path = os.path.join(replay_dir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as writer:
                json.dump(v, writer, indent=1)
            print('%s case %s/%d: %s' % (prop, v['phase'], v['case'], v['message']))
            for k, x in sorted(v['detail'].items()):
                print('    %s: %s' % (k, x[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if lacking:
        print('INCONCLUSIVE property=%s %s' % (prop, '; '.join(lacking)))
        return 2
    print('HELD property=%s on %d cases (%d distinct non-trivial), %d oracle assertions, %d events, %.1f s' % (
        prop, done, len(distinct), assertions, sum(events.values()), wall))
    return 0


def unsharded(fn):
    """Marks a case function to be run in one process only."""
    fn.unsharded = True
    return fn


def main(argv):
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors='backslashreplace')   # what is reported can have anything
    try:
        if len(argv) == 4 and argv[2] == '--replay':
            return run(argv[1], replay=argv[3])
        return run(argv[1])
    except Inconclusive as ex:
        print('INCONCLUSIVE %s' % ex)
        return 2
