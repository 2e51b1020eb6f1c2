#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /verif/properties.jsonl on the current working tree of /repo:

1. TLC checks the design models of the families of the property (spec/*MC.cfg, *Live.cfg) exhaustively and dumps
   their labelled state graphs,
2. the driver of each family runs the real code (paths through those graphs, and random histories) and records traces,
3. TLC validates every recorded event against the specification (spec/*Trace.tla); failing clauses are reported by
   name, and those which belong to the property are violations.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
HARNESS = os.path.join(HERE, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PYTHON = '/opt/venv/bin/python'

sys.path.insert(0, HERE)
from families import FAMILIES, PROPERTIES  # noqa: E402


class MachineryError(Exception):
    pass


def tlc(module, cfg, scratch, workers=1, env=None, extra=(), timeout=800, heap='4g'):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out: %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    res = dict(code=p.returncode, out=out, generated=0, distinct=0)
    # the last one: progress reports look the same
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if m:
        res['generated'], res['distinct'] = [int(x.replace(',', '')) for x in m[-1]]
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    res['depth'] = int(m.group(1)) if m else 0
    return res


def check_model(fam, model, scratch, tier):
    """design model: must hold and must be as large as it is known to be"""
    module, cfg, minimum, dump = model['module'], model['cfg'], model['min_states'], model.get('dump')
    if tier == 'thorough' and 'thorough_cfg' in model:
        cfg = model['thorough_cfg']
    extra = []
    graph = None
    if dump:
        graph = os.path.join(scratch, module + '.dot')
        extra = ['-dump', 'dot,actionlabels', graph]
    r = tlc(module + '.tla', cfg, scratch, workers=4, extra=extra)
    ok = r['code'] == 0 and 'No error has been found' in r['out']
    if not ok or r['distinct'] < minimum:
        raise MachineryError('design model %s/%s: %d of %d states, exit %s: %s' % (
            module, cfg, r['distinct'], minimum, r['code'], r['out'][-3000:]))
    return dict(model=module + '/' + cfg, states=r['distinct'], transitions=r['generated'], depth=r['depth']), graph


def run_driver(fam, out, tier, seed, pid, graphs, scratch):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=HARNESS,
               TMPDIR=scratch)
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    cmd = [PYTHON, os.path.join(HARNESS, fam['driver'] + '.py'), '--out', out, '--tier', tier, '--seed', str(seed),
           '--pid', pid]
    for g in graphs:
        cmd += ['--graph', g]
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=fam.get('timeout', 560 if tier == 'quick' else 3000))
    except subprocess.TimeoutExpired as e:
        return None, 'driver did not terminate', 'timeout'
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout[-3000:], 'crash'
    return json.load(open(out + '.meta')), p.stdout, 'ok'


def validate(fam, trace_file, scratch):
    """[(trace, event, clause)], {clause: hits}, result"""
    r = tlc(fam['trace'] + '.tla', 'Trace.cfg', scratch, env=dict(TRACE_FILE=trace_file), heap='6g')
    viol = [(int(a), int(b), c) for a, b, c in re.findall(r'"VIOL\|(\d+)\|(\d+)\|([^"]*)"', r['out'])]
    hits = {a: int(b) for a, b in re.findall(r'"HIT\|([^|"]*)\|(\d+)"', r['out'])}
    ok = r['code'] == 0 and 'No error has been found' in r['out']
    return viol, hits, r, ok


def known_findings():
    """findings that are recorded and not repaired: {(property, clause, scenario)}"""
    path = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) clause=(\S+) scenario=(\S+) (.*)', line)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    replay_dir = os.path.join(HERE, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='qtune-check-')
    os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
    violations, notes, models, hits, samples = [], [], [], {}, []
    n_traces = n_events = tstates = 0
    stats = {}
    try:
        for famname, pattern in PROPERTIES[pid]['families']:
            fam = FAMILIES[famname]
            rx = re.compile(pattern)
            graphs = []
            for model in fam.get('models', ()):
                info, graph = check_model(fam, model, scratch, tier)
                models.append(info)
                if graph:
                    graphs.append(graph)
            out = os.path.join(scratch, famname + '.json')
            meta, text, how = run_driver(fam, out, tier, a.seed, pid, graphs, scratch)
            if how != 'ok':
                # the driver survives every exception of a scenario: the code could not even be imported or hangs
                violations.append(dict(clause='%s.driver_%s' % (famname, how), family=famname, trace=None,
                                       scenario=famname, detail=text[-2000:]))
                continue
            for k, v in meta['stats'].items():
                stats[famname + '.' + k] = v
            for c in meta['crashes']:
                if any(pid.startswith(x) for x in c['pids'].split(',') if x) or not c['pids']:
                    violations.append(dict(clause='scenario_failed', family=famname, trace=None,
                                           scenario=c['scenario'], detail=c['error'] + '\n' + c['where']))
            traces = json.load(open(out))
            if not traces:
                if not meta['crashes']:
                    raise MachineryError('%s recorded nothing' % famname)
                continue
            viol, fhits, r, ok = validate(fam, out, scratch)
            n_traces += len(traces)
            n_events += sum(len(t['events']) for t in traces)
            tstates += r['distinct']
            for c, n in fhits.items():
                if rx.match(c):
                    hits[c] = n
            if not ok:
                if re.search(r'OutOfMemory|StackOverflow|Could not|cannot allocate', r['out']) or r['generated'] == 0 \
                        and 'VIOL' not in r['out'] and 'EXCEPTION' not in r['out'] and 'Error:' not in r['out']:
                    raise MachineryError('trace validation of %s: %s' % (famname, r['out'][-3000:]))
                # an observation the specification can not even evaluate
                violations.append(dict(clause='%s.not_evaluable' % famname, family=famname, trace=None,
                                       scenario=famname, detail=r['out'][-2500:]))
            for t, l, c in viol:
                if rx.match(c):
                    tr = traces[t - 1]
                    violations.append(dict(clause=c, family=famname, scenario=tr['name'], trace=t, event=l,
                                           detail=json.dumps(tr['events'][l - 1])[:1500]))
                    violations[-1]['replay'] = dict(cfg=tr['cfg'], init=tr['init'], events=tr['events'][:l])
                elif a.verbose:
                    print('other clause:', t, l, c, traces[t - 1]['name'])
            for tr in traces[:1] + traces[-1:]:
                if tr['events']:
                    samples.append(dict(family=famname, trace=tr['name'],
                                        first_event=json.loads(json.dumps(tr['events'][0]))))
            if a.keep:
                shutil.copy(out, os.path.join(replay_dir, '%s-%s.json' % (pid, famname)))
        # vacuity: every clause of the property must have been exercised
        if not violations:
            missing = [c for c in PROPERTIES[pid].get('required', ()) if not hits.get(c)]
            if not hits or missing:
                raise MachineryError('clauses never exercised: %s' % (missing or 'all'))
    except MachineryError as e:
        print('ERROR', e)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)

    shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings()
    unknown, reported = [], set()
    for v in violations:
        match = [k for k in known if k[0] == pid and k[1] == v['clause'] and re.match(k[2] + '$', v['scenario'])]
        if match:
            reported.add(match[0])
        else:
            unknown.append(v)
    for k in sorted(reported):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    level = PROPERTIES[pid].get('level', 'model_checking')
    evidence = dict(
        property=pid, tier=tier, seed=a.seed, level=level,
        coverage=dict(
            states=sum(m['states'] for m in models) + tstates,
            transitions=sum(m['transitions'] for m in models) + n_events,
            traces_validated_against_impl=n_traces,
            events_validated=n_events,
            design_models=models,
            clause_hits=hits,
            driver=stats,
            samples=samples[:4]),
        assumptions=PROPERTIES[pid].get('assumptions', []),
        wall_s=round(time.time() - t0, 2),
        violations=len(unknown))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if unknown:
        path = os.path.join(replay_dir, pid + '.json')
        with open(path, 'w') as f:
            json.dump(unknown[:50], f, indent=1)
        seen = set()
        for v in unknown:
            if v['clause'] not in seen and len(seen) < 12:
                seen.add(v['clause'])
                print('  %s in %s (event %s): %s' % (v['clause'], v['scenario'], v.get('event'), v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    print('OK property=%s traces=%d events=%d model_states=%d clauses=%d wall=%.1fs' % (
        pid, n_traces, n_events, sum(m['states'] for m in models), len(hits), time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    main()
