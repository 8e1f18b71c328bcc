#!/usr/bin/env python3
"""check.py ID quick|thorough : decide one property on the current /repo tree.
   check.py replay FILE        : run a recorded counterexample against the real code."""
import os, sys, json, time, re, glob, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks
V = vlib.V
def load_known(pid):
    """known-findings.txt:  known: property=ID id=KID label=REGEX :: description"""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) label=/(.*)/ :: (.*)', l.strip())
            if m and m.group(1) == pid: out.append(dict(id=m.group(2), label=m.group(3), text=m.group(4), seen=0))
    return out
def confirm(build, run, viol, d, idx):
    path = os.path.join(d, 'm%d.txt' % idx)
    open(path, 'w').write(viol['model'])
    if run.get('noreplay'): return True, 'not replayable natively: ' + run['noreplay']
    exe = build.nat(run['h'], run.get('defs', []))
    rc, err = vlib.replay(exe, path, 40)
    tail = [l for l in err.split('\n') if 'REPLAY' in l or 'ERROR: Addr' in l or 'Assert' in l or 'SUMMARY' in l][:8]
    return rc in (7, 8, 9, 99) or rc < -1 or rc in (134, 136, 139), 'exit %s; %s' % (rc, ' | '.join(tail)[:800])
def main():
    if sys.argv[1] == 'replay':
        meta = {}; model = ''
        for l in open(sys.argv[2]):
            m = re.match(r'#(\w+) (.*)', l)
            if m: meta[m.group(1)] = m.group(2)
            else: model += l
        b = vlib.Build()
        try:
            ok, txt = confirm(b, dict(h=meta['harness'], defs=json.loads(meta['defs'])), dict(model=model), b.d, 0)
            print(('REPRODUCED: ' if ok else 'not reproduced: ') + txt)
            return 1 if ok else 0
        finally: b.close()
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    C = checks.CHECKS[pid]; t0 = time.time()
    known = load_known(pid)
    budget = 780 if tier == 'quick' else 870
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking')
    runs = []; viols = []; unconfirmed = []; notes = []; functions = set(); nviol = 0
    tot = dict(paths=0, forks=0, queries=0, solver_s=0.0, unknowns=0, insts=0, checks=0, paths_cut=0, engine_errors=0)
    replays = 0; samples = []; proved = 0; checksHit = 0; covers = {}; violated = False
    build = vlib.Build()
    try:
        try: build.bitcode()
        except Exception as e:
            notes.append('build: ' + str(e)[-800:])
        for run in C['runs']:
            if tier == 'quick' and run.get('thorough_only'): continue
            if not hasattr(build, 'all'): break
            left = budget - (time.time() - t0)
            tmo = run.get('q', 40) if tier == 'quick' else run.get('t', run.get('q', 40) * 4)
            defs = list(run.get('defs', [])) + (run.get('tdefs', []) if tier == 'thorough' else run.get('qdefs', []))
            run = dict(run, defs=defs); name = run['h'] + ' ' + ' '.join(defs)
            if left < 30: notes.append('no time left for ' + name); continue
            tmo = min(tmo, left - 20)
            try: bc = build.harness(run['h'], defs)
            except Exception as e:
                notes.append('%s: %s' % (name, str(e)[-800:])); continue
            r = vlib.run_symex(bc, tmo, [k['id'] for k in known], extra=run.get('flags', []))
            if 'fatal' in r:
                notes.append('%s: engine: %s' % (name, r['fatal'][-500:])); continue
            for k in tot: tot[k] += r.get(k, 0)
            functions |= set(r['functions'])
            complete = r['stop'] == 0 and r['paths_cut'] == 0 and r['unknowns'] == 0 and r['engine_errors'] == 0
            for l in r['labels']:
                if l['kind'] == 0: proved += l['proved']; checksHit += l['reached']
                else: covers[name + ': ' + l['name']] = l['reached']
            samples += [s for s in r['samples'][:2] if s.strip()]
            rr = dict(run=name, bounds=run.get('bounds', ''), paths=r['paths'], queries=r['queries'], solver_s=round(r['solver_s'], 2), unknown=r['unknowns'], cut=r['paths_cut'], engine_errors=r['engine_errors'], engine_error=r['error'][:200], exhaustive=complete, wall_s=r['wall_s'],
                      assertions={l['name']: [l['reached'], l['proved'], l['sat']] for l in r['labels'] if l['kind'] == 0}, witnesses={l['name']: l['reached'] for l in r['labels'] if l['kind'] == 1})
            missing = [c for c in run.get('covers', []) if not any(l['name'] == c and l['reached'] for l in r['labels'])]
            if missing: rr['witness_missing'] = missing; notes.append('%s: never reached: %s' % (name, missing))
            if r['paths'] == 0 or not r['labels']: notes.append(name + ': nothing was reached')
            runs.append(rr)
            # cross-validation: passing paths of the encoding must also pass natively
            if not run.get('noreplay') and not run.get('noxval'):
                for i, m in enumerate(r.get('sample_models', [])[:6 if tier == 'quick' else 12]):
                    if not m.strip() and i: continue
                    try:
                        mp = os.path.join(build.d, 's%d.txt' % i); open(mp, 'w').write(m)
                        rc, err = vlib.replay(build.nat(run['h'], defs), mp, 40)
                    except Exception as e: notes.append('cross-validation of %s: %s' % (name, str(e)[-200:])); break
                    replays += 1
                    if 'finished without violation' in err and rc == 0: rr['validated'] = rr.get('validated', 0) + 1
                    elif rc in (7, 8, 99) and 'no value for' not in err: r['violations'].append(dict(kind='native', label='native run of a sampled path fails', detail=err[-300:], known='', model=m))
                    else: rr['validation_mismatch'] = rr.get('validation_mismatch', 0) + 1
            seen = {}
            for v in r['violations']:
                if v['known']:
                    k = [k for k in known if k['id'] == v['known'] and re.search(k['label'], v['label'] + ' ' + v['kind'])]
                    if k: k[0]['seen'] += 1; continue
                key = (v['kind'], v['label'])
                if seen.get(key, 0) >= 2 or len(seen) > 8: continue
                seen[key] = seen.get(key, 0) + 1
                try: ok, txt = confirm(build, run, v, build.d, nviol)
                except Exception as e: ok, txt = False, 'replay failed: ' + str(e)[-300:]
                replays += 1
                rec = dict(run=name, kind=v['kind'], label=v['label'], detail=v['detail'][:400], replay=txt)
                if ok:
                    seen[key] = 9
                    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
                    rp = os.path.join(V, 'replays', '%s-%d.txt' % (pid, nviol)); nviol += 1
                    open(rp, 'w').write('#harness %s\n#defs %s\n#label %s: %s\n#detail %s\n#replay %s\n%s' % (run['h'], json.dumps(defs), v['kind'], v['label'].replace('\n', ' '), v['detail'].replace('\n', ' '), txt.replace('\n', ' '), v['model']))
                    rec['file'] = rp; viols.append(rec)
                    print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  %s: %s | %s' % (v['kind'], v['label'], txt[:300])); sys.stdout.flush()
                elif v['kind'] != 'engine': unconfirmed.append(rec)
    finally: build.close()
    for k in known: print('KNOWN-FINDING: property=%s %s%s' % (pid, k['text'], '' if k['seen'] else ' (not reached in this run)'))
    ev['coverage'] = dict(states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=replays, samples=(samples or ['none'])[:6],
        bounds=C.get('bounds', ''), runs=runs, functions_encoded=sorted(f for f in functions if f)[:400], functions_encoded_count=len(functions), instructions_executed=tot['insts'],
        queries_discharged=tot['queries'], solver_s=round(tot['solver_s'], 2), unknown_queries=tot['unknowns'], paths_cut=tot['paths_cut'], engine_errors=tot['engine_errors'],
        assertions_reached=checksHit, assertions_proved_on_path=proved, witnesses=covers, unconfirmed=unconfirmed, notes=notes,
        exhaustive_within_bounds=bool(runs) and all(r['exhaustive'] for r in runs) and not notes,
        known_findings=[dict(id=k['id'], reproduced=k['seen']) for k in known])
    ev['assumptions'] = C.get('assumptions', []) + checks.COMMON_ASSUMPTIONS
    ev['violations'] = len(viols); ev['coverage']['violation_details'] = viols
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d queries, %.1f s solver, %d assertions, %d confirmed, %d unconfirmed, %s, %.1f s%s' % (pid, tier, tot['paths'], tot['queries'], tot['solver_s'], checksHit, len(viols), len(unconfirmed), 'exhaustive' if ev['coverage']['exhaustive_within_bounds'] else 'NOT exhaustive', ev['wall_s'], (' notes: ' + '; '.join(notes)[:600]) if notes else ''))
    for u in unconfirmed[:5]: print('  unconfirmed %s %s [%s] %s' % (u['kind'], u['label'], u['detail'][:150], u['replay'][:200]))
    return 1 if viols else 0
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 0
    sys.exit(rc)
