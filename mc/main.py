"""./check <ID> [quick|thorough] [--shard SUBSTR] [--replay FILE]"""
import glob
import importlib
import json
import os
import sys
import time

from . import env

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(HERE, 'known_findings.jsonl')):
            line = line.strip()
            if not line.startswith('{'):
                continue
            r = json.loads(line)
            if r.get('property') == pid and r.get('status') == 'known':
                out[r['key']] = r
    except OSError:
        pass
    return out


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    shard_filter = replay = None
    rest = argv[1:]
    i = 0
    while i < len(rest):
        if rest[i] in ('quick', 'thorough'):
            tier = rest[i]
        elif rest[i] == '--shard':
            i += 1
            shard_filter = rest[i]
        elif rest[i] == '--replay':
            i += 1
            replay = json.load(open(rest[i]))
            shard_filter, tier = replay['shard'], replay['tier']
        i += 1
    seed = int(os.environ.get('VERIF_SEED') or 0)
    known = known_findings(pid)
    modname = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, 'mc/props', pid.lower() + '_*.py'))]
    if len(modname) != 1:
        print('no such property module', pid)
        return 2
    fails, results, how, mod = [], [], '', None
    try:
        how = env.activate()
        from . import core
        mod = importlib.import_module('mc.props.' + modname[0])
    except Exception as e:
        import traceback
        fails.append(('build', {'key': 'build', 'trace': None, 'msg': traceback.format_exc()[-3500:]}))
    if mod is not None:
        shards = [(n, p) for n, p in mod.shards(tier)]
        names = [n for n, _ in shards]
        assert len(set(names)) == len(names), 'duplicate shard names'
        if shard_filter:
            shards = [s for s in shards if shard_filter in s[0]]
        limit = 600 if tier == 'quick' else 24 * 3600
        results = core.run_shards(mod, tier, shards, set(known), limit)
        for r in results:
            for f in r['fails']:
                fails.append((r['name'], f))
    new = [(n, f) for n, f in fails if f['key'] not in known]
    hit = {f['key'] for n, f in fails if f['key'] in known}
    if replay is None:
        states = set()
        for r in results:
            states |= r['states']
        samples = [s for r in results for s in r['samples']][:5]
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': len(states), 'transitions': sum(r['transitions'] for r in results),
                           'traces_validated_against_impl': sum(r['traces'] for r in results),
                           'samples': samples, 'exhaustive': not new,
                           'shards': {r['name']: {'states': len(r['states']), 'transitions': r['transitions'],
                                                  'traces': r['traces'], 'wall_s': round(r['wall'], 1)}
                                      for r in results},
                           'bounds': getattr(mod, 'BOUNDS', {}).get(tier, '') if mod else '',
                           'implementation': how},
              'assumptions': getattr(mod, 'ASSUMPTIONS', []) if mod else [],
              'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        if not shard_filter:
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
            json.dump(ev, open(tmp, 'w'), indent=1)
            os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
        print('%s %s: states=%d transitions=%d traces=%d shards=%d wall=%.1fs' % (
            pid, tier, len(states), ev['coverage']['transitions'],
            ev['coverage']['traces_validated_against_impl'], len(results), time.time() - t0))
        if os.environ.get('MC_TIMES'):
            for r in sorted(results, key=lambda r: -r['wall'])[:12]:
                print('   %-50s %6.1fs st=%d tr=%d' % (r['name'], r['wall'], len(r['states']), r['transitions']))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for n, (shard, f) in enumerate(new[:5]):
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, n))
            json.dump({'property': pid, 'tier': tier, 'shard': shard, 'key': f['key'], 'msg': f['msg'],
                       'history': f['trace'],
                       'replay_with': './check %s --replay %s' % (pid, path)}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  shard=%s key=%s' % (shard, f['key']))
            print('  ' + f['msg'][:1500].replace('\n', '\n  '))
            print('  history: ' + json.dumps(f['trace'])[:1500])
        return 1
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
