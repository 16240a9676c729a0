"""
Tries planted bugs: python3 tools/seeded.py ID... (all of them by default).

For each of them works in a scratch copy of /repo: applies the patch, builds,
runs the stable tests, the demonstration with and without the change
and the check of the property. Prints one line per bug.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
PYTHON = '/opt/venv/bin/python'
PLUGIN = '''
from hypothesis import Phase, settings

settings.register_profile('vp', max_examples=40, database=None,
                          phases=[Phase.explicit, Phase.generate])
settings.load_profile('vp')
'''


def run(*args, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(args, cwd=cwd, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)


def tests(copy):
    work = tempfile.mkdtemp()
    with open(os.path.join(work, 'vp_hypothesis_profile.py'), 'w') as f:
        f.write(PLUGIN)
    xml = os.path.join(work, 'junit.xml')
    env = {**os.environ, 'PYTHONPATH': work, 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0',
           'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(work, 'h')}
    run(PYTHON, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p',
        'vp_hypothesis_profile', '--no-cov', '-n', '8', '--dist', 'worksteal',
        '--max-worker-restart=400', '--timeout=180',
        '--timeout-method=thread', '-o', 'faulthandler_timeout=200', '-o',
        'faulthandler_exit_on_timeout=true', '--hypothesis-seed=0',
        '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
        '--junitxml=' + xml, cwd=copy, env=env)
    failed = set()
    total = 0
    if os.path.exists(xml):
        for case in ET.parse(xml).getroot().iter('testcase'):
            total += 1
            if any(child.tag in ('failure', 'error') for child in case):
                failed.add(case.get('classname') + '::' + case.get('name'))
    shutil.rmtree(work)
    failed = {name for name in failed
              if 'test_set_winding_count' not in name}
    return total, sorted(failed)


def main(ids):
    ids = ids or sorted(os.listdir(SEEDED))
    flags = {x for x in ids if x.startswith('-')}
    for id_ in ids:
        if id_ in flags:
            continue
        home = os.path.join(SEEDED, id_)
        with open(os.path.join(home, 'meta.json')) as f:
            meta = json.load(f)
        copy = os.path.join('/tmp/s', id_)
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs('/tmp/s', exist_ok=True)
        run('cp', '-a', REPO, copy)
        report = [id_, meta['property']]
        patch = os.path.join(home, 'patch.diff')
        rc, out = run('git', 'apply', patch, cwd=copy)
        if rc:
            print(id_, 'does not apply', out, flush=True)
            continue
        with open(patch) as f:
            text = f.read()
        native = '.hpp' in text or '.cpp' in text
        if native:
            rc, out = run(PYTHON, 'setup.py', 'build_ext', '--inplace',
                          '--force', cwd=copy)
            if rc:
                print(id_, 'does not build', out[-3000:], flush=True)
                continue
        demo = os.path.join(home, 'demo.sh')
        rc, out = run('bash', demo, cwd=REPO, timeout=300)
        report.append('demo-clean=%s' % rc)
        if rc:
            print(out[-2000:], flush=True)
        rc, out = run('bash', demo, cwd=copy, timeout=300)
        report.append('demo-bug=%s' % rc)
        if not rc or '-v' in flags:
            print(out[-2000:], flush=True)
        if '-n' not in flags:
            total, failed = tests(copy)
            report.append('tests=%s failed=%s' % (total, failed[:5]))
        checks = ([x[2:] for x in flags if x.startswith('-C') and x != '-C']
                  or ([] if '-C' in flags else [meta['property']]))
        if '-A' in flags:
            checks = ['C%02d' % i for i in range(1, 15)]
        for check in checks:
            rc, out = run(os.path.join(VERIF, 'check'), check, 'quick',
                          cwd=VERIF,
                          env={**os.environ, 'VERIF_REPO': copy,
                               'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            line = next((x for x in out.splitlines()
                         if x.startswith('VIOLATION')), '')
            report.append('%s=%s %s' % (check, rc, line[:90]))
            if '-v' in flags or rc not in (0, 1):
                print(out[-3000:], flush=True)
        print(' '.join(report), flush=True)
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
