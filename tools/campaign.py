#!/usr/bin/env python3
"""Runs planted changes against the tests, their demonstrations and the checks.

campaign.py [--workers N] [--all] [--tier T] [--no-tests] DIR...

Every DIR holds patch.diff, demo.sh and meta.json.  Each worker has scratch
copies of /repo and /verif, which are bound over the real ones in a user
namespace of its own, so that neither is touched and several can run at once.
--all runs every check and not only the one of the property; --no-tests leaves
out the build, the tests and the demonstrations.
"""
import argparse, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

ap = argparse.ArgumentParser()
ap.add_argument('--workers', type=int, default=3)
ap.add_argument('--all', action='store_true')
ap.add_argument('--quiet', action='store_true', help='the changes preserve the behaviour: report every alarm')
ap.add_argument('--tier', default='quick')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--checks', default='')
ap.add_argument('dirs', nargs='+')
args = ap.parse_args()

stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
jobs = queue.Queue()
for d in args.dirs:
    jobs.put(os.path.abspath(d))
lock = threading.Lock()


def work():
    top = tempfile.mkdtemp(prefix='campaign.', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', top + '/repo'])
        subprocess.check_call(['cp', '-a', '/verif', top + '/verif'])
        shutil.rmtree(top + '/verif/.git')

        def run(cmd, cwd='/repo', timeout=1800):
            sh = f'mount --bind {top}/repo /repo && mount --bind {top}/verif /verif && cd {cwd} && {cmd}'
            try:
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
                return r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                return 'timeout', ''

        while True:
            try:
                d = jobs.get_nowait()
            except queue.Empty:
                return
            name = os.path.basename(d)
            out = []
            shutil.rmtree(top + '/bug', ignore_errors=True)
            shutil.copytree(d, top + '/bug')
            subprocess.check_call(['git', '-C', top + '/repo', 'checkout', '-q', '--', '.'])
            prop = '?'
            if os.path.exists(d + '/meta.json'):
                prop = json.load(open(d + '/meta.json'))['property']
            has_demo = os.path.exists(d + '/demo.sh')
            if has_demo and not args.no_tests:
                rc, o = run(f'bash {top}/bug/demo.sh')
                out.append('demo-unpatched %s' % rc + ('' if rc == 0 else '  !!!\n' + o[-800:]))
            r = subprocess.run(['git', '-C', top + '/repo', 'apply', d + '/patch.diff'])
            if r.returncode:
                out.append('DOES NOT APPLY !!!')
            if not args.no_tests:
                rc, o = run('bash /opt/vp/build.sh')
                if rc:
                    out.append('BUILD FAILS !!!\n' + o[-1500:])
                else:
                    rc, o = run(f'bash /opt/vp/test.sh {top}/out.json')
                    res = json.load(open(top + '/out.json'))
                    bad = [t for t in stable if t not in set(res.get('passed', []))]
                    out.append('tests ok' if not bad else 'TESTS FAIL %s !!!' % bad[:6])
                if has_demo:
                    rc, o = run(f'bash {top}/bug/demo.sh', timeout=300)
                    out.append('demo-patched %s' % rc + ('' if rc not in (0, 4) else '  !!!' + o[-800:]))
            todo = args.checks.split(',') if args.checks else ids if args.all or args.quiet or prop == '?' else [prop]
            caught = []
            for i in todo:
                t = time.time()
                rc, o = run(f'VERIF_SEED=1 VERIF_TIER={args.tier} bash /verif/check.sh {i} {args.tier}', '/verif', 3600)
                if rc == 1 and f'VIOLATION property={i}' in o:
                    caught.append(i)
                    if args.quiet:
                        out.append('ALARM %s\n%s' % (i, o[-1500:]))
                elif rc != 0:
                    out.append('check %s: exit %s !!!\n%s' % (i, rc, o[-600:]))
                if i == prop and not args.quiet:
                    out.append('%s %s %.0fs' % (i, 'caught' if i in caught else 'MISSED !!!', time.time() - t))
            if args.all or args.quiet or args.checks:
                out.append('caught by: ' + (' '.join(caught) or '-'))
            with lock:
                print('%-28s %s' % (name, '; '.join(out)), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


ts = [threading.Thread(target=work) for _ in range(args.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
