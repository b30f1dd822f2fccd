#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]: decide one property against /repo's working tree."""
import importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib')
sys.dont_write_bytecode = True
import vf


def main():
    if len(sys.argv) < 2: print(__doc__); return 9
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = json.load(open(sys.argv[3]))['replay']
        print('property', pid, 'case', r.get('case'), '\n', r.get('failure', r))
        if r.get('cmd'):
            import shlex
            print('+', ' '.join(map(shlex.quote, r['cmd'])))
            return subprocess.run(r['cmd'], env=vf.clean_env(), cwd=vf.scratch()).returncode
        return 0
    try:
        import checks
        checks.run(pid)
    except vf.BuildError as e:
        print('BUILD ERROR (no verdict):\n' + str(e)[:8000])
        return 2


if __name__ == '__main__':
    sys.exit(main())
