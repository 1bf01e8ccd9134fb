"""python -m dst.replay FILE [-v] -- replay one recorded run.

Exit 1: the recorded violation was reproduced.  Exit 0: the run is clean now.
Exit 3: it fails, but differently.
"""
import sys

if __name__ == '__main__':
    from dst import runner
    d, r = runner.replay_file(sys.argv[1])
    for line in (r.log or []):
        print(line)
    print(f'status={r.status} class={r.cls}\n{r.msg}')
    if r.status == 'ok':
        sys.exit(0)
    sys.exit(1 if r.cls == d['violation_class'] else 3)
