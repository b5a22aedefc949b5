"""Replay a counterexample on the real, unpatched code.

Exit 1 when the violation shows, 0 when it does not.
"""

import json
import sys

from symx.runner import load


def main():
    with open(sys.argv[1]) as f:
        v = json.load(f)
    hs = load(v['harness'].split('.')[0])
    from symx.harness import run_concrete

    r = run_concrete(hs[v['harness']], v['inputs'], v['choices'])
    for n, w in r['failures']:
        print(f'{v["harness"]}: {n}: {w}')
    return 1 if r['failures'] else 0


if __name__ == '__main__':
    sys.exit(main())
