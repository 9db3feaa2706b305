#!/usr/bin/env python3
"""Entry point:  run.py <PROPERTY> [--replay FILE]"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            rec = json.load(f)
        common.prepare()
        if hasattr(mod, 'setup'):
            mod.setup()
        res = mod.run_case(retuple(rec['case']))
        print(json.dumps(res, indent=1, default=str))
        sys.exit(1 if res.get('fail') else 0)
    run = mod.main()
    sys.exit(run.finish())


def retuple(x):
    if isinstance(x, list):
        return tuple(retuple(i) for i in x)
    if isinstance(x, dict):
        return {k: retuple(v) for k, v in x.items()}
    return x


if __name__ == '__main__':
    main()
