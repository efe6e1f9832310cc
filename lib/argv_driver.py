"""What the experiment scripts make of their command lines.

    python argv_driver.py COMMANDS.json OUT.json

COMMANDS: {script: [argv, ...]}. Each script is executed up to the parsing of its arguments and stopped there; all its
command lines are given to its own parser. OUT: {script: [settings or {"__rejected__": message}]}.
"""
import sys
import json
import argparse
import io
import contextlib
import runpy

with open(sys.argv[1]) as f:
    commands = json.load(f)
out_path = sys.argv[2]
real = argparse.ArgumentParser.parse_args
real_known = argparse.ArgumentParser.parse_known_args


class Parsed(BaseException):
    pass


res = {}
for script, argvs in commands.items():
    got = []

    def parse(self, args=None, namespace=None):
        for a in argvs:
            err = io.StringIO()
            try:
                with contextlib.redirect_stderr(err):
                    ns, extra = real_known(self, a)
                got.append(vars(ns) if not extra else {'__rejected__': f'unrecognised {extra}'})
            except SystemExit:
                got.append({'__rejected__': err.getvalue()[-300:]})
        raise Parsed

    argparse.ArgumentParser.parse_args = parse
    sys.argv = [script]
    try:
        runpy.run_path(script, run_name='__main__')
        got = [{'__rejected__': 'the script takes no arguments'}] * len(argvs)
    except Parsed:
        pass
    res[script] = got
with open(out_path, 'w') as f:
    json.dump(res, f, default=repr)
print('SCRIPT-DONE')
