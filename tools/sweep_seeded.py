"""Runs the quick check of its own property against every planted bug (a tool for the author: no check uses it).

usage: sweep_seeded.py [ids...]   writes the table of DESIGN.md on stdout
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def main():
    folder = os.path.join(HERE, 'seeded')
    ids = sys.argv[1:] or sorted(os.listdir(folder))
    print('| planted bug | needs | caught by |\n|---|---|---|', flush=True)
    for i in ids:
        meta = json.load(open(os.path.join(folder, i, 'meta.json')))
        scratch = tempfile.mkdtemp(prefix='seeded-')
        try:
            work = os.path.join(scratch, 'repo')
            subprocess.run(['cp', '-a', REPO, work], check=True)
            subprocess.run(['git', '-C', work, 'apply', os.path.join(folder, i, 'patch.diff')], check=True)
            run = subprocess.run([os.path.join(HERE, 'check'), meta['property'], 'quick'],
                                 env=dict(os.environ, MC_REPO=work), capture_output=True, text=True)
            m = re.search(r'^family (\S+) case', run.stdout, re.M)
            if run.returncode == 1 and 'VIOLATION property=' + meta['property'] in run.stdout:
                verdict = '{} `{}`'.format(meta['property'], m.group(1) if m else '?')
            else:
                verdict = 'missed (exit {})'.format(run.returncode)
        finally:
            shutil.rmtree(scratch)
        print('| {} | {} | {} |'.format(i, meta['needs'].replace('|', '/').replace('\n', ' '), verdict), flush=True)


main()
