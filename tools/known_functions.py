"""write pyded/renamed.json from the modules of /repo (see pyded/renamed.py)"""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyded import renamed
repo = os.environ.get('REPO', '/repo')
out = {}
for p in sorted(glob.glob(repo + '/lom/**/*.py', recursive=True)):
    name = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
    d = renamed.describe(ast.parse(open(p).read()))
    if d:
        out[name] = d
json.dump(out, open(renamed.TABLE, 'w'), indent=0, sort_keys=True)
print({k: len(v) for k, v in out.items()})
