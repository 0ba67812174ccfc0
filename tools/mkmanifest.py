"""writes MANIFEST.json"""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.getcwd())
ids = [f'C{k:02d}' for k in range(1, 24)]
BOUNDED = 'no obligation under contract yet; the executable contract is checked at run time on generated inputs (bounded stand-in)'
try:
    from tools.levels import LEVELS
except ImportError:
    LEVELS = {}
checks = []
for p in ids:
    lv, note = LEVELS.get(p, ('exploration', BOUNDED))
    checks.append({
        'property': p, 'quick_cmd': f'bin/check {p}', 'thorough_cmd': f'bin/check {p} --tier thorough',
        'technique': 'contract-based deductive verification (symbolic execution of the real code against contracts, z3 '
                     'and matrix-algebra back ends), with run-time contract checking as labelled bounded stand-in'
                     if lv == 'proof' else 'run-time checking of executable contracts on the real code (bounded stand-in)',
        'level': lv, 'level_note': note})
json.dump({
    'version': 1, 'setup_cmd': 'true', 'checks': checks,
    'not_applicable': [],
}, open('MANIFEST.json', 'w'), indent=1)
