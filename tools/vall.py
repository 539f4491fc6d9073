"""developer tool: verify every unit, in parallel, and print one line for each"""
import sys, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))
import vx, all_units, re
os.makedirs('/tmp/vu', exist_ok=True)
def go(n):
    try:
        open(f'/tmp/vu/{n}.rs', 'w').write(vx.generate(vx.UNITS[n])[0])
    except Exception as e: return n, 0, repr(e)
    t = time.time()
    r = subprocess.run(['verus', f'/tmp/vu/{n}.rs'], capture_output=True, text=True, cwd='/tmp/vu')
    m = re.findall(r'verification results.*', r.stdout + r.stderr)
    return n, time.time() - t, m[0] if m else 'FAILED ' + r.stderr[:200]
pat = sys.argv[1] if len(sys.argv) > 1 else ''
with ThreadPoolExecutor(6) as ex:
    for n, t, m in ex.map(go, [n for n in vx.UNITS if re.search(pat, n)]): print(f'{n:24} {t:6.1f} {m}', flush=True)
