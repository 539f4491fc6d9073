"""developer tool: generate and verify one unit"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))
import vx, all_units
for name in sys.argv[1].split(','):
    text, spans = vx.generate(vx.UNITS[name])
    os.makedirs('/tmp/vu', exist_ok=True)
    p = f'/tmp/vu/{name}.rs'
    open(p, 'w').write(text)
    r = subprocess.run(['verus', p, '--expand-errors' if '-e' in sys.argv else '--multiple-errors=5'] if '-e' in sys.argv else ['verus', p, '--multiple-errors', '5'], capture_output=True, text=True, cwd='/tmp/vu')
    out = r.stderr + r.stdout
    lim = 9000
    print(out if len(out) < lim else out[:lim] + '\n...\n' + out[-300:])
