"""prints the table of planted bugs for DESIGN.md"""
import json, os, glob
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
for f in sorted(glob.glob(D + '/*/meta.json')):
    m = json.load(open(f))
    print(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
