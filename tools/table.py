"""the table of planted bugs of DESIGN.md, from seeded/*/meta.json and the output of plant.py (argument)"""
import glob, json, re, sys
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) demo.*\|\s+(C\d\d):rc=(\d)\s*(\[.*?\])?', l)
        if m: res[m[1]] = (m[3], m[4])
print('| bug | property | needs | what it breaks | caught by the monitors |\n|---|---|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    k = f.split('/')[-2]; d = json.load(open(f))
    r = res.get(k)
    c = '?' if not r else ', '.join(eval(r[1])[:4]) if r[0] == '1' else 'MISSED'
    print(f'| {k} | {d["property"]} | {d["needs"]} | {d["what_it_breaks"]} | {c} |')
