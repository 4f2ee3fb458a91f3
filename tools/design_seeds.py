"""prints the seed table of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
print('| planted bug | property (its check catches it) | what it breaks; needs |\n|---|---|---|')
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} Needs: {m['needs']} |")
