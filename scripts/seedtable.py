# prints the table of planted bugs of DESIGN.md
import json, glob
print("| planted change | property | needs, to show | breaks |")
print("|---|---|---|---|")
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: ' '.join(str(s).replace('|', '/').split())
    print('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], c(m['needs']), c(m['what_it_breaks'])))
