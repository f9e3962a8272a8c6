import sys
f,ids=sys.argv[1],sys.argv[2:]
sys.argv=['x']
exec(open('/verif/tools/plant.py').read().replace('if __name__','if 0 and __name__'))
ns={}
exec(open(f).read(),ns)
for b in ns['BUGS']:
    if b['id'] in ids: print(b['id'],one(b))
