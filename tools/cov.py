import json,sys
for i in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{i}.json'))['coverage'];print(i, d['situations_covered'], d['design_models'])
