import json,glob,os,collections
head=open('/verif/tools/design_head.md').read().replace("contourpy-free stand-ins, ","").rstrip()
props=open('/verif/tools/design_props.md').read().rstrip()
rest=open('/verif/tools/design_rest.md').read().rstrip()
rows=["| bug | property | needs | breaks | caught by |","|---|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),m.get('caught_by',m['property']+' quick')))
open('/verif/DESIGN.md','w').write("\n\n".join([head,props,rest.replace("@TABLE@","\n".join(rows)).replace("@N@",str(len(rows)-2))])+"\n")
