#!/usr/bin/env python3
"""Writes DESIGN.md from its head and tail, properties.jsonl, techniques.json,
KNOWN_FINDINGS.txt, the seeded bugs and the rules in the harness sources."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
out=open('tools/design_head.md').read()
tech=json.load(open('tools/techniques.json'))
src=''.join(open(f).read() for f in sorted(glob.glob('harness/*.go')))
def strings(name,blk):
    m=re.search(name+r':\s*\[\]string\{(.*?)\}\s*,\n',blk,re.S)
    return re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(1)) if m else []
out+='\n## Properties and how each is decided\n'
try: costs=json.load(open('tools/costs.json'))
except OSError: costs={}
for line in open('properties.jsonl'):
    p=json.loads(line); i=p['id']
    blk=re.search(r'register\(&Prop\{ID:\s*"%s"(.*?)\n\}'%i,src,re.S).group(1).split('register(')[0]
    rule=re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"|Rule:\s*`([^`]*)`',blk); rule=rule.group(1) or rule.group(2)
    secs=re.findall(r'Name:\s*"([^"]+)",\s*Quick:\s*(\d+),\s*Thorough:\s*(\d+)',blk)
    out+='\n### %s %s\n\n'%(i,p['title'])
    out+='%s\n\n'%p['statement']
    out+='*Method*: %s. *Level*: %s\n\n'%(tech[i][0],tech[i][1])
    out+='*Driven and judged*: %s\n\n'%rule.replace('\\"','"')
    a=strings('Assumptions',blk)
    if a: out+='*Excluded or assumed*: %s.\n\n'%'; '.join(a).replace('\\"','"')
    out+='*Bounds* (cases quick/thorough): %s. *Must be observed*: %s.'%(', '.join('%s %s/%s'%s for s in secs),', '.join(strings('Need',blk)))
    if i in costs: out+=' *Cost*: about %d s quick.'%max(1,round(costs[i]))
    out+='\n\n*Why tests cannot*: %s\n'%p['why_tests_cant']
out+='\n## Defects found in the original code and repaired\n\nEach is one `fix:` commit in /repo; `KNOWN_FINDINGS.txt` lists the same. No finding is open.\n\n'
for l in open('KNOWN_FINDINGS.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out+='* %s `%s` %s\n'%m.groups()
out+='\n## Planted bugs and the checks that catch them\n\nEach is in `seeded/<id>/`. "strengthened" means that the check missed it at first.\n\n| bug | property | needs | result |\n|---|---|---|---|\n'
try: notes=json.load(open('tools/seed_notes.json'))
except OSError: notes={}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(f)); i=f.split('/')[1]
    out+='| %s | %s | %s | %s |\n'%(i,d['property'],d['needs'],notes.get(i,'caught'))
try: out+='\n'+open('tools/design_mutants.md').read()
except OSError: pass
out+=open('tools/design_tail.md').read()
open('DESIGN.md','w').write(out)
