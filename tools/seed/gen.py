#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the edits and demonstrations in bugs*.py (development tool; no check uses it).
usage: gen.py [id ...]"""
import importlib.util, json, os, subprocess, sys, shutil, glob
here=os.path.dirname(os.path.abspath(__file__)); out=os.path.join(here,'..','..','seeded')
bugs=[]
for f in sorted(glob.glob(here+'/bugs*.py')):
    spec=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m); bugs+=m.BUGS
want=sys.argv[1:]
PRE='''package main

import (
%s)

func fail(f string, a ...interface{}) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }

func build(keys []string, val func(int) int32) (*dawg.Dawg, *dawg.Dictionary) {
	b := dawg.NewDawgBuilder()
	for i, k := range keys {
		if !b.InsertStringValue(k, val(i)) {
			fail("insert %%q", k)
		}
	}
	d := dawg.NewDawg()
	b.Finish(d)
	return d, d.Build()
}

'''
for b in bugs:
    if want and b['id'] not in want: continue
    d=os.path.join(out,b['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=f'/tmp/seedgen'; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in b['edits']:
        s=open(f'{w}/{f}').read()
        assert s.count(o)==1,(b['id'],f,o,s.count(o))
        open(f'{w}/{f}','w').write(s.replace(o,n))
    subprocess.call(['gofmt','-l']+[f'{w}/{f}' for f,_,_ in b['edits']])
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    if 'intest' in b:
        open(d+'/demo_test.go.txt','w').write('package dawg\n\nimport "testing"\n\n'+b['intest'])
        open(d+'/demo.sh','w').write(open(here+'/intest.sh.tmpl').read())
    elif 'go' in b:
        imps=sorted(set(['fmt','os','github.com/deNULL/dawg']+b.get('imports',[])))
        code=PRE%''.join('\t"%s"\n'%i for i in imps)+b['go']
        open(d+'/main.go.txt','w').write(code)
        open(d+'/demo.sh','w').write(open(here+'/demo.sh.tmpl').read())
    else:
        open(d+'/demo.sh','w').write(open(here+'/tool.sh.tmpl').read()+b['sh'])
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
