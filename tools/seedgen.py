#!/usr/bin/env python3
# usage: seed(id, prop, [(file,old,new)...], demo C source (main(argc, argv): argv[1] scratch dir), needs, breaks, kiss=False)
import os, sys, json, subprocess, shutil, tempfile
OUT="/verif/seeded"
def seed(id, prop, edits, demo, needs, breaks, kiss=False, sh=None, san=False):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d=os.path.join(OUT,id); os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp()
    subprocess.run(["git","clone","-q","/repo",t+"/r"],check=True)
    for f,o,n in edits:
        p=os.path.join(t,"r",f); s=open(p).read()
        assert s.count(o)==1, (id,f,s.count(o),o)
        open(p,"w").write(s.replace(o,n))
    diff=subprocess.run(["git","-C",t+"/r","diff"],stdout=subprocess.PIPE,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    if sh: open(d+"/demo.sh","w").write(sh)
    else:
        lib = "_build/kissfft" if kiss else "."
        open(d+"/demo.c","w").write(PRE+demo)
        open(d+"/demo.sh","w").write(f'''#!/bin/bash
# compiles demo.c against the library built in the current directory; exit status 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
gcc -O1 -w -D_GNU_SOURCE -Iinclude "$d/demo.c" -o "$t/demo" -L{lib} -lresdet -lpng -ljpeg -lm -lpthread || exit 2
ln -s "$PWD/{lib}/libresdet.so" "$t/libresdet.so.3"; export LD_LIBRARY_PATH="$t"
(cd "$t" && timeout 250 ./demo "$t"); r=$?
find "$t" -mindepth 1 -delete; rmdir "$t"
exit $r
''')
    os.chmod(d+"/demo.sh",0o755)
PRE='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include "resdet.h"
#define FAIL(...) do { fprintf(stderr,__VA_ARGS__); fputc('\\n',stderr); exit(1); } while(0)
static uint32_t rs = 1; static float rnd(void) { rs = rs*1664525u+1013904223u; return (rs>>8)/16777216.f; }
static void put(const char* name, const void* p, size_t n) { FILE* f = fopen(name,"wb"); fwrite(p,1,n,f); fclose(f); }
'''
