/*
 * The programs under faults (C27): every allocation, every opening of a file, and every byte read or written fails in turn.
 */
#include "mc.h"
#include "resdet.h"
#include "fmt.h"
#include "proc.h"

static char* av[24]; static int ac; static char paths[6][1200], outp[1200], countp[1200], dictp[1200];
static char line[2000];
static void arg(const char* s) { av[ac++] = (char*)s; av[ac] = NULL; }
static struct pic pics[5]; static const char* const iname[] = {"a PGM","a film in PFM","a film in Y4M","a broken film in PFM","a colour PFM"};
static void prepare(void) {
	static bool did; if(did) return; did = true;
	mk_pgm(&pics[0],9,6,255,4,"\n"," ","\n","\n",-1);
	mk_pfm(&pics[1],5,4,3,0,2,3,"\n","1.0",true);
	mk_y4m(&pics[2],6,5,2,9,"W%W H%H %C","",3);
	mk_pfm(&pics[3],5,4,2,0,0,3,"\n","1.0",true); pics[3].b.n -= 3;
	mk_pfm(&pics[4],4,4,1,1,0,3,"\n","1.0",true);
	for(int i = 0; i < 5; i++) { snprintf(paths[i],1200,"%s/in%d.%s",mc_scratch,i,pics[i].ext); write_file(paths[i],pics[i].b.p,pics[i].b.n); }
	snprintf(outp,1200,"%s/out.pfm",mc_scratch); snprintf(countp,1200,"%s/count",mc_scratch); snprintf(dictp,1200,"%s/dict",mc_scratch);
	struct buf d = {0}; buf_fmt(&d,"%s\n4\n6\n\n%s\n5 3\n4 2\n",paths[0],paths[1]); write_file(dictp,d.p,d.n); free(d.p);
	setenv("MC_COUNT",countp,1); setenv("MC_FAULT","",1);
}
struct end { int st; bool hit; long allocs, opens, seeks; char* out,* err; unsigned char* file; size_t n; };
static const char* in_path; /* standard input */
static void once(const char* fault, struct end* e, const char* w) {
	memset(e,0,sizeof *e);
	unlink(countp); if(*mc_mode == 'i') unlink(outp);
	setenv("MC_FAULT",fault,1); run(av,in_path); setenv("MC_FAULT","",1);
	check_exit(w);
	FILE* f = fopen(countp,"r"); int hit = 0; if(!f || fscanf(f,"%ld %ld %d %ld",&e->allocs,&e->opens,&hit,&e->seeks) != 4) { fprintf(stderr,"no counts\n"); _exit(70); } fclose(f);
	e->hit = hit; e->st = WEXITSTATUS(status); e->out = strdup(out); e->err = strdup(err);
	if(*mc_mode == 'i' && (f = fopen(outp,"rb"))) { fseek(f,0,SEEK_END); e->n = ftell(f); rewind(f); e->file = malloc(e->n+1); if(fread(e->file,1,e->n,f) != e->n) _exit(70); fclose(f); }
}
static void done(struct end* e) { free(e->out); free(e->err); free(e->file); memset(e,0,sizeof *e); }

#define NOPT 12
static const char* const ropts[NOPT][6] = {{"-v3"},{"-o1","-v3"},{"-o1","-n1","-p","-v3"},{"-n1","-v3"},{"-mmag","-v3"},{"-morig","-v3"},{"-mzerox","-v3"},{"-fauto","-v2"},{"-v0"},{"-v1","-o3"},{"-v-1"},{"-p","-f1"}};
static void mc_case(void) {
	prepare();
	char m = *mc_mode; ac = 0; arg("tool"); size_t sizes[4] = {0}; int nfiles = 1;
	char what[300]; int in = 0, o = 0, via = 0;
	if(m == 'p') { arg(dictp); sizes[0] = 0; nfiles = 3; snprintf(what,sizeof what,"profile of two images"); }
	else {
		in = mc_choose(5);
		if(m == 'r') { o = mc_choose(NOPT); via = mc_choose(4); arg("-x0"); arg("-r1"); for(int i = 0; i < 6 && ropts[o][i]; i++) arg(ropts[o][i]); if(via & 1) { arg("-R"); arg(pics[in].reader); } if(via == 2) { arg("-t"); arg(pics[in].ext); } arg(via > 1 ? "-" : paths[in]); snprintf(what,sizeof what,"resdet -x0 -r1 %s %s %s%s, of %s",ropts[o][0],ropts[o][1] ? ropts[o][1] : "",ropts[o][1] && ropts[o][2] ? "..." : "",(const char*[]){""," -R"," -t ... from a pipe"," -R ... from standard input"}[via],iname[in]); }
		else if(m == 's') { arg(paths[in]); int k = mc_choose(5); RDMethod* l = resdet_methods(); if(k < 4) arg(l[k].name); snprintf(what,sizeof what,"stat of %s with method %s",iname[in],k < 4 ? l[k].name : "left out"); }
		else { arg(paths[in]); arg(outp); snprintf(what,sizeof what,"imgread of %s",iname[in]); }
	}
	int kind = mc_choose(6); if(kind == 4 && m != 'i') mc_skip(); if(kind == 2 && via > 1) mc_skip();
	mc_mine();
	in_path = via == 3 ? paths[in] : NULL; proc_pipe = via == 2 ? pics[in].b.p : NULL; proc_pipe_n = pics[in].b.n;
	/* without a fault */
	struct end b, e; once("",&b,what);
	char fault[60], t[500];
	int k = 0, f = 1;
	switch(kind) {
		case 0: case 1: if(!b.allocs) { done(&b); mc_skip(); } k = 1+mc_choose(b.allocs+(kind == 0)); snprintf(fault,sizeof fault,"%c%d",kind ? 'M' : 'm',k); snprintf(t,sizeof t,"%s when allocation %d%s fails",what,k,kind ? " and every later one" : ""); break;
		case 2: if(!b.opens) { done(&b); mc_skip(); } k = 1+mc_choose(b.opens); snprintf(fault,sizeof fault,"o%d",k); snprintf(t,sizeof t,"%s when opening file %d fails",what,k); break;
		case 3: {
			f = m == 'p' ? 1+mc_choose(3) : 1; size_t len;
			if(m == 'p' && f == 1) { FILE* d = fopen(dictp,"r"); fseek(d,0,SEEK_END); len = ftell(d); fclose(d); } else len = pics[m == 'p' ? f-2 : in].b.n;
			k = mc_choose(len+1); if(via > 1) { snprintf(fault,sizeof fault,"i%d",k); snprintf(t,sizeof t,"%s when reading fails at byte %d",what,k); break; }
			snprintf(fault,sizeof fault,"r%d:%d",f,k); snprintf(t,sizeof t,"%s when reading file %d fails at byte %d",what,f,k); break;
		}
		case 5: if(!b.seeks) { done(&b); mc_skip(); } k = 1+mc_choose(b.seeks); snprintf(fault,sizeof fault,"s%d",k); snprintf(t,sizeof t,"%s when seek %d fails",what,k); break;
		default: k = mc_choose(b.n+1); snprintf(fault,sizeof fault,"w2:%d",k); snprintf(t,sizeof t,"%s when writing fails at byte %d",what,k);
	}
	once(fault,&e,t);
	bool same = e.st == b.st && !strcmp(e.out,b.out) && e.n == b.n && !(b.n && memcmp(e.file,b.file,b.n));
	if(kind == 5 && e.hit && same) ; /* there is another way than seeking */
	else if(!e.hit) MC_CHECK(same && (m == 'p' || !strcmp(e.err,b.err)),"deterministic","%s: nothing failed, and yet status %d and \"%.200s\" instead of %d and \"%.200s\"",t,e.st,e.out,b.st,b.out);
	else {
		mc_nontriv++; mc_extra[0]++;
		if(m == 'p') {
			MC_CHECK(e.st || *e.err,"silent","%s: ends in success without a word; prints \"%.300s\"",t,e.out);
			if(kind == 3 && f == 1) MC_CHECK(e.st,"status","%s: ends in success; prints \"%.300s\"",t,e.out);
		}
		else {
			MC_CHECK(e.st && *e.err,"silent","%s: status %d, \"%.200s\" on standard error; prints \"%.200s\"",t,e.st,e.err,e.out);
			if(m != 'i') MC_CHECK(!*e.out || m == 's' && !strncmp(e.out,b.out,strlen(e.out)),"output","%s: prints \"%.200s\"",t,e.out);
			else MC_CHECK(e.n <= b.n && !(e.n && memcmp(e.file,b.file,e.n)),"output","%s: what it wrote is not the beginning of what it should write",t);
		}
	}
	mc_outcome(mc_hash(e.out,strlen(e.out),mc_hash(t,strlen(t),e.st)));
	if(mc_want_sample()) mc_sample("%s: status %d, %.100s",t,e.st,*e.err ? e.err : e.out);
	mc_trace("%s\nstatus %d\n%s%s",t,e.st,e.out,e.err);
	done(&b); done(&e);
}
