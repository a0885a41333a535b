/*
 * mc.h - a small stateless explorer.
 *
 * A harness defines mc_case(): one execution of the code under test, closed by choices.  Every source of
 * nondeterminism is resolved by mc_choose(n) (a value in 0..n-1).  The explorer runs mc_case() again and again,
 * depth first, until every combination of choices has been executed; nothing is sampled.  Work is divided over
 * processes by mc_mine(), which keeps the executions whose choices so far hash to this shard.
 *
 * A violation is identified by a signature; signatures listed in the known-findings file are counted and the
 * exploration goes on, any other one ends the shard with the choice sequence that replays it.
 */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <setjmp.h>
#include <errno.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

static void mc_case(void);

#define MC_MAXCH 4096
struct mc_status { volatile uint32_t n; volatile uint32_t ch[MC_MAXCH]; volatile uint64_t execs; volatile char note[256]; };
static struct mc_status* mc_st;
static int mc_arity[MC_MAXCH], mc_len; /* stack of choices of the current execution and their arities */
static int mc_prefix;                  /* choices forced from the previous execution */
static bool mc_replaying;
static int mc_tier, mc_shard, mc_nshards = 1, mc_hang = 60;
static unsigned mc_seed = 1;
static double mc_budget = 1e9;
static const char* mc_prop = "?",* mc_out,* mc_knownfile,* mc_scratch = "/tmp",* mc_mode = "",* mc_program = "";
static uint64_t mc_execs, mc_trans, mc_nontriv, mc_capped, mc_extra[8];
static jmp_buf mc_skipbuf;
static FILE* mc_outf;

/* ---- growing hash sets of 64-bit fingerprints ---- */
struct mc_set { uint64_t* t; size_t cap, n; };
static struct mc_set mc_states, mc_outcomes;
static void mc_set_add(struct mc_set* s, uint64_t h) {
	if(!h) h = 1;
	if(s->n*2 >= s->cap) {
		size_t oc = s->cap; uint64_t* o = s->t;
		s->cap = oc ? oc*2 : 1024;
		size_t sz = s->cap*8;
		s->t = mmap(NULL,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
		s->n = 0;
		for(size_t i = 0; i < oc; i++) if(o[i]) mc_set_add(s,o[i]);
		if(o) munmap(o,oc*8);
	}
	size_t i = (h*0x9e3779b97f4a7c15ull) & (s->cap-1);
	while(s->t[i] && s->t[i] != h) i = (i+1) & (s->cap-1);
	if(!s->t[i]) { s->t[i] = h; s->n++; }
}
static inline uint64_t mc_hash(const void* p, size_t n, uint64_t h) {
	const unsigned char* b = p;
	if(!h) h = 1469598103934665603ull;
	for(size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h ^ (h >> 29);
}
static inline uint64_t mc_hashi(uint64_t v, uint64_t h) { return mc_hash(&v,sizeof v,h); }
static inline void mc_state(uint64_t h) { mc_set_add(&mc_states,h); }
static inline void mc_outcome(uint64_t h) { mc_set_add(&mc_outcomes,h); }
static inline void mc_step(void) { mc_trans++; }

/* ---- choices ---- */
static int mc_choose(int n) {
	if(n <= 0) { fprintf(stderr,"mc: empty choice\n"); _exit(70); }
	if(mc_len >= MC_MAXCH) { fprintf(stderr,"mc: too many choices\n"); _exit(70); }
	int v;
	if(mc_len < mc_prefix) {
		v = mc_st->ch[mc_len];
		if(v >= n || (!mc_replaying && mc_arity[mc_len] != n)) {
			/* the prefix no longer means the same thing: the execution was not deterministic */
			fprintf(stderr,"mc: divergence while replaying a prefix (choice %d of %d)\n",v,n);
			_exit(71);
		}
	}
	else v = 0;
	mc_arity[mc_len] = n;
	mc_st->ch[mc_len] = v;
	mc_st->n = ++mc_len;
	return v;
}
/* choose a value out of an array */
#define MC_PICK(arr) ((arr)[mc_choose((int)(sizeof(arr)/sizeof(*(arr))))])
#define MC_Q(q,t) (mc_tier ? (t) : (q))

/* prune this execution */
static void mc_skip(void) { longjmp(mc_skipbuf,1); }
/* call once after the choices that divide the work; prunes executions that belong to another shard */
static void mc_mine(void) {
	if(mc_replaying || mc_nshards <= 1) return;
	uint64_t h = 88172645463325252ull;
	for(int i = 0; i < mc_len; i++) { h += mc_st->ch[i]+1; h ^= h << 13; h ^= h >> 7; h ^= h << 17; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 31; }
	if(h % mc_nshards != (uint64_t)mc_shard) mc_skip();
}

/* ---- reporting ---- */
static void mc_json_str(FILE* f, const char* s) {
	fputc('"',f);
	for(; *s; s++) {
		unsigned char c = *s;
		if(c == '"' || c == '\\') fprintf(f,"\\%c",c);
		else if(c < 32 || c > 126) fprintf(f,"\\u%04x",c);
		else fputc(c,f);
	}
	fputc('"',f);
}
static void mc_trace(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void mc_trace(const char* fmt, ...) {
	if(!mc_replaying) return;
	va_list ap; va_start(ap,fmt); vprintf(fmt,ap); va_end(ap); putchar('\n'); fflush(stdout);
}
static int mc_nsamples;
static bool mc_want_sample(void) {
	/* executions 1, 10, 100, ... of each shard are written out as samples */
	static uint64_t next = 1;
	if(mc_execs+1 < next || mc_nsamples >= 3) return false;
	next = next*37+5;
	return true;
}
static void mc_sample(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void mc_sample(const char* fmt, ...) {
	char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
	mc_nsamples++;
	fprintf(mc_outf,"{\"sample\":"); mc_json_str(mc_outf,b); fprintf(mc_outf,"}\n");
}
static char** mc_known; static uint64_t* mc_knownhits; static int mc_nknown;
static void mc_finish(int code);
/* report a violation of the property; returns only if it is a known finding */
static void mc_fail(const char* sig, const char* fmt, ...) __attribute__((format(printf,2,3)));
static void mc_fail(const char* sig, const char* fmt, ...) {
	for(int i = 0; i < mc_nknown; i++)
		if(!strcmp(mc_known[i],sig)) { mc_knownhits[i]++; mc_trace("(known finding) %s",sig); return; }
	char b[2000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
	fprintf(mc_outf,"{\"fail\":{\"sig\":"); mc_json_str(mc_outf,sig);
	fprintf(mc_outf,",\"msg\":"); mc_json_str(mc_outf,b);
	fprintf(mc_outf,",\"choices\":[");
	for(int i = 0; i < mc_len; i++) fprintf(mc_outf,"%s%u",i?",":"",mc_st->ch[i]);
	fprintf(mc_outf,"]}}\n"); fflush(mc_outf);
	mc_trace("VIOLATED %s: %s",sig,b);
	mc_finish(1);
}
#define MC_CHECK(cond,sig,...) do { if(!(cond)) mc_fail(sig,__VA_ARGS__); } while(0)
static void mc_note(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void mc_note(const char* fmt, ...) { va_list ap; va_start(ap,fmt); vsnprintf((char*)mc_st->note,sizeof mc_st->note,fmt,ap); va_end(ap); }

static void mc_dump_set(const char* suffix, struct mc_set* s) {
	char p[1200]; snprintf(p,sizeof p,"%s.%s",mc_out,suffix);
	FILE* f = fopen(p,"wb"); if(!f) return;
	for(size_t i = 0; i < s->cap; i++) if(s->t[i]) fwrite(&s->t[i],8,1,f);
	fclose(f);
}
static void mc_finish(int code) {
	for(int i = 0; i < mc_nknown; i++)
		if(mc_knownhits[i]) { fprintf(mc_outf,"{\"known\":"); mc_json_str(mc_outf,mc_known[i]); fprintf(mc_outf,",\"hits\":%llu}\n",(unsigned long long)mc_knownhits[i]); }
	fprintf(mc_outf,"{\"execs\":%llu,\"trans\":%llu,\"nontriv\":%llu,\"capped\":%llu,\"extra\":[",
		(unsigned long long)mc_execs,(unsigned long long)mc_trans,(unsigned long long)mc_nontriv,(unsigned long long)mc_capped);
	for(int i = 0; i < 8; i++) fprintf(mc_outf,"%s%llu",i?",":"",(unsigned long long)mc_extra[i]);
	fprintf(mc_outf,"]}\n");
	mc_dump_set("states",&mc_states);
	mc_dump_set("outcomes",&mc_outcomes);
	fclose(mc_outf);
	_exit(code);
}
static double mc_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
/* the watchdog judges by processor time of this process, so a loaded machine does not look like a hang */
static double mc_cpu(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec/1e9; }
static uint64_t mc_wd_last = -1; static double mc_wd_cpu, mc_wd_wall;
static void mc_watchdog(int s) {
	(void)s;
	if(mc_st->execs != mc_wd_last) { mc_wd_last = mc_st->execs; mc_wd_cpu = mc_cpu(); mc_wd_wall = mc_now(); return; }
	if(mc_cpu()-mc_wd_cpu > mc_hang || mc_now()-mc_wd_wall > mc_hang*4) {
		static const char m[] = "mc: hang\n"; (void)!write(2,m,sizeof m-1); _exit(72);
	}
}
#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
	const char* status = NULL,* replay = NULL;
	for(int i = 1; i+1 < argc; i += 2) {
		const char* a = argv[i],* v = argv[i+1];
		if(!strcmp(a,"--tier")) mc_tier = !strcmp(v,"thorough");
		else if(!strcmp(a,"--shard")) mc_shard = atoi(v);
		else if(!strcmp(a,"--nshards")) mc_nshards = atoi(v);
		else if(!strcmp(a,"--status")) status = v;
		else if(!strcmp(a,"--out")) mc_out = v;
		else if(!strcmp(a,"--known")) mc_knownfile = v;
		else if(!strcmp(a,"--prop")) mc_prop = v;
		else if(!strcmp(a,"--mode")) mc_mode = v;
		else if(!strcmp(a,"--budget")) mc_budget = atof(v);
		else if(!strcmp(a,"--hang")) mc_hang = atoi(v);
		else if(!strcmp(a,"--seed")) mc_seed = atoi(v);
		else if(!strcmp(a,"--scratch")) mc_scratch = v;
		else if(!strcmp(a,"--program")) mc_program = v;
		else if(!strcmp(a,"--replay")) replay = v;
		else { fprintf(stderr,"mc: unknown option %s\n",a); return 70; }
	}
	if(!mc_out) mc_out = "/dev/null";
	mc_outf = fopen(mc_out,"w");
	int fd = status ? open(status,O_RDWR|O_CREAT,0600) : -1;
	if(fd >= 0 && ftruncate(fd,sizeof *mc_st)) return 70;
	mc_st = mmap(NULL,sizeof *mc_st,PROT_READ|PROT_WRITE,fd >= 0 ? MAP_SHARED : MAP_SHARED|MAP_ANONYMOUS,fd,0);
	if(mc_st == MAP_FAILED || !mc_outf) { perror("mc"); return 70; }
	if(mc_knownfile) {
		FILE* k = fopen(mc_knownfile,"r"); char line[1024];
		while(k && fgets(line,sizeof line,k)) {
			line[strcspn(line,"\n")] = 0;
			mc_known = realloc(mc_known,sizeof(char*)*(mc_nknown+1)); mc_known[mc_nknown++] = strdup(line);
		}
		if(k) fclose(k);
		mc_knownhits = calloc(mc_nknown+1,8);
	}
	if(replay) {
		mc_replaying = true;
		for(const char* p = replay; *p; ) { mc_st->ch[mc_prefix++] = strtoul(p,(char**)&p,10); if(*p == ',') p++; }
	}
#ifndef __SANITIZE_ADDRESS__
	if(!strcmp(mc_mode,"huge-count")) { } /* maps one file many times */
	else if(strncmp(mc_mode,"huge",4))
		setrlimit(RLIMIT_AS,&(struct rlimit){(rlim_t)2 << 30,(rlim_t)2 << 30}); /* a giant allocation fails, as it may anywhere */
	else setrlimit(RLIMIT_AS,&(struct rlimit){(rlim_t)24 << 30,(rlim_t)24 << 30}); /* room to reserve what is never touched */
#endif
	setrlimit(RLIMIT_CORE,&(struct rlimit){0,0});
	signal(SIGALRM,mc_watchdog);
	setitimer(ITIMER_REAL,&(struct itimerval){{2,0},{2,0}},NULL);
	double t0 = mc_now();
	for(;;) {
		mc_len = 0;
		mc_st->n = 0;
		mc_st->execs++;
		if(!setjmp(mc_skipbuf)) {
			mc_case();
			mc_execs++;
		}
		if(mc_replaying) break;
		if((mc_execs & 63) == 0 && mc_now()-t0 > mc_budget) { mc_capped = 1; break; }
		while(mc_len && mc_st->ch[mc_len-1]+1 >= (uint32_t)mc_arity[mc_len-1]) mc_len--;
		if(!mc_len) break;
		mc_st->ch[mc_len-1]++;
		mc_prefix = mc_len;
	}
	mc_finish(0);
}
#endif
#endif
