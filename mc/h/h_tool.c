/*
 * The tools beside the resdet program (C24, C25): imgread, stat and profile are run as processes and what they write is
 * judged by what the library itself reads and detects.
 */
#include "mc.h"
#include "resdet.h"
#include "fmt.h"
#include "proc.h"

static char* av[8]; static int ac; static char line[3000];
static void begin(void) { ac = 0; av[ac++] = (char*)"tool"; av[ac] = NULL; }
static void arg(const char* s) { av[ac++] = (char*)s; av[ac] = NULL; }
static const char* base(const char* s) { const char* b = strrchr(s,'/'); return b ? b+1 : s; }
static char pa[1200], pb[1200], pl[1200];
static const char* in_scratch(char* t, const char* name) { snprintf(t,1200,"%s/%s",mc_scratch,name); return t; }

/* ================================================== imgread ================================================== */
static unsigned char* got; static size_t gotn;
static void read_out(const char* p) {
	free(got); got = NULL; gotn = 0;
	FILE* f = fopen(p,"rb"); if(!f) return;
	fseek(f,0,SEEK_END); long n = ftell(f); rewind(f);
	got = malloc(n+1); gotn = fread(got,1,n,f); got[gotn] = 0; fclose(f);
}
/* the next frame of a PFM file by the definition of the format: a pointer to its samples, bottom row first */
static const unsigned char* pfm_frame(size_t* at, unsigned long long* w, unsigned long long* h, bool* big) {
	if(*at >= gotn) return NULL;
	int used = 0; double scale; char a = 0, b = 0, ws = 0; char head[100]; size_t k = gotn-*at < 99 ? gotn-*at : 99; memcpy(head,got+*at,k); head[k] = 0;
	if(sscanf(head,"%c%c %llu %llu %lf%c%n",&a,&b,w,h,&scale,&ws,&used) != 6 || a != 'P' || b != 'f' || scale == 0 || !isspace((unsigned char)ws)) return NULL;
	*big = scale > 0;
	if(fabs(scale) != 1 || *w > 100000 || *h > 100000) return NULL;
	const unsigned char* p = got+*at+used;
	if(gotn-*at-used < *w**h*4) return NULL;
	*at += used+*w**h*4;
	return p;
}
static float sample(const unsigned char* p, bool big) { uint32_t v = big ? (uint32_t)p[0] << 24|p[1] << 16|p[2] << 8|p[3] : (uint32_t)p[3] << 24|p[2] << 16|p[1] << 8|p[0]; float f; memcpy(&f,&v,4); return f; }
/* runs imgread and compares what it wrote with the frames the library reads out of the same file */
static void judge_read(const char* in, const char* what, const char* out_path, bool out_fails) {
	begin(); arg(in); arg(out_path);
	run(av,NULL); check_exit(what); int st = WEXITSTATUS(status);
	size_t w, h; float* b; RDError e; RDImage* im = resdet_open_image(in,NULL,&w,&h,&b,&e); mc_step();
	if(!im) {
		MC_CHECK(st,"status","%s: ends in success although the library says \"%s\"",what,resdet_error_str(e));
		MC_CHECK(strstr(err,resdet_error_str(e)),"message","%s: says \"%.100s\" instead of \"%s\"",what,err,resdet_error_str(e));
		mc_outcome(mc_hashi(e,77)); if(mc_want_sample()) mc_sample("%s: status %d, %.60s",what,st,err);
		return;
	}
	if(!out_fails) read_out(out_path);
	size_t at = 0; int n = 0; uint64_t hash = 1;
	while(resdet_read_image_frame(im,b,&e)) {
		hash = mc_hash(b,w*h*4,hash); mc_step();
		if(out_fails) { n++; continue; }
		unsigned long long fw, fh; bool big; const unsigned char* p = pfm_frame(&at,&fw,&fh,&big);
		MC_CHECK(p,"frames","%s: frame %d is missing from the output or malformed (%zu bytes in all)",what,n,gotn);
		MC_CHECK(fw == w && fh == h,"frames","%s: frame %d is written as %llux%llu instead of %zux%zu",what,n,fw,fh,w,h);
		for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
			float v = sample(p+((h-1-y)*w+x)*4,big);
			MC_CHECK(!memcmp(&v,&b[y*w+x],4),"pixels","%s: frame %d, pixel %zu,%zu is written as %g instead of %g",what,n,x,y,v,b[y*w+x]);
		}
		n++;
	}
	resdet_close_image(im); free(b);
	if(!out_fails) MC_CHECK(at == gotn,"frames","%s: there are %zu more bytes in the output than %d frames take",what,gotn-at,n);
	if(e) MC_CHECK(strstr(err,resdet_error_str(e)),"message","%s: says \"%.100s\" instead of \"%s\"",what,err,resdet_error_str(e));
	if(e || (out_fails && n)) { MC_CHECK(st && *err,"status","%s: %s, and yet status %d, \"%.100s\"",what,e ? "the image is broken" : "the output could not be written",st,err); }
	else if(!out_fails) MC_CHECK(!st && !*err,"status","%s: status %d, \"%.100s\" for nothing",what,st,err);
	MC_CHECK(!*out,"output","%s: prints \"%.100s\"",what,out);
	if(n) mc_nontriv++;
	mc_outcome(mc_hashi(e,hash)); if(mc_want_sample()) mc_sample("%s: %d frames, status %d",what,n,st);
	mc_trace("%s: %d frames, error %d, status %d %s",what,n,e,st,err);
}
static void case_frames(void) {
	static const int ws[] = {1,2,3,5,8,17}, hs[] = {1,2,3,7,16};
	int f = mc_choose(NFMT), w = MC_PICK(ws), h = MC_PICK(hs), n = mc_choose(4), stale = mc_choose(3); mc_mine();
	if(!f && n != 1) mc_skip();
	if(!n && f < 5) mc_skip();      /* the first frame's header is the file's */
	struct pic p; mk_any(&p,f,n,w,h);
	in_scratch(pa,""); snprintf(pa,sizeof pa,"%s/in.%s",mc_scratch,p.ext); write_file(pa,p.b.p,p.b.n); in_scratch(pb,"out.pfm");
	unlink(pb);
	if(stale) { char* x = malloc(20000); memset(x,'x',20000); write_file(pb,x,stale == 1 ? 20000 : 3); free(x); }   /* there already is such a file */
	char t[200]; snprintf(t,sizeof t,"%s of %d frames of %dx%d%s",fmt_name[f],n,w,h,stale ? " onto an existing file" : "");
	judge_read(pa,t,pb,false); pic_free(&p);
}
/* rows and files longer than any buffer */
static void case_long(void) {
	static const struct { int w, h; } sz[] = {{1023,2},{1025,2},{4095,1},{4097,2},{8193,1},{16385,2},{65537,1},{100000,1},{1,4097},{2,65537},{3,100000},{700,300}};
	int f = mc_choose(NFMT), k = mc_choose(MC_Q(12,12)+9); static const int ns[] = {7,63,100,127,129,201,255,257,300};
	if(!f && k >= 12) mc_skip();
	if(!mc_tier && f > 5) mc_skip();
	mc_mine();
	struct pic p; if(k < 12) mk_any(&p,f,f ? 2 : 1,sz[k].w,sz[k].h); else mk_any(&p,f,ns[k-12],5,3);
	snprintf(pa,sizeof pa,"%s/in.%s",mc_scratch,p.ext); write_file(pa,p.b.p,p.b.n); in_scratch(pb,"out.pfm"); unlink(pb);
	char t[200]; snprintf(t,sizeof t,"%s of %d frames of %zux%zu",fmt_name[f],p.n,p.w,p.h);
	judge_read(pa,t,pb,false); pic_free(&p);
}
/* every truncation, and some damage */
static void case_damage(void) {
	int f = mc_choose(NFMT), n = 1+mc_choose(f ? 3 : 1), kind = mc_choose(3); size_t w = f & 1 ? 3 : 4, h = 2;
	struct pic p; mk_any(&p,f,n,w,h); size_t len = p.b.n; pic_free(&p);
	size_t at = mc_choose(len); mc_mine();
	if(kind && at >= (size_t)MC_Q(40,120)) mc_skip();
	mk_any(&p,f,n,w,h);
	if(kind == 0) p.b.n = at; else p.b.p[at] = kind == 1 ? p.b.p[at]^1 : '0';
	snprintf(pa,sizeof pa,"%s/in.%s",mc_scratch,p.ext); write_file(pa,p.b.p,p.b.n); in_scratch(pb,"out.pfm"); unlink(pb);
	char t[200]; snprintf(t,sizeof t,"%s of %d frames %s %zu",fmt_name[f],n,kind ? "with another byte at" : "cut to",at);
	/* a size limit would only be tested by allocating it */
	judge_read(pa,t,pb,false); pic_free(&p);
}
static void case_files(void) {
	static const char* const names[] = {"missing.pgm","missing","dir.pgm","text.txt","empty.pgm","empty.pfm","empty.y4m"}; static const char* const outs[] = {"out.pfm","/dev/full","nowhere/out.pfm","dir.pgm",""};
	int i = mc_choose(10), o = mc_choose(5); mc_mine();
	char d[1200]; in_scratch(d,"dir.pgm"); mkdir(d,0755);
	struct pic p = {0}; const char* in;
	if(i < 7) { in = in_scratch(pa,names[i]); if(i > 2) write_file(pa,"text",i == 3 ? 4 : 0); }
	else { mk_any(&p,(int[]){0,1,5}[i-7],i == 7 ? 1 : 2,i == 9 ? 20 : 33,i == 9 ? 16 : 9); snprintf(pa,sizeof pa,"%s/in.%s",mc_scratch,p.ext); write_file(pa,p.b.p,p.b.n); in = pa; }
	const char* to = o == 1 ? outs[o] : o == 4 ? "" : in_scratch(pb,outs[o]);
	if(!o) unlink(pb);
	char t[200]; snprintf(t,sizeof t,"%s to %s",i < 7 ? names[i] : base(pa),*outs[o] ? outs[o] : "a file without a name");
	judge_read(in,t,to,o != 0); pic_free(&p);
}
static void case_args(void) {
	int n = mc_choose(3), good = mc_choose(2); mc_mine();
	struct pic p; mk_any(&p,0,1,4,4); in_scratch(pa,"in.pgm"); write_file(pa,p.b.p,p.b.n); pic_free(&p);
	begin(); if(n > 0) arg(good ? pa : "missing.pgm"); if(n == 0) av[1] = NULL;
	if(n == 2) { arg(""); }
	run(av,NULL); char t[60]; snprintf(t,sizeof t,"%d arguments",n); check_exit(t);
	MC_CHECK(WEXITSTATUS(status) && *err,"usage","%s: status %d, \"%.100s\"",t,WEXITSTATUS(status),err);
	mc_outcome(n*2+good); mc_trace("%s: %s",t,err);
}

/* ================================================== images for stat and profile ================================================== */
static void content(float* o, int w, int h, int kind, int f) {
	for(int y = 0; y < h; y++) for(int x = 0; x < w; x++) {
		int i = y*w+x;
		if(kind == 0) o[i] = fmt_sample(i,f,3,1000)/1000.f;                     /* noise */
		else if(kind == 1) o[i] = 0.25f;                                        /* nothing */
		else if(kind == 2) o[i] = (fmt_sample(x,f,5,100)+fmt_sample(y,f,9,100))/300.f;   /* a sum of rows and columns */
		else {                                                                  /* upscaled: only low frequencies of another grid */
			int sw = kind == 3 ? w*3/5 : w*4/5, sh = kind == 3 ? h*4/5 : h*2/3; if(sw < 1) sw = 1; if(sh < 1) sh = 1;
			double s = 0;
			for(int v = 0; v < sh && v < 12; v++) for(int u = 0; u < sw && u < 12; u++) { int vv = v*sh/(sh < 12 ? sh : 12), uu = u*sw/(sw < 12 ? sw : 12); s += sin(uu*3.1+vv*1.7+f)*cos(M_PI*(x+.5)*uu/w)*cos(M_PI*(y+.5)*vv/h); }
			/* the mirrored, negated spectrum of interpolation */
			for(int u = sw+1; u < 2*sw && u < w; u++) s -= 0.3*sin((2*sw-u)*3.1+f)*cos(M_PI*(x+.5)*u/w)*0.2;
			for(int v = sh+1; v < 2*sh && v < h; v++) s -= 0.3*sin((2*sh-v)*1.7+f)*cos(M_PI*(y+.5)*v/h)*0.2;
			o[i] = 0.5+s/(sw*sh);
		}
	}
}
static const char* const kinds[] = {"noise","flat","separable","upscaled","upscaled otherwise"};
static void film(const char* path, int w, int h, int kind, int n) {
	struct buf b = {0}; float* t = malloc((size_t)w*h*4);
	for(int f = 0; f < n; f++) { content(t,w,h,kind,f); enc_pfm(&b,t,w,h,false); }
	write_file(path,b.p,b.n); free(b.p); free(t);
}

/* ================================================== stat ================================================== */
static const char* next_line(const char** s, char* t, size_t n) {
	const char* e = strchr(*s,'\n'); size_t l = e ? (size_t)(e-*s) : strlen(*s);
	if(!**s) return NULL;
	snprintf(t,n,"%.*s",(int)l,*s); *s += l+(e != NULL);
	return t;
}
static int cmp_conf(const void* a, const void* b) { float x = ((const RDResolution*)a)->confidence, y = ((const RDResolution*)b)->confidence; return x < y ? -1 : x > y; }
/* one dimension of stat's output; l: the results without the full size */
static void judge_dim(const char* what, const char* dim, const char** s, RDResolution* l, size_t n) {
	char t[400]; const char* x = next_line(s,t,sizeof t);
	MC_CHECK(x && !strncmp(t,dim,strlen(dim)),"format","%s: \"%.60s\" instead of %s",what,t,dim);
	qsort(l,n,sizeof *l,cmp_conf);
	if(!n) {
		/* nothing to tell of: no numbers may appear */
		while(**s && strncmp(*s,"height",6)) { next_line(s,t,sizeof t); MC_CHECK(!strpbrk(t,"0123456789"),"none","%s: %s \"%.60s\" when nothing was detected",what,dim,t); }
		return;
	}
	double med, in, outf; x = next_line(s,t,sizeof t);
	MC_CHECK(x && sscanf(t,"median: %lf%% inner fence: %lf%% outer fence: %lf%%",&med,&in,&outf) == 3,"format","%s: %s \"%.60s\" instead of median and fences",what,dim,t);
	double tol = 0.011;
	#define C(i) (l[(i) < 0 ? 0 : (i) >= (long)n ? (long)n-1 : (i)].confidence*100.0)
	MC_CHECK(med >= C(((long)n-1)/2)-tol && med <= C((long)n/2)+tol,"median","%s: %s median %.2f of %zu results, the middle ones are %.3f and %.3f",what,dim,med,n,C(((long)n-1)/2),C((long)n/2));
	/* inner = upper quartile + 3 ranges, outer = + 6 */
	double iq = (outf-in)/3, hq = 2*in-outf, lq = hq-iq, ql = tol*4;
	MC_CHECK(hq >= C((long)floor(n*.75)-1)-ql && hq <= C((long)ceil(n*.75))+ql,"quartile","%s: %s fences %.2f and %.2f mean an upper quartile of %.2f, outside %.3f to %.3f of %zu results",what,dim,in,outf,hq,C((long)floor(n*.75)-1),C((long)ceil(n*.75)),n);
	MC_CHECK(lq >= C((long)floor(n*.25)-1)-ql && lq <= C((long)ceil(n*.25))+ql,"quartile","%s: %s fences %.2f and %.2f mean a lower quartile of %.2f, outside %.3f to %.3f of %zu results",what,dim,in,outf,lq,C((long)floor(n*.25)-1),C((long)ceil(n*.25)),n);
	MC_CHECK(hq >= lq-ql,"quartile","%s: %s upper quartile %.2f below the lower %.2f",what,dim,hq,lq);
	bool* seen = calloc(n+1,1); int sect = 0;
	while(**s && strncmp(*s,"height",6)) {
		next_line(s,t,sizeof t);
		if(strstr(t,"mild")) { sect = 1; continue; } if(strstr(t,"extreme")) { sect = 2; continue; }
		unsigned long long idx; double c, rel;
		MC_CHECK(sect && sscanf(t," %llu (%lf%%) - %lf%%",&idx,&c,&rel) >= 2,"format","%s: %s \"%.60s\"",what,dim,t);
		size_t i; for(i = 0; i < n; i++) if(l[i].index == idx && !seen[i]) break;
		MC_CHECK(i < n,"outlier","%s: %s lists %llu, which is no result or listed before",what,dim,idx);
		seen[i] = true;
		MC_CHECK(fabs(c-l[i].confidence*100) <= tol,"confidence","%s: %s gives %llu with %.2f%% instead of %.3f%%",what,dim,idx,c,l[i].confidence*100);
		if(med < 99.9 && sscanf(t," %*u (%*f%%) - %lf%%",&rel) == 1) { double m = med/100; MC_CHECK(fabs(rel-(l[i].confidence-m)/(1-m)*100) <= 0.03+0.02/(1-m),"confidence","%s: %s gives %llu as %.2f%% above the median",what,dim,idx,rel); }
		if(sect == 1) MC_CHECK(c >= in-tol && c <= outf+tol,"outlier","%s: %s lists %llu (%.2f%%) as a mild outlier, with fences %.2f and %.2f",what,dim,idx,c,in,outf);
		else MC_CHECK(c >= outf-tol,"outlier","%s: %s lists %llu (%.2f%%) as an extreme outlier, with fences %.2f and %.2f",what,dim,idx,c,in,outf);
		mc_extra[0]++;
	}
	MC_CHECK(sect == 2,"format","%s: %s has no outliers",what,dim);
	for(size_t i = 0; i < n; i++) if(!seen[i]) MC_CHECK(l[i].confidence*100 <= in+tol,"outlier","%s: %s leaves out %zu (%.3f%%), with a fence of %.2f",what,dim,l[i].index,l[i].confidence*100,in);
	free(seen);
}
static void case_stat(void) {
	static const int ws[] = {1,25,26,27,28,29,30,31,33,36,40,48,64,97}, wt[] = {1,2,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,48,56,64,81,97,128}; static const char* const ms[] = {NULL,"sign","mag","orig","zerox","nope",""};
	int iw = mc_choose(MC_Q(14,26)), ih = mc_choose(MC_Q(14,26)), kind = mc_choose(5); mc_mine();
	int m = mc_choose(7), n = 1+mc_choose(2), w = mc_tier ? wt[iw] : ws[iw], h = mc_tier ? wt[ih] : ws[ih];
	if(m > 4 && (kind || n > 1)) mc_skip();
	if(!mc_tier && (iw*3+ih+kind+m+n)%3) mc_skip();
	in_scratch(pa,"in.pfm"); if(!mc_replaying || 1) film(pa,w,h,kind,n);
	begin(); arg(pa); if(ms[m]) arg(ms[m]);
	run(av,NULL); char what[200]; snprintf(what,sizeof what,"%s of %dx%d, %d frames, method %s",kinds[kind],w,h,n,ms[m] ? ms[m] : "(default)"); check_exit(what); int st = WEXITSTATUS(status);
	RDMethod* md = resdet_get_method(ms[m]);
	if(!md) { MC_CHECK(st && *err && !*out,"method","%s: status %d, \"%.100s\"",what,st,out); mc_outcome(m); return; }
	RDResolution* rw,* rh; size_t cw, ch; RDError e = resdetect_file(pa,NULL,&rw,&cw,&rh,&ch,md,NULL);
	MC_CHECK(!e,"library","%s: %s",what,resdet_error_str(e));
	MC_CHECK(!st && !*err,"status","%s: status %d, \"%.100s\"",what,st,err);
	const char* s = out;
	judge_dim(what,"width",&s,rw,cw-1); judge_dim(what,"height",&s,rh,ch-1);
	MC_CHECK(!*s,"format","%s: more output than expected: \"%.60s\"",what,s);
	if(cw > 1 || ch > 1) mc_nontriv++;
	mc_outcome(mc_hash(out,strlen(out),m)); if(mc_want_sample()) mc_sample("%s: %zu and %zu results, %.40s",what,cw-1,ch-1,strchr(out,'\n')+1);
	mc_trace("%s\n%s",what,out);
	free(rw); free(rh);
}
static void case_stat_bad(void) {
	int i = mc_choose(6); mc_mine();
	begin(); in_scratch(pa,i == 1 ? "missing.pfm" : i == 2 ? "bad.pfm" : i == 3 ? "text.txt" : i == 4 ? "empty.y4m" : "short.pfm");
	unlink(pa);
	struct buf b = {0};
	if(i == 2) buf_str(&b,"Pf\n2 2\n"); if(i == 3) buf_str(&b,"text"); if(i == 4) buf_str(&b,"YUV4MPEG2 W4 H4\n"); if(i == 5) buf_str(&b,"Pf\n9 9\n-1.0\nxxxx");
	if(i > 1) write_file(pa,b.p,b.n); free(b.p);
	if(i) arg(pa);
	run(av,NULL); char what[60]; snprintf(what,sizeof what,"%s",i ? base(pa) : "no arguments"); check_exit(what);
	MC_CHECK(WEXITSTATUS(status) && *err && !*out,"status","%s: status %d, \"%.100s\"",what,WEXITSTATUS(status),out);
	if(!i) for(RDMethod* m = resdet_methods(); m->name; m++) MC_CHECK(strstr(err,m->name),"usage","the usage does not mention the method %s",m->name);
	else { RDResolution* r1,* r2; size_t c1, c2; RDError e = resdetect_file(pa,NULL,&r1,&c1,&r2,&c2,NULL,NULL); MC_CHECK(e && strstr(err,resdet_error_str(e)),"message","%s: says \"%.100s\" instead of \"%s\"",what,err,resdet_error_str(e)); }
	mc_outcome(i); mc_trace("%s: %s",what,err);
}

/* ================================================== profile ================================================== */
struct known { int n; size_t v[8]; };
#define NENT 3
static struct ent { char path[300]; bool broken; struct known kw, kh; } ents[NENT];
static unsigned long long tv[4096]; static char td[4096]; static int ntv;   /* what the shim noted: td 'T' or 'D' */
static void read_log(void) {
	ntv = 0; FILE* f = fopen(pl,"r"); char t[100];
	while(f && fgets(t,sizeof t,f) && ntv < 4096) { td[ntv] = *t; tv[ntv] = *t == 'T' ? strtoull(t+1,NULL,10) : 0; ntv++; }
	if(f) fclose(f);
}
static bool parse_line(const char* t, char* name, unsigned long long* us, size_t* plus, size_t* minus) {
	char num[64]; unsigned long long p, m; char* d;
	if(sscanf(t,"%30s %60s (+%llu -%llu)",name,num,&p,&m) != 4 || !(d = strchr(num,'.'))) return false;
	*us = strtoull(num,NULL,10)*1000000; double frac = 0; int k = 0; unsigned long long v = 0;
	for(const char* c = d+1; *c; c++, k++) { if(*c < '0' || *c > '9') return false; v = v*10+(*c-'0'); }
	frac = v/pow(10,k)*1e6; *us += llround(frac);
	*plus = p; *minus = m; return true;
}
/* end: what is wrong with the dictionary's end (0 nothing) */
static void judge_profile(const char* what, int n, const char* dict, size_t dictlen, bool bad, bool timed) {
	in_scratch(pb,"dict.txt"); write_file(pb,dict,dictlen); in_scratch(pl,"log"); unlink(pl);
	if(timed) setenv("MC_LOG",pl,1); else { unsetenv("MC_LOG"); unsetenv("MC_TIMES"); }
	begin(); arg(pb); run(av,NULL); check_exit(what); int st = WEXITSTATUS(status);
	if(timed) read_log();
	int nm = 0; for(RDMethod* m = resdet_methods(); m->name; m++) nm++;
	size_t tp[16] = {0}, tm[16] = {0}; unsigned long long tt[16] = {0}; int lg = 0;
	const char* s = out; char t[600]; int broken = 0;
	for(int i = 0; i < n; i++) {
		MC_CHECK(next_line(&s,t,sizeof t) && !strcmp(t,ents[i].path),"image","%s: \"%.100s\" instead of the image %s",what,t,base(ents[i].path));
		if(ents[i].broken) { broken++; MC_CHECK(strstr(err,ents[i].path),"unreadable","%s: says \"%.100s\" of the unreadable %s",what,err,base(ents[i].path)); continue; }
		float* im; size_t w, h, d; RDError e = resdet_read_image(ents[i].path,NULL,&im,&d,&w,&h); MC_CHECK(!e,"library","%s",resdet_error_str(e)); int k = 0;
		for(RDMethod* m = resdet_methods(); m->name; m++, k++) {
			RDResolution* r[2]; size_t c[2]; e = resdetect(im,d,w,h,&r[0],&c[0],&r[1],&c[1],m,NULL); mc_step();
			size_t plus = 0, minus = 0; struct known* kn[2] = {&ents[i].kw,&ents[i].kh};
			for(int x = 0; x < 2; x++) {
				for(size_t a = 0; a+1 < c[x]; a++) { bool in = false; for(int b = 0; b < kn[x]->n; b++) in |= kn[x]->v[b] == r[x][a].index; plus += !in; }
				for(int b = 0; b < kn[x]->n; b++) { bool in = false; for(size_t a = 0; a+1 < c[x]; a++) in |= kn[x]->v[b] == r[x][a].index; minus += !in; }
				free(r[x]);
			}
			char name[40]; unsigned long long us; size_t gp, gm;
			MC_CHECK(next_line(&s,t,sizeof t) && parse_line(t,name,&us,&gp,&gm) && !strcmp(name,m->name),"format","%s: \"%.100s\" for method %s of %s",what,t,m->name,base(ents[i].path));
			MC_CHECK(gp == plus && gm == minus,"difference","%s: method %s on %s: +%zu -%zu instead of +%zu -%zu",what,m->name,base(ents[i].path),gp,gm,plus,minus);
			tp[k] += gp; tm[k] += gm; tt[k] += us; mc_extra[1]++;
			if(plus || minus) mc_nontriv++;
			if(timed) {
				int at = lg; while(at < ntv && td[at] != 'D') at++;
				/* each detection lies between two readings */
				if(at > 0 && at+1 < ntv && td[at-1] == 'T' && td[at+1] == 'T') MC_CHECK(us == tv[at+1]-tv[at-1],"time","%s: method %s on %s: %llu microseconds instead of %llu",what,m->name,base(ents[i].path),us,tv[at+1]-tv[at-1]);
				lg = at+1;
			}
		}
		free(im);
	}
	if(bad) { MC_CHECK(st,"status","%s: ends in success",what); goto end; }
	MC_CHECK(next_line(&s,t,sizeof t) && !strcmp(t,"totals"),"format","%s: \"%.100s\" instead of the totals",what,t);
	int k = 0;
	for(RDMethod* m = resdet_methods(); m->name; m++, k++) {
		char name[40]; unsigned long long us; size_t gp, gm;
		MC_CHECK(next_line(&s,t,sizeof t) && parse_line(t,name,&us,&gp,&gm) && !strcmp(name,m->name),"format","%s: \"%.100s\" for the totals of method %s",what,t,m->name);
		MC_CHECK(gp == tp[k] && gm == tm[k],"totals","%s: method %s: totals +%zu -%zu instead of +%zu -%zu",what,m->name,gp,gm,tp[k],tm[k]);
		MC_CHECK(us == tt[k],"totals","%s: method %s: total of %llu microseconds instead of %llu",what,m->name,us,tt[k]);
	}
	MC_CHECK(!*s,"format","%s: more output than expected: \"%.60s\"",what,s);
	if(!broken) MC_CHECK(!st && !*err,"status","%s: status %d, \"%.100s\"",what,st,err);
end:
	mc_outcome(mc_hash(out,timed ? strlen(out) : 0,mc_hash(what,strlen(what),0))); if(mc_want_sample()) mc_sample("%s: status %d, %.60s",what,st,strstr(out,"totals") ? strstr(out,"totals")+7 : "");
	mc_trace("%s: status %d\n%.*s---\n%s%s",what,st,(int)dictlen,dict,out,err);
}
/* images made once */
static const struct { int w, h, kind, n; } img[] = {{40,36,0,1},{48,40,3,1},{36,48,4,2},{5,4,0,1},{33,27,1,1},{64,30,3,3}};
static char imgpath[6][300];
static void images(void) {
	static bool did; if(did) return; did = true;
	for(int i = 0; i < 6; i++) { snprintf(imgpath[i],300,"%s/image %d.pfm",mc_scratch,i); film(imgpath[i],img[i].w,img[i].h,img[i].kind,img[i].n); }
}
/* lists of known sizes: some of what a method finds, things it does not find, in any order */
static void known(struct known* k, int i, int dim, int form) {
	RDResolution* r[2]; size_t c[2]; resdetect_file(imgpath[i],NULL,&r[0],&c[0],&r[1],&c[1],resdet_methods()+form%4,NULL);
	RDResolution* l = r[dim]; size_t n = c[dim]-1; k->n = 0;
	switch(form) {
		case 0: k->v[k->n++] = 999; break;                                                              /* not found */
		case 1: if(n) k->v[k->n++] = l[0].index; break;                                                 /* the best guess */
		case 2: for(size_t a = 0; a < n && a < 6; a++) k->v[k->n++] = l[a].index; break;                /* by confidence */
		case 3: for(size_t a = n; a > 0 && k->n < 6; a--) k->v[k->n++] = l[a-1].index; break;           /* the other way round */
		case 4: k->v[k->n++] = 1; if(n) k->v[k->n++] = l[n-1].index; k->v[k->n++] = 500; break;
		case 5: for(int v = 16; v < 22; v++) k->v[k->n++] = v; break;                                   /* ascending neighbours */
		default: for(int v = 23; v > 17; v--) k->v[k->n++] = v; break;
	}
	if(!k->n) k->v[k->n++] = 17;
	if(form != 3) for(int a = 0; form != 2 && a < k->n; a++) for(int b = a+1; b < k->n; b++) if(form < 6 && k->v[b] < k->v[a]) { size_t x = k->v[a]; k->v[a] = k->v[b]; k->v[b] = x; }
	free(r[0]); free(r[1]);
}
static void put_known(struct buf* b, const struct known* k) { for(int i = 0; i < k->n; i++) buf_fmt(b,"%s%zu",i ? " " : "",k->v[i]); }
static const char* const times[] = {NULL,"0","1","999999","500000","1000000","1500000,1","123456,654321","999999,1,1,999999,2000000","59999999","3,10000005,7"};
static void entry(int e, int i, int fw, int fh) {
	snprintf(ents[e].path,300,"%s",i < 6 ? imgpath[i] : i == 6 ? "/nonexistent/image.pfm" : "nothing"); ents[e].broken = i >= 6;
	if(i < 6) { known(&ents[e].kw,i,0,fw); known(&ents[e].kh,i,1,fh); } else { ents[e].kw.n = ents[e].kh.n = 2; ents[e].kw.v[0] = ents[e].kh.v[0] = 7; ents[e].kw.v[1] = ents[e].kh.v[1] = 9; }
}
/* one image: every pair of lists */
static void case_known(void) {
	int i = mc_choose(6), fw = mc_choose(7), fh = mc_choose(7); mc_mine();
	images(); entry(0,i,fw,fh);
	struct buf b = {0}; buf_fmt(&b,"%s\n",ents[0].path); put_known(&b,&ents[0].kw); buf_str(&b,"\n"); put_known(&b,&ents[0].kh); buf_str(&b,"\n");
	char t[100]; snprintf(t,sizeof t,"image %d with lists %d and %d",i,fw,fh);
	judge_profile(t,1,(char*)b.p,b.n,false,false); free(b.p);
}
/* up to three images of which some are unreadable, blank lines, endings, times */
static void case_dict(void) {
	int n = mc_choose(NENT+1), id[NENT] = {0}; for(int i = 0; i < n; i++) id[i] = i == 1 ? (int[]){2,6,3,7}[mc_choose(4)] : i == 2 ? (int[]){5,6}[mc_choose(2)] : (int[]){1,0,6}[mc_choose(3)];
	int gap = mc_choose(4), end = mc_choose(5), tm = mc_choose(mc_tier ? 11 : 11); mc_mine();
	if(!mc_tier && (gap*5+end+tm)%4 && tm) mc_skip();
	if(!n && (end || tm)) mc_skip();
	images(); struct buf b = {0}; bool bad = false; int good = n; bool cutbroken = false;
	if(gap & 1) buf_str(&b,"\n\n");
	for(int i = 0; i < n; i++) {
		entry(i,id[i],1+i,2+i); bool last = i == n-1;
		buf_fmt(&b,"%s\n",ents[i].path);
		if(last && end == 2) { bad = true; good--; break; }                   /* the lists are missing */
		if(last && end == 3) { put_known(&b,&ents[i].kw); buf_str(&b,"\n"); bad = true; good--; break; }
		if(last && end == 4) { buf_str(&b,"wide\n"); put_known(&b,&ents[i].kh); buf_str(&b,"\n"); bad = !ents[i].broken; if(bad) good--; break; }
		put_known(&b,&ents[i].kw); buf_str(&b,"\n"); put_known(&b,&ents[i].kh);
		if(!(last && end == 1)) buf_str(&b,"\n");                             /* no newline at the end */
		if(gap & 2) buf_str(&b,"\n");
	}
	if(times[tm]) setenv("MC_TIMES",times[tm],1); else unsetenv("MC_TIMES");
	char t[200]; snprintf(t,sizeof t,"%d images (%d %d %d), gaps %d, end %d, times %s",n,n > 0 ? id[0] : -1,n > 1 ? id[1] : -1,n > 2 ? id[2] : -1,gap,end,times[tm] ? times[tm] : "real");
	judge_profile(t,good,(char*)b.p,b.n,bad,times[tm] != NULL); free(b.p);
}
/* a dictionary that cannot be used, whatever follows: images that can be read but not analysed, lists that are none */
static void case_useless(void) {
	int kind = mc_choose(7), before = mc_choose(2), after = mc_choose(3); mc_mine();
	images(); struct buf b = {0}; int n = 0;
	if(before) { entry(n,1,1,2); buf_fmt(&b,"%s\n",ents[n].path); put_known(&b,&ents[n].kw); buf_str(&b,"\n"); put_known(&b,&ents[n].kh); buf_str(&b,"\n"); n++; }
	const char* lists[][2] = {{"7","9"},{"7","9"},{"7","9"},{"wide","9"},{"7","tall"},{"7 x","9"},{"7","9 "}}; RDError e = RDEOK;
	if(kind < 3) {
		struct buf f = {0}; float px[30*30]; for(int i = 0; i < 900; i++) px[i] = fmt_sample(i,0,3,1000)/1000.f; px[kind == 1 ? 899 : 0] = kind == 0 ? NAN : INFINITY;
		if(kind < 2) enc_pfm(&f,px,30,30,false); else buf_str(&f,"YUV4MPEG2 W4 H4\n");
		snprintf(pa,sizeof pa,"%s/useless.%s",mc_scratch,kind < 2 ? "pfm" : "y4m"); write_file(pa,f.p,f.n); free(f.p);
		RDResolution* r[2]; size_t c[2]; e = resdetect_file(pa,NULL,&r[0],&c[0],&r[1],&c[1],NULL,NULL); MC_CHECK(e,"library","%s is analysed",base(pa));
	}
	else snprintf(pa,sizeof pa,"%s",imgpath[0]);
	buf_fmt(&b,"%s\n%s\n%s\n",pa,lists[kind][0],lists[kind][1]);
	if(after == 1) { entry(2,1,1,2); buf_fmt(&b,"%s\n7\n9\n",imgpath[2]); }
	if(after == 2) buf_str(&b,"7\n9\n");   /* what an attempt to go on would take for the rest of something */
	char what[100]; snprintf(what,sizeof what,"%s%s%s",(const char*[]){"an image with a NaN","an image with an infinity","a file without frames","no widths","no heights","widths and a word","heights that end in a space"}[kind],before ? ", after another" : "",after ? ", before more" : "");
	in_scratch(pb,"dict.txt"); write_file(pb,(char*)b.p,b.n); unsetenv("MC_LOG"); unsetenv("MC_TIMES");
	begin(); arg(pb); run(av,NULL); check_exit(what);
	if(kind < 6) MC_CHECK(WEXITSTATUS(status),"status","%s: ends in success",what);
	if(e) MC_CHECK(strstr(err,resdet_error_str(e)),"message","%s: says \"%.100s\" instead of \"%s\"",what,err,resdet_error_str(e));
	if(e) { /* nothing is told of it */
		char* at = strstr(out,pa); MC_CHECK(at,"image","%s: it is not named: \"%.200s\"",what,out);
		at = strchr(at,'\n'); MC_CHECK(at && (!strncmp(at+1,"totals\n",7) || (after && at[1] == '/')),"result","%s: \"%.60s\" is told of it",what,at ? at+1 : "");
	}
	mc_nontriv++; mc_outcome(mc_hash(what,strlen(what),WEXITSTATUS(status))); mc_trace("%s: status %d\n%s%s",what,WEXITSTATUS(status),out,err); free(b.p);
}
static void case_profile_args(void) {
	int i = mc_choose(3); mc_mine();
	begin(); if(i == 1) arg(in_scratch(pa,"missing.txt")); if(i == 2) arg("");
	run(av,NULL); check_exit("profile"); MC_CHECK(WEXITSTATUS(status) && *err && !*out,"usage","arguments %d: status %d, \"%.100s\"",i,WEXITSTATUS(status),out);
	mc_outcome(i);
}

static void mc_case(void) {
	if(!strcmp(mc_mode,"imgread")) switch(mc_choose(5)) { case 0: case_args(); break; case 1: case_files(); break; case 4: case_long(); break; case 2: case_frames(); break; default: case_damage(); }
	else if(!strcmp(mc_mode,"stat")) switch(mc_choose(2)) { case 0: case_stat_bad(); break; default: case_stat(); }
	else switch(mc_choose(4)) { case 0: case_profile_args(); break; case 3: case_useless(); break; case 1: case_known(); break; default: case_dict(); }
}
