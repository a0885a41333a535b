/*
 * Multi-frame analysis as a state machine (C06).  The model of an analysis is the multiset of frames it has accepted; every
 * sequence of operations up to the bound is run on real handles (two of them, interleaved) and after each sequence the results
 * must be the average over exactly those frames of what each frame gives alone.  Rejected frames, failed calls, preliminary
 * results and the other handle must leave no mark; the caller's pixels are never changed.
 */
#include "mc.h"
#include "ref.h"

#define NF 3
static size_t W, H;
static float* frame[NF],* bad[4];
static float* keep[NF+4];
static RDMethod* method;

struct single { RDResolution* r[2]; size_t n[2]; };
static struct single S[NF];

static RDAnalysis* create(size_t range, double thr) {
	RDParameters* p = resdet_alloc_default_parameters(); RDError e = 77;
	resdet_parameters_set_range(p,range);
	if(thr >= 0) resdet_parameters_set_threshold(p,thr);
	mc_step();
	RDAnalysis* a = resdet_create_analysis(method,W,H,p,&e);
	/* the parameters are copied: scribbling on and freeing the caller's copy must not matter */
	resdet_parameters_set_range(p,1); resdet_parameters_set_threshold(p,0.9f);
	free(p);
	if(!a || e) mc_fail("create","%zux%zu: error %d",W,H,e);
	return a;
}
static void setup(size_t w, size_t h, int m, size_t range) {
	static size_t cw, chh, cr; static int cm = -1;
	method = resdet_get_method(ref_method_name[m]);
	if(cm == m && cw == w && chh == h && cr == range) return;
	for(int i = 0; i < NF; i++) { free(frame[i]); free(keep[i]); for(int d = 0; d < 2 && cm >= 0; d++) free(S[i].r[d]); }
	for(int i = 0; i < 4; i++) { free(bad[i]); free(keep[NF+i]); }
	W = cw = w; H = chh = h; cm = m; cr = range;
	size_t sz = sizeof(float)*w*h;
	for(int i = 0; i < NF; i++) {
		frame[i] = malloc(sz); keep[i] = malloc(sz);
		for(size_t k = 0; k < w*h; k++) frame[i][k] = ref_noise(k,i,4)+(i == 2 ? 3*((k/2)&1) : 0);
		memcpy(keep[i],frame[i],sz);
		RDAnalysis* a = create(range,0);
		resdet_analyze_image(a,frame[i]);
		resdet_analysis_results(a,&S[i].r[0],&S[i].n[0],&S[i].r[1],&S[i].n[1]);
		resdet_destroy_analysis(a);
	}
	for(int i = 0; i < 4; i++) {
		bad[i] = malloc(sz); keep[NF+i] = malloc(sz);
		for(size_t k = 0; k < w*h; k++) bad[i][k] = ref_noise(k,i,9)*5;
		bad[i][i == 0 ? 0 : i == 1 ? w*h/2 : w*h-1] = i == 0 ? NAN : i == 1 ? INFINITY : i == 2 ? -INFINITY : -NAN;
		memcpy(keep[NF+i],bad[i],sz);
	}
}
static double conf_of(const struct single* s, int d, size_t x) {
	for(size_t i = 0; i+1 < s->n[d]; i++) if(s->r[d][i].index == x) return s->r[d][i].confidence;
	return -2;
}
/* compare with the average over the accepted frames */
static void check_mean(const RDResolution* r, size_t n, int d, const uint64_t* cnt, double thr, const char* hist) {
	uint64_t total = 0; for(int f = 0; f < NF; f++) total += cnt[f];
	size_t L = d ? H : W;
	if(!n || r[n-1].index != L || r[n-1].confidence != -1) { mc_fail("last","%s: list does not end with the full size",hist); return; }
	size_t seen = 0;
	for(size_t x = 0; x < L; x++) {
		double c0 = conf_of(&S[0],d,x);
		if(c0 < -1) continue;
		double m = 0; for(int f = 0; f < NF; f++) m += cnt[f]*conf_of(&S[f],d,x);
		m /= total;
		double got = -2; for(size_t i = 0; i+1 < n; i++) if(r[i].index == x) got = r[i].confidence;
		if(got > -1) seen++;
		if(got > -1 ? fabs(got-m) > 1e-5 || m < thr-1e-5 : m > thr+1e-5) {
			mc_fail("mean","%s: %s %zu has %s%.7g after frames x%llu,%llu,%llu; their average is %.7g (threshold %g)",hist,d ? "height" : "width",x,got > -1 ? "confidence " : "no entry ",got,(unsigned long long)cnt[0],(unsigned long long)cnt[1],(unsigned long long)cnt[2],m,thr);
			return;
		}
	}
	if(seen != n-1) mc_fail("extra","%s: %zu unexpected entries",hist,n-1-seen);
}
static void unchanged(const char* hist) {
	for(int i = 0; i < NF; i++) if(memcmp(frame[i],keep[i],sizeof(float)*W*H)) mc_fail("input","%s: the caller's image was modified",hist);
	for(int i = 0; i < 4; i++) if(memcmp(bad[i],keep[NF+i],sizeof(float)*W*H)) mc_fail("input","%s: the caller's rejected image was modified",hist);
}

struct handle { RDAnalysis* a; uint64_t cnt[NF], total; double thr; };
static const char* const opname[] = {"A0","A1","A2","nan","inf","-inf","null","both","w","h","none","badw","badh"};
static void apply(struct handle* h, int op, const char* hist) {
	RDError e;
	mc_step();
	if(op < 3) {
		e = resdet_analyze_image(h->a,frame[op]);
		if(e) mc_fail("analyze","%s: error %d",hist,e);
		h->cnt[op]++; h->total++;
	}
	else if(op < 6) {
		e = resdet_analyze_image(h->a,bad[op-3]);
		if(e != RDEINVAL) mc_fail("nonfinite","%s: a non-finite frame gives error %d",hist,e);
	}
	else if(op == 6) {
		if((e = resdet_analyze_image(h->a,NULL)) != RDEPARAM) mc_fail("null-image","%s: a NULL image gives error %d",hist,e);
	}
	else {
		RDResolution* rw = (void*)16,* rh = (void*)16; size_t cw = 99, ch = 99;
		bool w = op == 7 || op == 8 || op == 11 || op == 12, hh = op == 7 || op == 9 || op == 11 || op == 12;
		if(op == 11) e = resdet_analysis_results(h->a,&rw,NULL,&rh,&ch);
		else if(op == 12) e = resdet_analysis_results(h->a,&rw,&cw,&rh,NULL);
		else e = resdet_analysis_results(h->a,w ? &rw : NULL,w ? &cw : NULL,hh ? &rh : NULL,hh ? &ch : NULL);
		RDError want = op >= 11 ? RDEPARAM : h->total ? RDEOK : RDENOIMG;
		if(e != want) mc_fail("results-error","%s: error %d, expected %d",hist,e,want);
		if(e) {
			if((w && rw) || (hh && rh) || (w && op != 11 && cw) || (hh && op != 12 && ch)) mc_fail("outputs","%s: outputs are not cleared on error %d",hist,e);
		}
		else {
			if(w) { check_mean(rw,cw,0,h->cnt,h->thr,hist); free(rw); }
			if(hh) { check_mean(rh,ch,1,h->cnt,h->thr,hist); free(rh); }
		}
	}
}

static void mc_case(void) {
	static const struct { size_t w, h, range; } cfg[] = {{7,5,2},{4,9,1},{12,1,3},{1,8,2},{6,6,2}};
	int space = mc_choose(3);
	int m = mc_choose(4), k = mc_choose(MC_Q(3,5));
	char hist[400] = ""; size_t o = 0;
	if(space == 0) {
		/* one handle, all operations, all sequences up to the depth */
		int depth = MC_Q(4,5);
		double thr = mc_choose(2) ? 0 : 0.4;
		int ops[8], n = 0;
		for(; n < depth; n++) { int c = mc_choose(14); if(c == 13) break; ops[n] = c; if(n == 1) mc_mine(); }
		if(n < 2) mc_mine();
		setup(cfg[k].w,cfg[k].h,m,cfg[k].range);
		struct handle h = {create(cfg[k].range,thr),{0},0,thr};
		if(!h.a) return;
		o += snprintf(hist,sizeof hist,"%zux%zu %s range %zu:",W,H,ref_method_name[m],cfg[k].range);
		for(int i = 0; i < n; i++) {
			o += snprintf(hist+o,sizeof hist-o," %s",opname[ops[i]]);
			mc_trace("%s",hist);
			apply(&h,ops[i],hist);
			mc_state(mc_hash(h.cnt,sizeof h.cnt,mc_hashi(m*100+k*10+(thr > 0),0)));
		}
		apply(&h,7,hist); apply(&h,7,hist); /* results, twice */
		unchanged(hist);
		mc_outcome(mc_hash(h.cnt,sizeof h.cnt,m*10+k));
		resdet_destroy_analysis(h.a);
		if(h.total > 1) mc_nontriv++;
		if(mc_want_sample()) mc_sample("%s",hist);
	}
	else if(space == 1) {
		/* two live handles, interleaved */
		int depth = MC_Q(5,6);
		static const int al[] = {0,1,2,4,7};
		int ops[8];
		for(int i = 0; i < depth; i++) { ops[i] = mc_choose(10); if(i == 1) mc_mine(); }
		setup(cfg[k].w,cfg[k].h,m,cfg[k].range);
		struct handle h[2] = {{create(cfg[k].range,0),{0},0,0},{create(cfg[k].range,0.3),{0},0,0.3}};
		o += snprintf(hist,sizeof hist,"%zux%zu %s two handles:",W,H,ref_method_name[m]);
		for(int i = 0; i < depth; i++) {
			o += snprintf(hist+o,sizeof hist-o," %c.%s",'p'+ops[i]/5,opname[al[ops[i]%5]]);
			mc_trace("%s",hist);
			apply(&h[ops[i]/5],al[ops[i]%5],hist);
			mc_state(mc_hash(h[1].cnt,sizeof h[1].cnt,mc_hash(h[0].cnt,sizeof h[0].cnt,mc_hashi(1000+m*100+k,0))));
		}
		resdet_destroy_analysis(h[1].a);
		apply(&h[0],7,hist);
		unchanged(hist);
		mc_outcome(mc_hash(h[0].cnt,sizeof h[0].cnt,m*10+k+500));
		resdet_destroy_analysis(h[0].a);
		mc_nontriv++;
	}
	else {
		/* long histories: counters, and the average does not drift */
		static const uint64_t len[] = {9,100,255,256,257,1000,4096,65535,65536,65537,100000,131073,1000003,16777300};
		int li = mc_choose(k == 2 ? MC_Q(13,14) : MC_Q(12,13)), pat = mc_choose(3);
		mc_mine();
		setup(cfg[k].w,cfg[k].h,m,cfg[k].range);
		struct handle h = {create(cfg[k].range,0),{0},0,0};
		snprintf(hist,sizeof hist,"%zux%zu %s: %llu frames, pattern %d",W,H,ref_method_name[m],(unsigned long long)len[li],pat);
		mc_trace("%s",hist);
		for(uint64_t i = 0; i < len[li]; i++) apply(&h,pat == 0 ? 0 : pat == 1 ? i%3 : i < len[li]-1 ? 1 : 2,hist);
		mc_state(mc_hash(h.cnt,sizeof h.cnt,mc_hashi(5000+m*100+k,0)));
		apply(&h,7,hist);
		unchanged(hist);
		resdet_destroy_analysis(h.a);
		mc_nontriv++;
	}
}
