/*
 * The result list contract (C01): shape, order, bounds, and the exact meaning of the threshold, for every size, range,
 * method, number of frames and threshold.  Self-consistency oracle: the list at a threshold is the list at threshold 0
 * with the entries below it removed; asking for one dimension gives the same list as asking for both.
 */
#include "mc.h"
#include "ref.h"

static bool structural(const char* what, const RDResolution* r, size_t c, size_t L, size_t first, size_t cnt, double thr) {
	if(!c || !r) { mc_fail("empty","%s of length %zu: empty list",what,L); return false; }
	if(r[c-1].index != L || r[c-1].confidence != -1) { mc_fail("last","%s: last entry is %zu:%g, expected %zu:-1",what,r[c-1].index,r[c-1].confidence,L); return false; }
	for(size_t i = 0; i+1 < c; i++) {
		if(!(r[i].confidence >= 0 && r[i].confidence <= 1)) { mc_fail("range","%s of length %zu: confidence %g at index %zu is outside 0..1",what,L,r[i].confidence,r[i].index); return false; }
		if(i && !(r[i-1].confidence >= r[i].confidence)) { mc_fail("order","%s of length %zu: entry %zu (%g) is above entry %zu (%g)",what,L,i,r[i].confidence,i-1,r[i-1].confidence); return false; }
		if(r[i].index < first || r[i].index >= first+cnt) { mc_fail("bounds","%s: index %zu is not among the candidates %zu..%zu of length %zu",what,r[i].index,first,first+cnt-1,L); return false; }
		if(r[i].confidence < thr) { mc_fail("below","%s of length %zu: index %zu with confidence %.9g is below the threshold %.9g",what,L,r[i].index,r[i].confidence,thr); return false; }
		for(size_t j = 0; j < i && c < 200; j++) if(r[j].index == r[i].index) { mc_fail("duplicate","%s of length %zu: index %zu is listed twice",what,L,r[i].index); return false; }
	}
	return true;
}
/* a score that differs from the threshold at all is decided exactly; one that equals it only if it was not rounded on its way
   into the result */
static bool counts; /* the method's scores are quotients of small counts */
static bool dyadic(float c) { float s = c*256; return counts ? s == floorf(s) : c == 0; }
static void filtered(const char* what, const RDResolution* all, size_t na, const RDResolution* r, size_t c, size_t L, double thr) {
	float* conf = malloc(sizeof(float)*(L+1)); char* in = calloc(L+1,1);
	for(size_t i = 0; i <= L; i++) conf[i] = -2;
	for(size_t i = 0; i+1 < na; i++) conf[all[i].index] = all[i].confidence;
	for(size_t i = 0; i+1 < c; i++) {
		size_t x = r[i].index; in[x] = 1;
		if(conf[x] != r[i].confidence) { mc_fail("conf-differs","%s of length %zu: index %zu has confidence %.9g at threshold %.9g and %.9g at threshold 0",what,L,x,r[i].confidence,thr,conf[x]); break; }
		if(conf[x] < thr) { mc_fail("below","%s of length %zu: index %zu (%.9g) listed at threshold %.9g",what,L,x,conf[x],thr); break; }
	}
	for(size_t x = 0; x < L; x++)
		if(!in[x] && conf[x] >= 0 && (conf[x] > thr || (dyadic(conf[x]) && conf[x] == thr))) { mc_fail("missing","%s of length %zu: index %zu has confidence %.9g but is not listed at threshold %.9g",what,L,x,conf[x],thr); break; }
	free(conf); free(in);
}

static void content(float* img, size_t w, size_t h, int k) {
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++)
		img[y*w+x] = k == 0 ? ref_noise(x,y,7) : k == 1 ? 0 : k == 2 ? 1 : k == 3 ? ((x+y)&1) : k == 4 ? (x == 0 && y == 0) : k == 5 ? ref_noise(x,y,8)*0.2+((x/2+y/2)&1) : (float)(x+1)/w;
}

static void mc_case(void) {
	static const size_t dims[] = {1,2,3,4,5,6,7,8,11,12,13,16,23,24,25,26,27,31,36,40,50,64,101};
	static const size_t ranges[] = {1,2,3,12,13,20,0,25,50,((size_t)-1)/2,(size_t)-1};
	static const double thrs[] = {-1,0,1e-7,0.1,0.25,1/3.0,0.5,0.55,0.75,11/12.0,0.999,1};
	static const size_t large[][2] = {{90,300},{300,90},{40,700},{1200,64},{640,480},{33,5000}};
	int nd = MC_Q(19,23), big = mc_choose(MC_Q(4,6)+1);
	/* small sizes straddle the limits the range sets; large ones have confidences that lie close together */
	size_t w = big ? large[big-1][0] : dims[mc_choose(nd)], h = big ? large[big-1][1] : dims[mc_choose(nd)];
	int method = mc_choose(4);
	size_t range = ranges[mc_choose(MC_Q(10,11))];
	if(range == ((size_t)-1)/2) range = MC_Q(24,5000); /* far larger than any dimension here, or than half of them */
	if(big && range > 25) mc_skip();
	int cont = mc_choose(MC_Q(6,7)), frames = 1+mc_choose(MC_Q(2,3));
	mc_mine();
	float* img = malloc(sizeof(float)*w*h*frames);
	for(int f = 0; f < frames; f++) content(img+f*w*h,w,h,(cont+f)%7);
	RDMethod* m = resdet_get_method(ref_method_name[method]);
	counts = method == 0 || method == 3;
	RDResolution* all[2] = {0}; size_t nall[2] = {0};
	uint64_t oh = 0;
	mc_trace("%zux%zu method %s range %zu content %d frames %d",w,h,ref_method_name[method],range,cont,frames);
	size_t r = range ? range : resdet_default_range();
	int nt = sizeof thrs/sizeof *thrs;
	for(int t = -1; t < nt+6; t++) {
		double thr = t < 0 ? 0 : t < nt ? thrs[t] : -1;
		if(t >= nt) { /* one representable step either side of a confidence of this very image, and that confidence */
			int d = (t-nt)/3, up = (t-nt)%3;
			if(nall[d] < 2) continue;
			float c = all[d][(nall[d]-1)/2].confidence;
			thr = up == 2 ? c : nextafterf(c,up ? 2 : -1);
			if(thr < 0 || thr > 1) continue;
		}
		RDParameters* p = resdet_alloc_default_parameters();
		if(range) resdet_parameters_set_range(p,range);
		if(thr >= 0) resdet_parameters_set_threshold(p,thr);
		RDError e;
		RDAnalysis* a = resdet_create_analysis(m,w,h,p,&e);
		free(p);
		if(!a) { mc_fail("create","create %zux%zu range %zu: error %d",w,h,range,e); break; }
		for(int f = 0; f < frames; f++) { mc_step(); if((e = resdet_analyze_image(a,img+f*w*h))) mc_fail("analyze","frame %d: error %d",f,e); }
		RDResolution* res[2]; size_t n[2];
		mc_step();
		if((e = resdet_analysis_results(a,&res[0],&n[0],&res[1],&n[1]))) { mc_fail("results","error %d",e); break; }
		double eff = thr >= 0 ? (double)(float)thr : ref_method_threshold[method];
		for(int d = 0; d < 2; d++) {
			size_t L = d ? h : w, first, cnt = ref_candidates(L,r,method,&first);
			const char* nm = d ? "heights" : "widths";
			if(!structural(nm,res[d],n[d],L,first,cnt,eff)) return;
			if(t < 0) {
				/* a threshold of 0 lists a result for every candidate */
				if(n[d] != cnt+1) mc_fail("complete","%s of length %zu, method %s range %zu: %zu entries at threshold 0, expected one for each of %zu candidates and the full size",nm,L,ref_method_name[method],r,n[d],cnt);
				all[d] = res[d]; nall[d] = n[d];
			}
			else filtered(nm,all[d],nall[d],res[d],n[d],L,eff);
			oh = res_hash(res[d],n[d],oh);
			/* asking for this dimension alone */
			RDResolution* one = (void*)1; size_t c1 = 77;
			mc_step();
			if(d) e = resdet_analysis_results(a,NULL,NULL,&one,&c1); else e = resdet_analysis_results(a,&one,&c1,NULL,NULL);
			if(e || !res_equal(one,c1,res[d],n[d])) mc_fail("alone","%s requested alone differ from %s requested together (error %d, %zu and %zu entries)",nm,nm,e,c1,n[d]);
			free(one);
			if(n[d] > 1) mc_nontriv += d == 0;
		}
		if(t >= 0) { free(res[0]); free(res[1]); }
		resdet_destroy_analysis(a);
	}
	mc_outcome(oh);
	if(mc_want_sample()) mc_sample("%zux%zu method=%s range=%zu content=%d frames=%d, 18 thresholds -> at threshold 0: %zu widths, %zu heights",w,h,ref_method_name[method],r,cont,frames,nall[0],nall[1]);
	free(all[0]); free(all[1]); free(img);
}
