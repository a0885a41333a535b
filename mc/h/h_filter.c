/*
 * The compression filter (C19): for every size, range, value, threshold and content the filtered list is the unfiltered one
 * without the sizes at the intervals the value stands for.
 */
#include "mc.h"
#include "ref.h"

static void image(float* img, size_t w, size_t h, int k) {
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++)
		img[y*w+x] = k == 0 ? ref_noise(x,y,3) : k == 1 ? (x+y)&1 : 0.2*ref_noise(x,y,5)+((x/3)&1);
}
/* the sizes documented to be removed: those at intervals of length/2^value */
static int documented(size_t x, size_t L, int v) {
	/* twice the distance of x from the nearest k*L/2^v, in units of 1/2^v, against 1: nearer than half a size (1), farther (0), or just between two sizes (-1: either) */
	if(!v) return 0;
	unsigned __int128 X = (unsigned __int128)x << v, k = X/L, d = X-k*L;
	if((k+1)*L-X < d) d = (k+1)*L-X;
	d *= 2;
	unsigned __int128 one = (unsigned __int128)1 << v;
	return d < one ? 1 : d == one ? -1 : 0;
}
/* what is removed instead: every size whose distance from the range is not a multiple of 2^value (known finding) */
static bool instead(size_t x, size_t first, int v) { return (x-first) % ((uint64_t)1 << v) != 0; }

static RDAnalysis* analysis(RDMethod* m, size_t w, size_t h, size_t range, double thr, int v, float* img, int frames) {
	RDParameters* p = resdet_alloc_default_parameters(); RDError e;
	if(range) resdet_parameters_set_range(p,range);
	if(thr >= 0) resdet_parameters_set_threshold(p,thr);
	if(v >= 0 && resdet_parameters_set_compression_filter(p,v)) mc_fail("refused","filter value %d is refused",v);
	RDAnalysis* a = resdet_create_analysis(m,w,h,p,&e);
	free(p);
	if(!a) { mc_fail("create","%zux%zu: error %d",w,h,e); return NULL; }
	for(int f = 0; f < frames; f++) { mc_step(); if((e = resdet_analyze_image(a,img))) mc_fail("analyze","error %d",e); }
	return a;
}
static unsigned char* kept[32]; static size_t nkept[32];

static void judge(const char* what, const RDResolution* all, size_t na, const RDResolution* r, size_t c, size_t L, size_t first, int v) {
	if(!c || r[c-1].index != L || r[c-1].confidence != -1) { mc_fail("last","%s: the full size is missing at the end of the filtered list",what); return; }
	float* conf = malloc(sizeof(float)*(L+1)); for(size_t i = 0; i <= L; i++) conf[i] = -2;
	for(size_t i = 0; i+1 < na; i++) conf[all[i].index] = all[i].confidence;
	unsigned char* in = calloc(L+1,1);
	for(size_t i = 0; i+1 < c; i++) {
		size_t x = r[i].index;
		if(x >= L || conf[x] != r[i].confidence) { mc_fail("value","%s, filter %d: size %zu has confidence %g, without the filter %g",what,v,x,r[i].confidence,x < L ? conf[x] : -9); goto end; }
		if(in[x]++) { mc_fail("twice","%s, filter %d: size %zu is listed twice",what,v,x); goto end; }
		if(i && r[i-1].confidence < r[i].confidence) { mc_fail("order","%s, filter %d: not sorted",what,v); goto end; }
	}
	/* which sizes are gone */
	bool doc = true, ins = true; size_t xd = 0;
	for(size_t i = 0; i+1 < na; i++) {
		size_t x = all[i].index; bool gone = !in[x];
		int dc = documented(x,L,v); if(dc >= 0 && gone != dc) { if(doc) xd = x; doc = false; }
		if(gone != (v && instead(x,first,v))) ins = false;
	}
	if(!doc && ins) mc_fail("filter-keeps-intervals","%s, filter %d: size %zu is %s although %s at an interval of %zu/2^%d",what,v,xd,in[xd] ? "kept" : "removed",in[xd] ? "it is" : "it is not",L,v);
	else if(!doc) mc_fail("intervals","%s, filter %d: size %zu is %s although %s at an interval of %zu/2^%d",what,v,xd,in[xd] ? "kept" : "removed",in[xd] ? "it is" : "it is not",L,v);
	if(c > 1 && c < na) mc_nontriv++;
end:
	free(conf); free(in);
}
static void mc_case(void) {
	static const size_t ranges[] = {1,2,3,4,8,12,0,7};
	static const size_t large[] = {160,255,256,257,300,512,640,720,1000,1080,1920,2048,4095,4096,4097,30000};
	int big = mc_choose(2);
	size_t L = big ? large[mc_choose(MC_Q(15,16))] : 1+mc_choose(MC_Q(72,130));
	size_t range = ranges[mc_choose(MC_Q(7,8))]; int method = mc_choose(4);
	size_t other = mc_choose(2) ? 5 : 1; bool vert = mc_choose(2);
	mc_mine();
	int cont = mc_choose(MC_Q(2,3)), frames = 1+mc_choose(MC_Q(1,2));
	if(big && (other == 5 && L > 5000)) mc_skip();
	static const double thrs[] = {0,-1,0.3,1};
	size_t w = vert ? other : L, h = vert ? L : other;
	float* img = malloc(sizeof(float)*w*h); image(img,w,h,cont);
	RDMethod* m = resdet_get_method(ref_method_name[method]);
	size_t r = range ? range : resdet_default_range(), first; ref_candidates(L,r,method,&first);
	char what[200]; snprintf(what,sizeof what,"%s of a %zux%zu image, method %s, range %zu",vert ? "heights" : "widths",w,h,ref_method_name[method],r);
	uint64_t oh = mc_hash(what,strlen(what),cont);
	for(int t = 0; t < MC_Q(3,4); t++) {
		RDAnalysis* a = analysis(m,w,h,range,thrs[t],-1,img,frames); if(!a) return;
		RDResolution* all[2]; size_t na[2]; mc_step();
		if(resdet_analysis_results(a,&all[0],&na[0],&all[1],&na[1])) mc_fail("results","no results");
		resdet_destroy_analysis(a);
		size_t prev = (size_t)-1;
		for(int v = 0; v < 32; v++) {
			if(t && v > 5 && v != 31) continue;
			a = analysis(m,w,h,range,thrs[t],v,img,frames); if(!a) return;
			RDResolution* l[2]; size_t n[2]; mc_step();
			RDError e = resdet_analysis_results(a,&l[0],&n[0],&l[1],&n[1]); if(e) { mc_fail("results","error %d with filter %d",e,v); return; }
			judge(what,all[vert],na[vert],l[vert],n[vert],L,first,v);
			size_t of; ref_candidates(other,r,method,&of);
			judge("the other dimension",all[!vert],na[!vert],l[!vert],n[!vert],other,of,v);
			if(n[vert] > prev) mc_fail("more","%s: filter %d removes fewer results than %d",what,v,v-1);
			prev = n[vert];
			/* asked again, and for this dimension alone: the same */
			RDResolution* one = NULL; size_t c1 = 0; mc_step();
			e = vert ? resdet_analysis_results(a,NULL,NULL,&one,&c1) : resdet_analysis_results(a,&one,&c1,NULL,NULL);
			if(e || !res_equal(one,c1,l[vert],n[vert])) mc_fail("again","%s, filter %d: a second request answers differently",what,v);
			free(one);
			oh = res_hash(l[vert],n[vert],oh);
			if(mc_want_sample()) mc_sample("%s, filter %d: %zu of %zu entries",what,v,n[vert],na[vert]);
			free(l[0]); free(l[1]); resdet_destroy_analysis(a);
		}
		free(all[0]); free(all[1]);
	}
	mc_outcome(oh); mc_trace("%s",what);
	free(img);
}
