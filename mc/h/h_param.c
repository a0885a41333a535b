/*
 * Parameters (C08): every setter accepts exactly its documented domain, a refused value changes nothing, an accepted value takes
 * effect - and only that value - in every later analysis, and an analysis keeps the parameters it was created with.
 * Setters are observed through analysis results only.
 */
#include "mc.h"
#include "ref.h"

#define W 33
#define H 17
static float img[W*H];
struct model { size_t range; double thr; int filter; }; /* thr < 0: method default */
static const size_t ranges[] = {0,1,2,5,8,12,16,17,(size_t)-1};
static const float thrs[] = {0,0.3f,0.55f,1,-0.0f,-1,1.0000001f,-1e-30f,NAN,INFINITY,-INFINITY,1e30f,0.99999994f,1e-45f};
static const int filters[] = {0,1,2,5,31,32,255};

struct ref { RDResolution* r[2]; size_t n[2]; };
/* reference lists at threshold 0, unfiltered, per method and range, from fresh default parameters set once */
static struct ref* reference(int m, size_t range) {
	static struct { int m; size_t range; struct ref r; } cache[64]; static int n;
	for(int i = 0; i < n; i++) if(cache[i].m == m && cache[i].range == range) return &cache[i].r;
	RDParameters* p = resdet_alloc_default_parameters();
	resdet_parameters_set_range(p,range); resdet_parameters_set_threshold(p,0);
	struct ref* r = &cache[n].r;
	cache[n].m = m; cache[n].range = range; n++;
	RDError e = resdetect(img,1,W,H,&r->r[0],&r->n[0],&r->r[1],&r->n[1],resdet_get_method(ref_method_name[m]),p);
	if(e) mc_fail("reference","error %d",e);
	free(p);
	/* the reference itself is checked against the definition of the method */
	static double F[W*H], lo[W+H], hi[W+H]; char why[300];
	ref_dct2(img,F,W,H);
	for(int d = 0; d < 2; d++) {
		size_t first, cnt = ref_candidates(d ? H : W,range,m,&first);
		if(d) ref_scores(F,H,W,1,W,m,range,ref_tol(img,W,H),lo,hi); else ref_scores(F,W,H,W,1,m,range,ref_tol(img,W,H),lo,hi);
		if(ref_compare(r->r[d],r->n[d],d ? H : W,first,cnt,lo,hi,0,why,sizeof why)) mc_fail("range-effect","method %s with range %zu: %s",ref_method_name[m],range,why);
	}
	return r;
}
static void expect(RDAnalysis* a, const struct model* md, int m, const char* hist) {
	struct ref* r = reference(m,md->range);
	RDResolution* g[2]; size_t n[2]; mc_step();
	RDError e = resdet_analyze_image(a,img);
	if(!e) e = resdet_analysis_results(a,&g[0],&n[0],&g[1],&n[1]);
	if(e) { mc_fail("analysis","%s: error %d",hist,e); return; }
	double t = md->thr < 0 ? ref_method_threshold[m] : md->thr;
	for(int d = 0; d < 2; d++) {
		size_t want = 0, L = d ? H : W; bool bad = g[d][n[d]-1].index != L; size_t at = 0;
		for(size_t i = 0; i+1 < r->n[d]; i++) {
			double c = r->r[d][i].confidence; size_t x = r->r[d][i].index; bool have = false;
			if(fabs(c-t) < 1e-6) { if(c != t || c*1024 != floor(c*1024)) { want += 0; continue; } }
			for(size_t j = 0; j+1 < n[d]; j++) if(g[d][j].index == x) { have = true; if(g[d][j].confidence != r->r[d][i].confidence) bad = true, at = x; }
			if(have != (c >= t)) { bad = true; at = x; }
			want += have;
		}
		if(bad) mc_fail("effect","%s: method %s does not behave as range %zu, threshold %g (%s %zu)",hist,ref_method_name[m],md->range,t,d ? "height" : "width",at);
		free(g[d]);
	}
	mc_outcome(mc_hashi(md->range,mc_hashi((uint64_t)(t*1e9),m)));
}

static void mc_case(void) {
	if(!img[1]) for(int i = 0; i < W*H; i++) img[i] = ref_noise(i,3,1);
	int space = mc_choose(4);
	char hist[300] = ""; size_t o = 0;
	if(space == 0) {
		/* all sequences of setter calls, an analysis created in the middle and one at the end */
		int depth = MC_Q(3,4), m = mc_choose(4), when = mc_choose(depth+1);
		RDParameters* p = NULL; struct model md = {resdet_default_range(),-1,0}, mid = md; RDAnalysis* a = NULL;
		int ops[8];
		for(int i = 0; i < depth; i++) { ops[i] = mc_choose(9+14+3); if(i == 1) mc_mine(); }
		p = resdet_alloc_default_parameters(); mc_step();
		if(!p) { mc_fail("alloc","no default parameters"); return; }
		for(int i = 0; i < depth; i++) {
			if(i == when) { RDError e; a = resdet_create_analysis(resdet_get_method(ref_method_name[m]),W,H,p,&e); mid = md; o += snprintf(hist+o,sizeof hist-o," create"); }
			RDError e, want; mc_step();
			if(ops[i] < 9) {
				size_t v = ranges[ops[i]]; e = resdet_parameters_set_range(p,v); want = v ? RDEOK : RDEPARAM; if(v) md.range = v;
				o += snprintf(hist+o,sizeof hist-o," range=%zu",v);
			}
			else if(ops[i] < 23) {
				float v = thrs[ops[i]-9]; e = resdet_parameters_set_threshold(p,v); want = v >= 0 && v <= 1 ? RDEOK : RDEPARAM; if(!want) md.thr = fabsf(v);
				o += snprintf(hist+o,sizeof hist-o," threshold=%.9g",v);
			}
			else {
				int v = (int[]){0,32,255}[ops[i]-23]; e = resdet_parameters_set_compression_filter(p,v); want = v < 32 ? RDEOK : RDEPARAM;
				o += snprintf(hist+o,sizeof hist-o," filter=%d",v);
			}
			mc_trace("%s -> %d",hist,e);
			if(e != want) mc_fail("setter","%s returns %d, expected %d",hist,e,want);
			mc_state(mc_hashi(md.range,mc_hashi((uint64_t)(md.thr*1e12),m)));
		}
		RDError e;
		RDAnalysis* b = resdet_create_analysis(resdet_get_method(ref_method_name[m]),W,H,p,&e);
		free(p);
		if(!b) mc_fail("create","%s: error %d",hist,e);
		else expect(b,&md,m,hist);
		if(a) expect(a,&mid,m,hist);
		resdet_destroy_analysis(a); resdet_destroy_analysis(b);
		mc_nontriv++;
		if(mc_want_sample()) mc_sample("method %s:%s",ref_method_name[m],hist);
	}
	else if(space == 1) {
		/* every float there is */
		int part = mc_choose(256);
		mc_mine();
		RDParameters* p = resdet_alloc_default_parameters();
		for(uint32_t i = 0; i < 1u << 24; i++) {
			uint32_t u = (uint32_t)part << 24 | i; float f; memcpy(&f,&u,4);
			RDError e = resdet_parameters_set_threshold(p,f);
			if((e == RDEOK) != (f >= 0 && f <= 1) || (e && e != RDEPARAM)) { mc_fail("threshold-domain","threshold %.9g (bits %08x) returns %d",f,u,e); break; }
			mc_trans++;
		}
		free(p);
		mc_outcome(mc_hashi(part,9));
	}
	else if(space == 2) {
		/* every filter value, boundary ranges, NULL */
		mc_mine();
		RDParameters* p = resdet_alloc_default_parameters();
		for(int v = 0; v < 256; v++) { RDError e = resdet_parameters_set_compression_filter(p,v); mc_step(); if(e != (v < 32 ? RDEOK : RDEPARAM)) mc_fail("filter-domain","filter %d returns %d",v,e); }
		resdet_parameters_set_compression_filter(p,0); resdet_parameters_set_threshold(p,0);
		for(int b = 0; b < 64; b++) for(int d = -1; d <= 3; d++) {
			size_t v = ((size_t)1 << b)+d; RDError e = resdet_parameters_set_range(p,v); mc_step();
			if(e != (v ? RDEOK : RDEPARAM)) mc_fail("range-domain","range %zu returns %d",v,e);
			/* which sizes there are to find depends on all of its bits */
			for(int m = 0; v && m < 4; m++) {
				RDResolution* g[2]; size_t n[2]; mc_step();
				if((e = resdetect(img,1,W,H,&g[0],&n[0],&g[1],&n[1],resdet_get_method(ref_method_name[m]),p))) mc_fail("range-effect","range %zu: error %d",v,e);
				for(int k = 0; k < 2; k++) { size_t first, c = ref_candidates(k ? H : W,v,m,&first); if(n[k] != c+1) mc_fail("range-effect","method %s with range %zu gives %zu sizes instead of %zu",ref_method_name[m],v,n[k],c+1); free(g[k]); }
			}
		}
		free(p);
		if(resdet_parameters_set_range(NULL,3) != RDEPARAM || resdet_parameters_set_threshold(NULL,0.5f) != RDEPARAM || resdet_parameters_set_compression_filter(NULL,1) != RDEPARAM)
			mc_fail("null","a setter accepts NULL parameters");
	}
	else {
		/* every method x every range up to beyond the image, against the definition; thresholds from a fine grid */
		int m = mc_choose(4); size_t r = 1+mc_choose(20);
		mc_mine();
		for(int t = -1; t <= 64; t++) {
			RDParameters* p = resdet_alloc_default_parameters(); RDError e;
			struct model md = {r,t/64.0,0}; mc_step();
			resdet_parameters_set_range(p,r);
			if(t >= 0) resdet_parameters_set_threshold(p,t/64.0f); else md.thr = -1;
			RDAnalysis* a = resdet_create_analysis(resdet_get_method(ref_method_name[m]),W,H,p,&e);
			free(p);
			snprintf(hist,sizeof hist,"range=%zu threshold=%d/64",r,t);
			if(a) expect(a,&md,m,hist); else mc_fail("create","%s: error %d",hist,e);
			resdet_destroy_analysis(a);
		}
		/* no parameters at all: the defaults */
		struct model md = {resdet_default_range(),-1,0}; RDError e;
		RDAnalysis* a = resdet_create_analysis(resdet_get_method(ref_method_name[m]),W,H,NULL,&e);
		if(a) expect(a,&md,m,"no parameters");
		resdet_destroy_analysis(a);
	}
}
