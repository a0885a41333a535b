/*
 * Scores follow the definition of each method (C02 sign/zerox, C03 mag/orig) and the analysis is right at every size (C04).
 * One execution = one image x method x range, analysed by the real library with threshold 0 (or the default), so that the
 * score of every candidate position is observed and compared with the reference model.
 */
#include "mc.h"
#include "ref.h"

/* the library is given the image times 2^scaling, which changes neither signs nor ratios nor, past all range, any rounding */
static int scaling;
static void run(const float* img, size_t w, size_t h, int method, size_t range, double thr, const char* what) {
	RDParameters* p = resdet_alloc_default_parameters();
	RDError e;
	if(range) resdet_parameters_set_range(p,range);
	else range = resdet_default_range();
	if(thr >= 0) resdet_parameters_set_threshold(p,thr);
	RDMethod* m = resdet_get_method(ref_method_name[method]);
	if(!m) { mc_fail("no-method","method %s is missing",ref_method_name[method]); return; }
	RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0;
	mc_step();
	RDAnalysis* a = resdet_create_analysis(m,w,h,p,&e);
	free(p);
	if(!a) { mc_fail("create","create %zux%zu failed: error %d",w,h,e); return; }
	float* copy = malloc(sizeof(float)*w*h);
	for(size_t i = 0; i < w*h; i++) copy[i] = ldexpf(img[i],scaling);
	mc_step();
	e = resdet_analyze_image(a,copy);
	if(!e) { mc_step(); e = resdet_analysis_results(a,&rw,&cw,&rh,&ch); }
	resdet_destroy_analysis(a);
	if(e) { mc_fail("analysis","analysing a finite %zux%zu image failed: error %d",w,h,e); free(copy); return; }
	free(copy);
	double* F = malloc(sizeof(*F)*w*h),* lo = malloc(sizeof(*lo)*((w>h?w:h)+1)),* hi = malloc(sizeof(*hi)*((w>h?w:h)+1));
	ref_dct2(img,F,w,h);
	bool black = true; for(size_t i = 0; i < w*h && black; i++) black = img[i] == 0;
	double tol = ref_tol(img,w,h), t = thr >= 0 ? (double)(float)thr : ref_method_threshold[method];
	char why[400];
	uint64_t oh = mc_hashi(method,0); size_t first, n; bool nontriv = false;
	for(int d = 0; d < 2; d++) {
		size_t L = d ? h : w;
		n = d ? ref_scores(F,h,w,1,w,method,range,tol,lo,hi) : ref_scores(F,w,h,w,1,method,range,tol,lo,hi);
		/* a black image has no coefficient but 0, which is neither opposite to nor between anything (the sign of 0 is left open) */
		if(black && method != M_SIGN) for(size_t i = 0; i < n; i++) hi[i] = 0;
		ref_candidates(L,range,method,&first);
		for(size_t i = 0; i < n; i++) if(lo[i] > 0) nontriv = true;
		const char* bad = ref_compare(d ? rh : rw,d ? ch : cw,L,first,n,lo,hi,t,why,sizeof why);
		if(bad) {
			char b[600] = ""; size_t o = 0;
			if(w*h <= 24) for(size_t i = 0; i < w*h && o < sizeof b-32; i++) o += snprintf(b+o,sizeof b-o," %.9g",img[i]);
			mc_fail("score","%s (times 2^%d): method %s range %zu image %zux%zu, %s: %s%s%s",what,scaling,ref_method_name[method],range,w,h,d ? "heights" : "widths",bad,*b ? "; pixels" : "",b);
		}
	}
	oh = res_hash(rw,cw,oh); oh = res_hash(rh,ch,oh);
	mc_outcome(oh);
	mc_nontriv += nontriv;
	if(mc_want_sample())
		mc_sample("%s method=%s range=%zu %zux%zu threshold=%g -> %zu widths (first %zu:%.4f), %zu heights",what,ref_method_name[method],range,w,h,t,cw,rw[0].index,rw[0].confidence,ch);
	mc_extra[0] = ref_certain; mc_extra[1] = ref_uncertain;
	free(F); free(lo); free(hi); free(rw); free(rh);
}

static void generic(float* img, size_t w, size_t h, int content) {
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
		double v = ref_noise(x,y,content);
		switch(content) {
			case 1: v = v*0.1+0.8*((x/3+y/2)&1); break;                 /* edges */
			case 2: v = v*2-1; break;                                   /* negative values */
			case 3: v = v*255; break;
			case 4: v = v*1e-3+0.5; break;                              /* low contrast */
			case 5: v = (v-0.5)*1e6; break;
			case 6: v = ldexp(v,-40); break;
			case 7: v = ldexp(v-0.5,128); break;                        /* coefficients past the range of single precision */
			/* nothing but rounding to single precision at all but a few frequencies, and what rounding leaves there is no accident in higher precision */
			case 8: v = 0.5+0.3*cos(M_PI*(x+.5)/w)+0.15*cos(2*M_PI*(y+.5)/h)*cos(M_PI*(x+.5)/w)+0.02*cos(M_PI*(y+.5)/h); break;
			default: break;
		}
		img[y*w+x] = v;
	}
}
/* few nonzero lines, so that the reference stays cheap at large sizes */
static void sparse(float* img, size_t w, size_t h, int content) {
	for(size_t i = 0; i < w*h; i++) img[i] = 0;
	if(w >= h)
		for(int k = 0; k < 4; k++) { size_t x = (size_t)(ref_noise(k,w,content)*w); for(size_t y = 0; y < h; y++) img[y*w+x] = ref_noise(x,y,content)+0.25; }
	else
		for(int k = 0; k < 4; k++) { size_t y = (size_t)(ref_noise(k,h,content)*h); for(size_t x = 0; x < w; x++) img[y*w+x] = ref_noise(x,y,content)+0.25; }
}

/* ratios to coefficients of almost 0 are guarded in the mag method, so that it is not for small values */
static int scale_of(int i, int method) {
	static const int s[] = {0,-70,80,-100};
	int r = s[i & 3];
	return (r < 0 && method == M_MAG) || (r > 0 && REF_INTER > 1) ? 0 : r;
}
static const int pair_sign[] = {M_SIGN,M_ZEROX}, pair_mag[] = {M_MAG,M_ORIG};

static void mc_case(void) {
	scaling = 0;
	bool size_mode = !strcmp(mc_mode,"size"), mag = !strcmp(mc_mode,"mag"), prec = !strcmp(mc_mode,"prec");
	float* img;
	if(size_mode) {
		/* every length, as a width and as a height, with 1..3 lines across; plus all small rectangles */
		int space = mc_choose(3);
		size_t w, h; int method = M_SIGN; size_t range = 0; double thr = 0;
		if(space == 0) {
			size_t L = 1+mc_choose(MC_Q(512,2500)), n = 1+mc_choose(2);
			bool tr = mc_choose(2);
			mc_mine();
			w = tr ? n : L; h = tr ? L : n;
			img = malloc(sizeof(float)*w*h); generic(img,w,h,0);
		}
		else if(space == 1) {
			w = 1+mc_choose(MC_Q(40,72)); h = 1+mc_choose(MC_Q(40,72)); range = 1+3*mc_choose(2);
			mc_mine();
			img = malloc(sizeof(float)*w*h); generic(img,w,h,0);
		}
		else {
			static const size_t big[] = {1023,1024,1025,1536,1920,2048,2187,2310,2401,3125,3600,3840,4095,4096,4097,5000,6561,7680,8191,8192,15625,16384,30030,32767,32768,32769,65535,65536,65537,66000,72000,131072};
			size_t L = MC_PICK(big), n = 1+mc_choose(MC_Q(1,3)); bool tr = mc_choose(2); method = mc_choose(2) ? M_MAG : M_SIGN;
			mc_mine();
			if(mc_seed == 99999 && ref_maxprime(L) > 5000) mc_skip();
			w = tr ? n : L; h = tr ? L : n;
#ifdef BACKEND_KISS
			if(ref_maxprime(L) > 400) mc_skip(); /* quadratic time in this backend */
#endif
			img = malloc(sizeof(float)*w*h); sparse(img,w,h,1);
			thr = -1;
		}
		mc_trace("size: %zux%zu method %s range %zu",w,h,ref_method_name[method],range);
		run(img,w,h,method,range,thr,"size");
		free(img);
		return;
	}
	if(prec) { /* a cut through all of it, for builds of other precision */
		mag = mc_choose(2);
		if(mc_choose(4) == 0) {
			size_t L = 1+mc_choose(MC_Q(140,600)); bool tr = mc_choose(2); int method = mc_choose(4), content = mc_choose(2)*4; mc_mine();
			if(mag) mc_skip();
			size_t w = tr ? 3 : L, h = tr ? L : 3;
			scaling = scale_of(L/2,method);
			img = malloc(sizeof(float)*w*h); generic(img,w,h,content);
			mc_trace("length %zux%zu method %s",w,h,ref_method_name[method]);
			run(img,w,h,method,L & 1 ? 0 : 2,0,"length"); free(img);
			return;
		}
	}
	const int* methods = mag ? pair_mag : pair_sign;
	int method = methods[mc_choose(2)];
	static const int pspaces[] = {0,1,3,4};
	int space = prec ? MC_PICK(pspaces) : mc_choose(8);
	switch(space) {
	case 0: { /* every spectrum of a short line over an alphabet of signed magnitudes */
		static const double al_sign[] = {1,-1}, al_mag[] = {1,-1,2.7,-2.7}, al_zx[] = {0.3,-0.3,1,-1};
		const double* al = mag ? al_mag : method == M_ZEROX ? al_zx : al_sign;
		int na = mag || method == M_ZEROX ? 4 : 2;
		int maxL = prec ? (na == 4 ? MC_Q(5,6) : MC_Q(8,10)) : na == 4 ? MC_Q(6,8) : MC_Q(10,13);
		size_t L = 3+mc_choose(maxL-2);
		double F[16]; int code = 0;
		bool tr = mc_choose(2);
		size_t range = method == M_ZEROX ? 1 : 1+mc_choose(((int)L-1)/2);
		for(size_t i = 0; i < L; i++) { int c = mc_choose(na); code = code*na+c; F[i] = al[c]*(1+0.07*i); if(i == (L > 4 ? 3 : 1)) mc_mine(); }
		scaling = scale_of(mc_tier ? mc_choose(4) : code,method);
		img = malloc(sizeof(float)*L);
		ref_idct2(F,img,tr ? 1 : L,tr ? L : 1);
		mc_trace("spectrum %d, length %zu, range %zu, %s",code,L,range,tr ? "column" : "row");
		run(img,tr ? 1 : L,tr ? L : 1,method,range,0,"spectrum");
		free(img);
		break;
	}
	case 1: { /* every spectrum of small rectangles: both dimensions, lines averaged */
		static const size_t dims[][2] = {{3,2},{2,3},{4,2},{3,3},{5,2},{2,5},{4,3},{3,4}};
		static const double al_sign[] = {1,-1}, al_mag[] = {1.1,-1.1,3};
		int k = mc_choose(prec ? MC_Q(2,5) : MC_Q(6,8)); size_t w = dims[k][0], h = dims[k][1];
		double F[16];
		int na = mag && w*h <= MC_Q(8,10) ? 3 : 2;
		for(size_t i = 0; i < w*h; i++) { int c = mc_choose(na); F[i] = (na == 3 ? al_mag : al_sign)[c]*(1+0.13*((i*7)%5)); if(i == 3) mc_mine(); }
		img = malloc(sizeof(float)*w*h);
		ref_idct2(F,img,w,h);
		mc_trace("rectangle spectrum %zux%zu",w,h);
		run(img,w,h,method,1,0,"rectangle spectrum");
		free(img);
		break;
	}
	case 2: { /* every black and white image of a small size */
		static const size_t dims[][2] = {{4,3},{3,4},{5,2},{12,1},{1,12},{4,4}};
		int k = mc_choose(MC_Q(5,6)); size_t w = dims[k][0], h = dims[k][1];
		img = malloc(sizeof(float)*w*h);
		size_t range = 1+mc_choose(2);
		for(size_t i = 0; i < w*h; i++) { img[i] = mc_choose(2); if(i == 4) mc_mine(); }
		mc_trace("black and white %zux%zu range %zu",w,h,range);
		run(img,w,h,method,range,0,"black and white");
		free(img);
		break;
	}
	case 3: { /* rectangles x ranges x content */
		static const size_t ranges[] = {1,2,3,0,7,11,13,16};
		int max = prec ? MC_Q(14,28) : MC_Q(28,56);
		size_t w = 1+mc_choose(max), h = 1+mc_choose(max);
		size_t range = ranges[mc_choose(MC_Q(4,8))];
		mc_mine();
		img = malloc(sizeof(float)*w*h); generic(img,w,h,0);
		scaling = scale_of(w+h,method);
		if(REF_COEFF < 1 && mc_choose(2)) generic(img,w,h,8);
		mc_trace("generic %zux%zu range %zu",w,h,range);
		run(img,w,h,method,range,0,"generic");
		free(img);
		break;
	}
	case 4: { /* content kinds x ranges x thresholds at medium sizes */
		static const size_t dims[][2] = {{64,48},{48,64},{97,61},{61,128},{200,33},{33,200},{100,100}};
		static const size_t ranges[] = {1,2,4,8,12,15,16,17,20,24,31,32,33,47,49,63,64};
		static const double thr[] = {-1,0,0.25,0.5,0.75,1};
		/* with single precision intermediates the last content has coefficients below what division by almost 0 is guarded with */
		int k = mc_choose(7), c = mc_choose(REF_COEFF < 1 ? 9 : REF_INTER > 1 ? 6 : 7);
		if(c == 7 && !REF_HUGE) mc_skip();
		size_t range = prec && !mc_tier ? ranges[1+4*mc_choose(4)] : MC_PICK(ranges); double t = thr[mc_choose(prec && !mc_tier ? 2 : 6)];
		mc_mine();
		img = malloc(sizeof(float)*dims[k][0]*dims[k][1]); generic(img,dims[k][0],dims[k][1],c);
		scaling = c == 6 || c == 7 ? 0 : scale_of(k+range/2,method);
		mc_trace("content %d %zux%zu range %zu threshold %g",c,dims[k][0],dims[k][1],range,t);
		run(img,dims[k][0],dims[k][1],method,range,t,"content");
		free(img);
		break;
	}
	case 5: { /* long and thin, many lines across, large ranges: the places where a counter or an index could be too narrow */
		static const size_t L[] = {129,255,256,257,258,259,511,513,1000,4096,65535,65536,65537,70000};
		static const size_t n[] = {1,2,3,5,8};
		static const size_t ranges[] = {1,12,32,33,64,65,127,128,129,255,256,257,300};
		size_t l = MC_PICK(L), k = MC_PICK(n); bool tr = mc_choose(2); size_t range = MC_PICK(ranges);
		if(l > 5000 && range > (mc_tier ? 257 : 64)) mc_skip();
		if(l > 5000 && !mc_tier && range != 1 && range != 12 && range != 33) mc_skip();
		mc_mine();
		size_t w = tr ? k : l, h = tr ? l : k;
		img = malloc(sizeof(float)*w*h); sparse(img,w,h,2);
		mc_trace("long %zux%zu range %zu",w,h,range);
		run(img,w,h,method,range,0,"long");
		free(img);
		break;
	}
	case 6: { /* so many lines that the number of matches exceeds 16 bits; and black images */
		static const size_t lines[] = {12000,24000,70000,140000};
		size_t n = lines[mc_choose(MC_Q(2,4))], l = mc_choose(2) ? 27 : 4; bool tr = mc_choose(2), black = mc_choose(2);
		if(l == 4) n *= 24;
		mc_mine();
		if(black) n /= 1000;
		size_t w = tr ? n : l, h = tr ? l : n;
		img = calloc(w*h,sizeof(float)); if(!black) sparse(img,w,h,2);
		mc_trace("%s %zux%zu",black ? "black" : "many lines",w,h);
		run(img,w,h,method,l == 4 ? 1 : 12,0,black ? "black" : "many lines");
		free(img);
		break;
	}
	case 7: { /* ranges past 16 bits; the lengths leave few candidates, so both sides stay cheap */
		static const struct { size_t l, range; } lr[] = {{131072,65536},{131220,65537},{131220,65536+12},{131220,65600},{131250,65536}};
		size_t i = mc_choose(MC_Q(4,5)), k = 1+mc_choose(2); bool tr = mc_choose(2);
		if(method == M_ZEROX && i) mc_skip();
		mc_mine();
		size_t w = tr ? k : lr[i].l, h = tr ? lr[i].l : k;
		img = malloc(sizeof(float)*w*h); sparse(img,w,h,3);
		mc_trace("wide range %zux%zu range %zu",w,h,lr[i].range);
		run(img,w,h,method,lr[i].range,0,"wide range");
		free(img);
		break;
	}
	}
}
