/*
 * Upscaling is found (C05): for every pair (source size, upscaled size) in the bound, an image whose spectrum is the odd
 * extension that resampling produces - and, in a second space, an image really resampled with a linear, cubic or Lanczos
 * kernel - is reported with the source size as best guess; a dimension that was not upscaled is not reported.
 */
#include "mc.h"
#include "ref.h"

/* F: h x w spectrum of an h0 x w0 block extended oddly in each upscaled dimension */
static void extend(double* F, size_t w, size_t h, size_t w0, size_t h0, int content) {
	for(size_t y = 0; y < h0; y++)
		for(size_t x = 0; x < w0; x++) {
			double m = 0.5+ref_noise(x,y,content), s = ref_noise(x,y,content+50) < 0.5 ? -1 : 1;
			F[y*w+x] = content == 9 ? m : m*s;
		}
	/* gain of the resampling filter: falls slowly */
	for(size_t y = 0; y < h0 && w0 < w; y++) {
		F[y*w+w0] = 0.04*F[y*w+w0-1];
		for(size_t i = 1; w0+i < w; i++) {
			double g = 0.95-0.35*i/(double)w;
			F[y*w+w0+i] = i <= w0 ? -g*F[y*w+w0-i] : 0.2*(ref_noise(w0+i,y,content+60)-0.5);
		}
	}
	for(size_t x = 0; x < w && h0 < h; x++) {
		F[h0*w+x] = 0.04*F[(h0-1)*w+x];
		for(size_t i = 1; h0+i < h; i++) {
			double g = 0.95-0.35*i/(double)h;
			F[(h0+i)*w+x] = i <= h0 ? -g*F[(h0-i)*w+x] : w0 == w ? 0.2*(ref_noise(x,h0+i,content+70)-0.5) : 0.3*(ref_noise(1,h0+i,content+70)-0.5)*F[(size_t)(ref_noise(2,h0+i,content)*h0)*w+x];
		}
	}
}

static double kernel(int k, double x) {
	x = fabs(x);
	if(k == 0) return x < 1 ? 1-x : 0;
	if(k == 1) return x < 1 ? 1.5*x*x*x-2.5*x*x+1 : x < 2 ? -0.5*x*x*x+2.5*x*x-4*x+2 : 0; /* Catmull-Rom */
	if(x < 1e-9) return 1;
	return x < 3 ? 3*sin(M_PI*x)*sin(M_PI*x/3)/(M_PI*M_PI*x*x) : 0;
}
static void resample(const double* in, size_t n0, double* out, size_t n, size_t stride_in, size_t stride_out, int k) {
	int sup = k == 0 ? 1 : k == 1 ? 2 : 3;
	for(size_t i = 0; i < n; i++) {
		double c = (i+0.5)*n0/n-0.5, s = 0, ws = 0;
		for(long j = (long)floor(c)-sup; j <= (long)floor(c)+sup+1; j++) {
			double wt = kernel(k,c-j);
			long q = j < 0 ? -j-1 : j >= (long)n0 ? 2*(long)n0-1-j : j; /* edges mirrored */
			s += wt*in[q*stride_in]; ws += wt;
		}
		out[i*stride_out] = s/ws;
	}
}

static void expect(const char* what, const RDResolution* r, size_t c, size_t L, size_t src, bool upscaled, double conf, double margin, const char* desc) {
	const char* why = NULL;
	if(!c) why = "empty list";
	else if(upscaled) {
		if(r[0].index != src) why = "the source size is not the best guess";
		else if(r[0].confidence < conf) why = "the confidence of the source size is too low";
		else if(c > 2 && r[0].confidence-r[1].confidence < margin) why = "another size scores as well as the source size";
	}
	else if(r[0].index != L || c != 1) why = "an upscale is reported where there is none";
	if(why) mc_fail("guess","%s, %s %zu from %zu: %s (best %zu with %.6f of %zu results)",desc,what,L,src,why,c ? r[0].index : 0,c ? r[0].confidence : 0,c);
}

/* the sizes of films and photographs, both dimensions by their own factor, one or several frames */
static void case_video(void) {
	static const struct { size_t w0, h0, w, h; } sz[] = {{640,360,1280,720},{1280,720,1920,1080},{400,300,640,480},{300,2000,420,2600},{2200,40,2800,64},{48,2100,64,3000},{720,300,720,480},{500,640,800,640},{1440,1080,1920,1080},{1000,30,1500,30},{30,1100,30,1500},{1600,1200,2592,1944}};
	int z = mc_choose(MC_Q(11,12)), k = mc_choose(3), method = mc_choose(4), nf = 1+2*mc_choose(2);
	size_t w0 = sz[z].w0, h0 = sz[z].h0, w = sz[z].w, h = sz[z].h;
	if(nf > 1 && w*h > (mc_tier ? 3000000 : 400000)) mc_skip();
	if(!mc_tier && w*h > 500000 && (z+k+method)%3) mc_skip();
	mc_mine();
	char desc[200]; snprintf(desc,sizeof desc,"%d frames of %zux%zu resampled with kernel %d to %zux%zu, method %s",nf,w0,h0,k,w,h,ref_method_name[method]); mc_trace("%s",desc);
	double* in = malloc(sizeof(double)*w0*h0),* t = malloc(sizeof(double)*w*h0),* out = malloc(sizeof(double)*w*h); float* img = malloc(sizeof(float)*w*h*nf);
	for(int f = 0; f < nf; f++) {
		for(size_t i = 0; i < w0*h0; i++) in[i] = ref_noise(i%w0,i/w0,3+f);
		for(size_t y = 0; y < h0; y++) { if(w == w0) memcpy(t+y*w,in+y*w,sizeof(double)*w); else resample(in+y*w0,w0,t+y*w,w,1,1,k); }
		if(h == h0) memcpy(out,t,sizeof(double)*w*h); else for(size_t x = 0; x < w; x++) resample(t+x,h0,out+x,h,w,w,k);
		for(size_t i = 0; i < w*h; i++) img[f*w*h+i] = out[i];
	}
	RDResolution* rw,* rh; size_t cw, ch; mc_step();
	RDError e = resdetect(img,nf,w,h,&rw,&cw,&rh,&ch,resdet_get_method(ref_method_name[method]),NULL);
	if(e) mc_fail("error","%s: error %d",desc,e);
	else {
		mc_trace("widths %zu (%zu %.4f), heights %zu (%zu %.4f)",cw,rw[0].index,rw[0].confidence,ch,rh[0].index,rh[0].confidence);
		bool strict = method == M_SIGN;
		if(w0 < w && (strict || rw[0].index != w)) expect("width",rw,cw,w,w0,true,strict ? 0.7 : 0,0,desc);
		if(h0 < h && (strict || rh[0].index != h)) expect("height",rh,ch,h,h0,true,strict ? 0.7 : 0,0,desc);
		mc_nontriv++; mc_outcome(res_hash(rw,cw,res_hash(rh,ch,1)));
		if(mc_want_sample()) mc_sample("%s -> best %zux%zu",desc,rw[0].index,rh[0].index);
		free(rw); free(rh);
	}
	free(in); free(t); free(out); free(img);
}
static void mc_case(void) {
	int space = mc_choose(3);
	if(space == 2) { case_video(); return; }
	RDResolution* rw,* rh; size_t cw, ch; RDError e;
	char desc[200];
	if(space == 0) {
		/* ideal odd extension */
		static const size_t ranges[] = {0,4,8,20};
		int kind = mc_choose(3); /* width, height, both upscaled */
		int method = mc_choose(4);
		size_t range = ranges[mc_choose(MC_Q(2,4))];
		bool obj = range || mc_choose(2); /* parameters left at their defaults or not given at all */
		size_t r = method == M_ZEROX ? 1 : range ? range : resdet_default_range();
		int max = MC_Q(76,120);
		size_t big = 2*r+6+mc_choose(max-(int)(2*r+6)+1);
		size_t small = 1+mc_choose((int)big-1);
		if(small <= r || small+r >= big) mc_skip(); /* source sizes that have `range` neighbours on both sides */
		mc_mine();
		size_t w, h, w0, h0;
		if(kind == 0) { w = big; w0 = small; h = h0 = 8; }
		else if(kind == 1) { h = big; h0 = small; w = w0 = 8; }
		else { w = big; w0 = small; h = big+3; h0 = h*small/big; if(h0 <= r || h0+r >= h || h > 2*h0 || w > 2*w0) mc_skip(); }
		snprintf(desc,sizeof desc,"odd extension %zux%zu -> %zux%zu, method %s, range %zu%s",w0,h0,w,h,ref_method_name[method],range,obj ? "" : ", no parameters");
		mc_trace("%s",desc);
		double* F = calloc(w*h,sizeof(*F)); float* img = malloc(sizeof(float)*w*h);
		extend(F,w,h,w0,h0,1);
		ref_idct2(F,img,w,h);
		RDParameters* p = resdet_alloc_default_parameters();
		if(range) resdet_parameters_set_range(p,range);
		mc_step();
		e = resdetect(img,1,w,h,&rw,&cw,&rh,&ch,resdet_get_method(ref_method_name[method]),obj ? p : NULL);
		free(p);
		if(e) { mc_fail("error","%s: error %d",desc,e); }
		else {
			if(w0 < w) expect("width",rw,cw,w,w0,true,0.9999,0.01,desc);
			if(h0 < h) expect("height",rh,ch,h,h0,true,0.9999,0.01,desc);
			/* the other dimension is too short for the range to report anything */
			if(w0 == w && method != M_ZEROX && 2*r >= w) expect("width",rw,cw,w,w0,false,0,0,desc);
			if(h0 == h && method != M_ZEROX && 2*r >= h) expect("height",rh,ch,h,h0,false,0,0,desc);
			mc_nontriv++;
			mc_outcome(res_hash(rw,cw,res_hash(rh,ch,mc_hashi(method,0))));
			if(mc_want_sample()) mc_sample("%s -> best %zux%zu",desc,rw[0].index,rh[0].index);
			free(rw); free(rh);
		}
		if(kind != 2) {
			/* the same sizes without an extension: a spectrum that never changes sign */
			memset(F,0,sizeof(*F)*w*h);
			extend(F,w,h,w,h,9);
			ref_idct2(F,img,w,h);
			mc_step();
			e = resdetect(img,1,w,h,&rw,&cw,&rh,&ch,resdet_get_method(ref_method_name[method]),NULL);
			if(e) mc_fail("error","%s: error %d",desc,e);
			else {
				snprintf(desc,sizeof desc,"not upscaled %zux%zu, method %s",w,h,ref_method_name[method]);
				expect("width",rw,cw,w,w,false,0,0,desc); expect("height",rh,ch,h,h,false,0,0,desc);
				free(rw); free(rh);
			}
		}
		free(F); free(img);
	}
	else {
		/* really resampled */
		int k = mc_choose(3);
		size_t w = 60+mc_choose(MC_Q(40,100)), w0 = 30+mc_choose(130), h = 64;
		double ratio = (double)w/w0;
		if(w0+13 > w || ratio < 1.15 || ratio > 2.0) mc_skip();
		bool tr = mc_choose(2);
		mc_mine();
		snprintf(desc,sizeof desc,"resampled with kernel %d, %zu -> %zu, %s",k,w0,w,tr ? "height" : "width");
		mc_trace("%s",desc);
		double* in = malloc(sizeof(double)*w0*h),* out = malloc(sizeof(double)*w*h); float* img = malloc(sizeof(float)*w*h);
		for(size_t i = 0; i < w0*h; i++) in[i] = ref_noise(i%w0,i/w0,3);
		for(size_t y = 0; y < h; y++) resample(in+y*w0,w0,out+y*w,w,1,1,k);
		for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) img[tr ? x*h+y : y*w+x] = out[y*w+x];
		mc_step();
		e = resdetect(img,1,tr ? h : w,tr ? w : h,&rw,&cw,&rh,&ch,NULL,NULL);
		if(e) mc_fail("error","%s: error %d",desc,e);
		else {
			expect(tr ? "height" : "width",tr ? rh : rw,tr ? ch : cw,w,w0,true,0.75,0.05,desc);
			mc_nontriv++;
			mc_outcome(res_hash(rw,cw,res_hash(rh,ch,0)));
			if(mc_want_sample()) mc_sample("%s -> best %zux%zu",desc,rw[0].index,rh[0].index);
			free(rw); free(rh);
		}
		free(in); free(out); free(img);
	}
}
