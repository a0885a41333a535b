/* Linked with an installed library: says what it is like.  The argument is the size limit it should have, 0 = none. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include "resdet.h"
static void lists(const char* what, float* im, size_t w, size_t h, const char* method, size_t range) {
	RDParameters* p = resdet_alloc_default_parameters(); if(range) resdet_parameters_set_range(p,range); resdet_parameters_set_threshold(p,0);
	RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0; RDError e = resdetect(im,1,w,h,&rw,&cw,&rh,&ch,resdet_get_method(method),p);
	printf("%s %d",what,e);
	for(size_t i = 0; i < cw; i++) printf(" %zu:%.4f",rw[i].index,rw[i].confidence);
	printf(" x"); for(size_t i = 0; i < ch; i++) printf(" %zu:%.4f",rh[i].index,rh[i].confidence);
	puts(""); free(rw); free(rh); free(p);
}
static void large(const char* what, size_t w, size_t h) {
	float* x = NULL; RDError e = RDEOK; RDAnalysis* a = resdet_create_analysis(NULL,w,h,NULL,&e); printf("%s %d\n",what,a ? 0 : e); resdet_destroy_analysis(a); free(x);
}
static void image(const char* file, const char* reader) {
	RDError e = RDEOK; size_t w = 0, h = 0; float* im = NULL;
	RDImage* f = reader ? resdet_open_image_with_reader(file,reader,&w,&h,&im,&e) : resdet_open_image(file,NULL,&w,&h,&im,&e);
	printf("%s.%s",strrchr(file,'.')+1,reader ? reader : "any");
	if(!f) printf(" error %d\n",e);
	else {
		bool r = resdet_read_image_frame(f,im,&e); printf(" read %d %d %zux%zu",r,e,w,h);
		double s = 0; for(size_t i = 0; r && i < w*h; i++) s += im[i]; printf(" %.6f\n",s/(w*h));
	}
	resdet_close_image(f); free(im);
}
int main(int argc, char** argv) {
	size_t limit = strtoull(argv[1],NULL,10);
	printf("readers"); for(const char* const* l = resdet_list_image_readers(); *l; l++) printf(" %s",*l); puts("");
	printf("methods"); for(RDMethod* m = resdet_methods(); m->name; m++) printf(" %s",m->name); puts("");
	printf("range %zu\nversion %s\n",resdet_default_range(),resdet_libversion());
	if(limit) { large("fits",limit,1); large("fits",1,limit); large("over",limit+1,1); large("over",1,limit+1); large("over",limit,2); large("over",SIZE_MAX/2+1,2); }
	else { large("fits",3000,2); large("over",SIZE_MAX/2+1,2); }
	for(int i = 2; i < argc; i++) { image(argv[i],NULL); for(const char* const* l = resdet_list_image_readers(); *l; l++) image(argv[i],*l); }
	/* an image like one upscaled, as it is, and multiplied by powers of two */
	enum { W = 24, H = 20, SW = 16, SH = 14 }; static float im[W*H], big[W*H];
	for(int y = 0; y < H; y++) for(int x = 0; x < W; x++) {
		double s = 0;
		/* above the original size each coefficient is the one as far below it, negated */
		for(int v = 0; v < H; v++) for(int u = 0; u < W; u++) s += ((u > SW ? -.4 : 1)*(v > SH ? -.4 : 1)*sin((u > SW ? 2*SW-u : u)*3.1+(v > SH ? 2*SH-v : v)*1.7+(u > SW ? 2*SW-u : u)*(v > SH ? 2*SH-v : v)))*cos(M_PI*(x+.5)*u/W)*cos(M_PI*(y+.5)*v/H);
		im[y*W+x] = s/(SW*SH);
	}
	lists("upscaled",im,W,H,"sign",3);
	lists("bydefault",im,W,H,"sign",0); lists("asdefault",im,W,H,"sign",resdet_default_range());
	float max = 0; for(int i = 0; i < W*H; i++) if(fabsf(im[i]) > max) max = fabsf(im[i]);
	int k = 127-ilogbf(max);
	for(int i = 0; i < W*H; i++) big[i] = ldexpf(im[i],k);
	lists("huge",big,W,H,"sign",3);
	for(int i = 0; i < W*H; i++) big[i] = ldexpf(im[i],-60);
	lists("tiny",big,W,H,"sign",3);
	lists("orig",im,W,H,"orig",3);
	for(int i = 0; i < W*H; i++) big[i] = ldexpf(im[i],k);
	lists("hugeorig",big,W,H,"orig",3);
	return 0;
}
