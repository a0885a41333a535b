/*
 * Which reader reads a file (C15).  The rule of selection, written from the documentation, is evaluated for every
 * combination of file name, declared type, content and set of readers built in; the outcome must be the one of the reader
 * the rule names, asked for explicitly, and where content and reader are both known, the one the content calls for.
 */
#include "mc.h"
#include "resdet.h"
#include "codec.h"
#include <ctype.h>
#include <dirent.h>
#include <sys/stat.h>
#ifdef R_FFMPEG
#include <libavformat/avformat.h>
#include <libavutil/log.h>
#endif

static const char* const built[] = {
#ifdef R_PGM
	"PGM",
#endif
#ifdef R_PFM
	"PFM",
#endif
#ifdef R_Y4M
	"Y4M",
#endif
#ifdef R_LIBJPEG
	"libjpeg",
#endif
#ifdef R_LIBPNG
	"libpng",
#endif
#ifdef R_FFMPEG
	"FFmpeg",
#endif
#ifdef R_MAGICKWAND
	"MagickWand",
#endif
	NULL
};
static bool has(const char* r) { for(int i = 0; built[i]; i++) if(!strcmp(built[i],r)) return true; return false; }
static const char* expect(const char* ext) {
	static const char* const own[][2] = {{"pgm","PGM"},{"pfm","PFM"},{"y4m","Y4M"},{"jpg","libjpeg"},{"jpeg","libjpeg"},{"png","libpng"}};
	for(int i = 0; i < 6; i++) if(!strcasecmp(ext,own[i][0]) && has(own[i][1])) return own[i][1];
#ifdef R_FFMPEG
	if(!has("MagickWand")) return "FFmpeg";
	void* st = NULL; const AVInputFormat* f;
	while((f = av_demuxer_iterate(&st))) {
		const char* s = f->extensions; size_t l = strlen(ext);
		while(s && *s && l) {
			size_t k = strcspn(s,",");
			if(k == l && !strncasecmp(s,ext,l)) return "FFmpeg";
			s += k+(s[k] == ',');
		}
	}
#endif
	return has("MagickWand") ? "MagickWand" : NULL;
}
/* what the type stands for, NULL if the documentation leaves it open */
static const char* type_ext(const char* name, const char* type) {
	static const char* const mime[][2] = {{"image/jpeg","jpg"},{"image/png","png"},{"video/yuv4mpeg","y4m"},{"image/x-portable-graymap","pgm"},{"image/x-portable-floatmap","pfm"}};
	if(!type) { const char* d = strrchr(name,'.'); return d ? d+1 : ""; }
	if(!strchr(type,'/')) return type;
	for(int i = 0; i < 5; i++) if(!strcmp(type,mime[i][0])) return mime[i][1];
	return "";
}

enum { K_PGM, K_PFM, K_Y4M, K_PNG, K_JPG, K_JUNK, K_EMPTY, K_MISSING, NK };
static const char* const kname[] = {"PGM","PFM","Y4M","PNG","JPEG","junk","empty","missing"};
static struct pic pics[NK];
static void prepare(void) {
	static bool done; if(done) return; done = true;
#ifdef R_FFMPEG
	av_log_set_level(AV_LOG_QUIET);
#endif
	mk_pgm(&pics[K_PGM],14,9,255,3,"\n"," ","\n","\n",-1);
	mk_pfm(&pics[K_PFM],13,10,1,0,0,3,"\n","1.0",true);
	mk_y4m(&pics[K_Y4M],16,12,3,9,"W%W H%H F25:1 Ip %C","",3);
	mk_png(&pics[K_PNG],11,13,0,0,3);
	mk_jpeg(&pics[K_JPG],17,11,0,3);
	buf_str(&pics[K_JUNK].b,"no image at all\n\001\002\003 12 12 255 some more text follows here"); 
}
static const char* owner(int k) { return k <= K_JPG ? pics[k].reader : NULL; }

/* the outcome of reading through an open handle */
struct out { RDError e, re; size_t w, h; int n; float* px; };
static void slurp(struct out* o, RDImage* im, float* b) {
	o->n = 0; o->px = NULL; o->re = RDEOK;
	if(!im) return;
	while(o->n < 8 && resdet_read_image_frame(im,b,&o->re)) {
		o->px = realloc(o->px,(o->n+1)*o->w*o->h*4); memcpy(o->px+o->n*o->w*o->h,b,o->w*o->h*4); o->n++; mc_step();
	}
	resdet_close_image(im);
}
static uint64_t h_out(struct out* o) { uint64_t h = mc_hashi(o->e,0); h = mc_hashi(o->re,h); h = mc_hashi(o->w,h); h = mc_hashi(o->n,h); return mc_hash(o->px,(size_t)o->n*o->w*o->h*4,h); }
static void contract(struct out* o, RDImage* im, float* b, const char* what) {
	MC_CHECK(!o->e == !!im,"handle","%s: error %d but handle %s",what,o->e,im ? "returned" : "null");
	if(o->e) MC_CHECK(!o->w && !o->h && !b,"outputs","%s: error %d leaves outputs set (%zux%zu, %p)",what,o->e,o->w,o->h,(void*)b);
	else MC_CHECK(o->w && o->h && b,"outputs","%s: success without outputs",what);
}

static void judge(int k, const char* path, const char* type, const char* rd, const char* what, bool bulk) {
	struct out a = {0}, x = {0}; float* b = NULL; RDImage* im;
	a.w = a.h = 77; b = (float*)1; a.e = 99;
	im = resdet_open_image(path,type,&a.w,&a.h,&b,&a.e); mc_step();
	contract(&a,im,b,what); slurp(&a,im,b); free(b);
	if(!rd) {
		if(k == K_MISSING) MC_CHECK(a.e,"unsupported","%s: accepted",what);
		else MC_CHECK(a.e == RDEUNSUPP,"unsupported","%s: no reader is built for it, but the result is %d rather than the unsupported error",what,a.e);
	}
	else {
		b = NULL;
		im = resdet_open_image_with_reader(path,rd,&x.w,&x.h,&b,&x.e); mc_step();
		contract(&x,im,b,what); slurp(&x,im,b); free(b);
		MC_CHECK(a.e == x.e && a.re == x.re && a.w == x.w && a.h == x.h && a.n == x.n && (!a.n || !memcmp(a.px,x.px,(size_t)a.n*a.w*a.h*4)),"chosen",
			"%s should be read by %s: chosen automatically it gives error %d/%d, %zux%zu, %d frames; asked for, %d/%d, %zux%zu, %d frames%s",what,rd,a.e,a.re,a.w,a.h,a.n,x.e,x.re,x.w,x.h,x.n,
			a.e == x.e && a.n == x.n ? " (pixels differ)" : "");
		bool native = strcmp(rd,"FFmpeg") && strcmp(rd,"MagickWand");
		/* only what the system refuses is a system's error; nothing is too big here */
		if(k != K_MISSING && strcmp(rd,"FFmpeg")) MC_CHECK((!a.e || a.e == RDEINVAL || a.e == RDEUNSUPP) && (!a.re || a.re == RDEINVAL),"existing","%s: the file is there to be read, but the error is %d/%d",what,a.e,a.re); /* FFmpeg has errors of its own */
		if(k == K_MISSING) MC_CHECK(native ? a.e == -ENOENT : a.e != 0,"missing","%s: error %d for a file that does not exist",what,a.e);
		else if(k == K_EMPTY || k == K_JUNK) MC_CHECK(native ? a.e == RDEINVAL : a.e || !a.n || a.re || k == K_JUNK,"junk","%s: error %d/%d, %d frames",what,a.e,a.re,a.n);
		else if(native && strcmp(rd,owner(k))) MC_CHECK(a.e == RDEINVAL,"foreign","%s: %s content given to the %s reader: error %d instead of invalid image",what,kname[k],rd,a.e);
		else if(native) {
			struct pic* p = &pics[k]; double d = 0;
			MC_CHECK(!a.e && !a.re && a.w == p->w && a.h == p->h && a.n == p->n,"own","%s: error %d/%d, %zux%zu, %d frames instead of %zux%zu, %d",what,a.e,a.re,a.w,a.h,a.n,p->w,p->h,p->n);
			for(int f = 0; f < p->n; f++) for(size_t i = 0; i < p->w*p->h; i++) d = fmax(d,fabs(a.px[f*p->w*p->h+i]-p->want[f][i]));
			MC_CHECK(d <= fmax(p->tol*1.5,1e-5),"own","%s: pixels differ by %g",what,d);
			mc_nontriv++;
		}
	}
	if(bulk) {
		float* ims = (float*)1; size_t n = 9, w, h; struct out r = {0};
		r.re = resdet_read_image(path,type,&ims,&n,&w,&h); mc_step();
		RDError we = a.e ? a.e : a.re;
		MC_CHECK(r.re == we && (we ? !ims : n == (size_t)a.n && w == a.w && h == a.h && !memcmp(ims,a.px,n*w*h*4)),"bulk","%s: read as a whole gives %d, frame by frame %d (%zu frames of %zux%zu against %d)",what,r.re,we,n,w,h,a.n);
		free(ims);
		RDResolution* rw,* rh,* sw = NULL,* sh = NULL; size_t cw, ch, dw = 0, dh = 0;
		RDError e1 = resdetect_file(path,type,&rw,&cw,&rh,&ch,NULL,NULL), e2 = a.e; mc_step();
		if(!e2 && (a.n || a.re == RDEOK)) { e2 = resdetect(a.px ? a.px : (float*)&a,a.n,a.w,a.h,&sw,&dw,&sh,&dh,NULL,NULL); if(a.re && !e2) { e2 = a.re; } }
		else if(!e2) e2 = a.re;
		MC_CHECK(e1 == e2,"detect","%s: resdetect_file gives %d instead of %d",what,e1,e2);
		if(!e1) MC_CHECK(cw == dw && ch == dh && rw[0].index == sw[0].index && rh[0].index == sh[0].index,"detect","%s: resdetect_file gives other results",what);
		free(rw); free(rh); free(sw); free(sh);
	}
	mc_outcome(mc_hash(what,strlen(what),h_out(&a)));
	if(mc_want_sample()) mc_sample("%s -> %s: error %d, %d frames of %zux%zu",what,rd ? rd : "no reader",a.e,a.n,a.w,a.h);
	mc_trace("%s -> %s: error %d/%d, %d frames of %zux%zu",what,rd ? rd : "no reader",a.e,a.re,a.n,a.w,a.h);
	free(a.px); free(x.px);
}

static const char* const exts[] = {"pgm","pfm","y4m","png","jpg","jpeg","pg","pgmx","ppm","jpe","jp","pngpng","gif","miff","mp4","xyzzy",""};
static const char* const names[] = {"%s.pgm","%s.y4m","%s.pfm","%s.png","%s.jpg","%s.jpeg","%s","%s.","%s.pgm.","%s.png.pgm","%s.pgm.png","%s..y4m","d.pgm/%s","d.y4m/%s.pfm",".pgm","pgm","y4m","%s.pgm.xyzzy","%s.xyzzy.pgm","%spgm","%s pgm.jpg","%s.p.g.m"};
static const char* const types[] = {"pgm","pfm","y4m","png","jpg","jpeg","PGM","Y4m","image/x-portable-graymap","image/x-portable-floatmap","video/yuv4mpeg","image/png","image/jpeg","image/gif","image/","/","","xyzzy","pgmx","pg","image/pgm"};

static const char* place(int k, const char* name) {
	static char p[1300], d[1200];
	snprintf(d,sizeof d,"%s/d.pgm",mc_scratch); mkdir(d,0700); snprintf(d,sizeof d,"%s/d.y4m",mc_scratch); mkdir(d,0700);
	snprintf(p,sizeof p,"%s/%s",mc_scratch,name);
	if(k != K_MISSING) write_file(p,pics[k].b.p,pics[k].b.n);
	return p;
}

static void case_name(void) {
	int k = mc_choose(NK), n = mc_choose(sizeof names/sizeof *names); mc_mine();
	char f[200], what[400]; snprintf(f,sizeof f,names[n],"x");
	/* the directory of the scratch files has a name of its own; work from inside it, so that only this name counts */
	const char* p = place(k,f);
	if(chdir(mc_scratch)) _exit(70);
	snprintf(what,sizeof what,"%s content in the file \"%s\"",kname[k],f);
	judge(k,f,NULL,expect(type_ext(f,NULL)),what,true);
	unlink(p);
}
/* every spelling in upper and lower case of every extension, as a name and as a type */
static void case_spelling(void) {
	int k = mc_choose(NK), x = mc_choose(sizeof exts/sizeof *exts), astype = mc_choose(2); size_t l = strlen(exts[x]);
	int m = mc_choose(1 << (l < 4 ? l : 4)); mc_mine();
	char e[32], f[64], what[300]; strcpy(e,exts[x]);
	for(size_t i = 0; i < l && i < 4; i++) if(m >> i & 1) e[i] = toupper(e[i]);
	snprintf(f,sizeof f,astype ? "x.dat" : "x.%s",e);
	const char* p = place(k,f);
	if(chdir(mc_scratch)) _exit(70);
	snprintf(what,sizeof what,"%s content in the file \"%s\"%s%s",kname[k],f,astype ? " with type " : "",astype ? e : "");
	judge(k,f,astype ? e : NULL,expect(e),what,m == 0);
	unlink(p);
}
static void case_type(void) {
	int k = mc_choose(NK), t = mc_choose(sizeof types/sizeof *types), n = mc_choose(sizeof names/sizeof *names); mc_mine();
	char f[200], what[400]; snprintf(f,sizeof f,names[n],"x");
	const char* p = place(k,f);
	if(chdir(mc_scratch)) _exit(70);
	snprintf(what,sizeof what,"%s content in the file \"%s\" with type \"%s\"",kname[k],f,types[t]);
	judge(k,f,types[t],expect(type_ext(f,types[t])),what,true);
	unlink(p);
}
/* readers by name: every spelling of every name, known or not, and names that only resemble one */
static const char* const rnames[] = {"PGM","PFM","Y4M","libjpeg","libpng","FFmpeg","MagickWand","","pgm ","PG","PGMM","libpn","libpngx","jpeg","list","ffmpe","Magick","y4m.","P","libjpe","magickwandx"};
static void case_reader(void) {
	int k = mc_choose(NK), r = mc_choose(sizeof rnames/sizeof *rnames); size_t l = strlen(rnames[r]);
	int full = l <= 4 ? 1 << l : 6, m = mc_choose(full); mc_mine();
	char name[32], what[300]; strcpy(name,rnames[r]);
	for(size_t i = 0; i < l; i++) {
		bool up = l <= 4 ? m >> i & 1 : m == 0 ? isupper(rnames[r][i]) : m == 1 ? true : m == 2 ? false : m == 3 ? i & 1 : m == 4 ? !(i & 1) : i == 0;
		name[i] = up ? toupper(rnames[r][i]) : tolower(rnames[r][i]);
	}
	bool known = r < 7 && has(rnames[r]);
	const char* p = place(k,"x.bin"); struct out a = {0}, b = {0}; float* buf = (float*)1; 
	snprintf(what,sizeof what,"%s content opened with reader \"%s\"",kname[k],name);
	a.w = a.h = 5; a.e = 99;
	RDImage* im = resdet_open_image_with_reader(p,name,&a.w,&a.h,&buf,&a.e); mc_step();
	contract(&a,im,buf,what); slurp(&a,im,buf); free(buf);
	if(!known) MC_CHECK(k == K_MISSING ? a.e : a.e == RDEUNSUPP,"reader-name","%s: error %d instead of unsupported",what,a.e);
	else {
		bool native = r < 5;
		if(k == K_MISSING) MC_CHECK(native ? a.e == -ENOENT : a.e != 0,"missing","%s: error %d",what,a.e);
		else if(native && owner(k) && !strcmp(owner(k),rnames[r])) { MC_CHECK(!a.e && a.n == pics[k].n && a.w == pics[k].w && a.h == pics[k].h && !a.re,"own","%s: error %d/%d, %zux%zu, %d frames",what,a.e,a.re,a.w,a.h,a.n); mc_nontriv++; }
		else if(native) MC_CHECK(a.e == RDEINVAL,"foreign","%s: error %d instead of invalid image",what,a.e);
		else if(owner(k) && k != K_PFM && !(r == 6 && k == K_Y4M)) MC_CHECK(!a.e && a.w == pics[k].w && a.h == pics[k].h && (r == 6 || a.n == pics[k].n || (r == 5 && k == K_Y4M)),"general","%s: error %d/%d, %zux%zu, %d frames",what,a.e,a.re,a.w,a.h,a.n);
	}
	mc_outcome(mc_hash(what,strlen(what),h_out(&a))); free(a.px);
	mc_trace("%s: error %d/%d, %d frames of %zux%zu",what,a.e,a.re,a.n,a.w,a.h);
	unlink(p);
}
/* types and reader names that differ in one character from those there are, or are longer or shorter */
static void case_near(void) {
	static const char* const base[] = {"pgm","pfm","y4m","png","jpg","jpeg","image/x-portable-graymap","image/x-portable-floatmap","video/yuv4mpeg","image/png","image/jpeg",
		"PGM","PFM","Y4M","libjpeg","libpng"};
	static const int owned[] = {K_PGM,K_PFM,K_Y4M,K_PNG,K_JPG,K_JPG,K_PGM,K_PFM,K_Y4M,K_PNG,K_JPG,K_PGM,K_PFM,K_Y4M,K_JPG,K_PNG};
	static const char alpha[] = "abcdefghijklmnopqrstuvwxyz0123456789-+./;, _*\n\001\377";
	int i = mc_choose(16), how = mc_choose(4), at = mc_choose(strlen(base[i])+1); char v[64]; size_t l = strlen(base[i]);
	if(how == 0) { if((size_t)at == l) return; strcpy(v,base[i]); memmove(v+at,v+at+1,l-at); }      /* one less */
	else if(how == 1) { if((size_t)at == l) return; snprintf(v,sizeof v,"%.*s",at,base[i]); }         /* cut */
	else {
#if defined R_FFMPEG || defined R_MAGICKWAND
		int c = "xe2"[mc_choose(3)];
#else
		int c = alpha[mc_choose(sizeof alpha-1)];
#endif
		strcpy(v,base[i]);
		if(how == 2) { if((size_t)at == l) return; v[at] = c; }                                         /* another */
		else { memmove(v+at+1,v+at,l-at+1); v[at] = c; }                                                /* one more */
	}
	mc_mine();
	int k = owned[i]; char what[300];
	const char* p = place(k,"x.dat");
	if(chdir(mc_scratch)) _exit(70);
	if(i < 11) {
		snprintf(what,sizeof what,"%s content with type \"%s\"",kname[k],v);
		judge(k,"x.dat",v,expect(type_ext("x.dat",v)),what,false);
		if(!strchr(v,'/') && !strchr(v,'.')) {
			char f[80]; snprintf(f,sizeof f,"x.%s",v); place(k,f);
			snprintf(what,sizeof what,"%s content in the file \"%s\"",kname[k],f);
			judge(k,f,NULL,expect(v),what,false);
			unlink(f);
		}
	}
	else {
		struct out a = {0}; float* buf = NULL; bool known = false;
		for(int j = 0; built[j]; j++) known |= !strcasecmp(built[j],v);
		snprintf(what,sizeof what,"%s content opened with reader \"%s\"",kname[k],v);
		RDImage* im = resdet_open_image_with_reader("x.dat",v,&a.w,&a.h,&buf,&a.e); mc_step();
		contract(&a,im,buf,what); slurp(&a,im,buf); free(buf); free(a.px);
		MC_CHECK(known ? a.e == (strcasecmp(owner(k),v) ? RDEINVAL : RDEOK) : a.e == RDEUNSUPP,"reader-name","%s: error %d",what,a.e);
		mc_outcome(mc_hash(what,strlen(what),0));
	}
	unlink("x.dat");
	(void)p;
}
/* types that are like none of those there are, or only belong to the same family */
static void case_family(void) {
	static const char* const t[] = {"image/jp2","image/jpx","image/jpm","image/jpg","image/jpe","image/pjpeg","image/x-jpeg","image/jpeg;q=1","image/jpeg2000","image/jxl","image/jls","image/jxr","image/x-png","image/apng","image/vnd.mozilla.apng",
		"image/x-portable-pixmap","image/x-portable-bitmap","image/x-portable-anymap","image/x-portable-graymap-ascii","image/x-portable-arbitrarymap","image/pfm","image/png;","image/x-pgm",
		"video/x-yuv4mpeg","video/yuv4mpeg2","video/mp4","video/mpeg","video/jpeg","video/png","application/pdf","text/plain","application/octet-stream","x/pgm","pgm/","/pgm","/png","pfm/pgm","a/b/pgm",
		"image/x-portable-","image/x-","video/","jpeg/image","image//png"," image/png","image/png ","bmp","pbm","pnm","ppm","pam","phm","tga","jp2","j2k","jpf","jpx","jfif","jif","jpe","pjpeg","apng","mng","yuv","y4","y4mx","m4v","png8","png24","pfm2","pgm.gz"};
	int i = mc_choose(sizeof t/sizeof *t), k = mc_choose(K_EMPTY); mc_mine();
	char what[300];
	place(k,"x.dat");
	if(chdir(mc_scratch)) _exit(70);
	snprintf(what,sizeof what,"%s content with type \"%s\"",kname[k],t[i]);
	judge(k,"x.dat",t[i],expect(type_ext("x.dat",t[i])),what,k == K_PGM);
	unlink("x.dat");
}
/* standard input: the same content is read as it is from a file, by whatever reader the type or the name says */
static void case_stdin(void) {
	static const char* const by[] = {"pgm","PFM","y4m","png","jpeg","image/png","video/yuv4mpeg","image/x-portable-graymap","","xyzzy",NULL};
	int k = mc_choose(K_MISSING), pipe_ = mc_choose(2), how = mc_choose(2), i = how ? mc_choose(7) : mc_choose(sizeof by/sizeof *by); mc_mine();
	const char* rd = how ? (has(rnames[i]) ? rnames[i] : NULL) : expect(type_ext("-",by[i])); char what[300];
	snprintf(what,sizeof what,"%s content from standard input (%s) %s \"%s\"",kname[k],pipe_ ? "a pipe" : "a file",how ? "opened with reader" : "with type",how ? rnames[i] : by[i] ? by[i] : "(none)");
	const char* p = place(k,"x"); int keep = fcntl(0,F_DUPFD,100), pp[2];
	if(pipe_) { if(pipe(pp)) _exit(70); fcntl(pp[1],F_SETPIPE_SZ,1 << 16); if(pics[k].b.n && write(pp[1],pics[k].b.p,pics[k].b.n) != (ssize_t)pics[k].b.n) _exit(70); close(pp[1]); dup2(pp[0],0); close(pp[0]); }
	else { int fd = open(p,O_RDONLY); dup2(fd,0); close(fd); }
	FILE* hold = stdin; stdin = fdopen(0,"rb");
	struct out a = {0}, x = {0}; float* b = (float*)1; a.w = a.h = 77; a.e = 99;
	RDImage* im = how ? resdet_open_image_with_reader("-",rnames[i],&a.w,&a.h,&b,&a.e) : resdet_open_image("-",by[i],&a.w,&a.h,&b,&a.e); mc_step();
	contract(&a,im,b,what); slurp(&a,im,b); free(b);
	bool native = rd && strcmp(rd,"FFmpeg") && strcmp(rd,"MagickWand");
	mc_trace("%s -> %s: error %d/%d, %d frames of %zux%zu",what,rd ? rd : "no reader",a.e,a.re,a.n,a.w,a.h);
	MC_CHECK(!native || fcntl(0,F_GETFD) >= 0,"stdin-closed","%s: standard input is closed",what);
	if(stdin) fclose(stdin);
	stdin = hold; dup2(keep,0); close(keep);
	if(!rd) MC_CHECK(a.e == RDEUNSUPP,"unsupported","%s: error %d instead of unsupported",what,a.e);
	else {
		b = NULL; im = resdet_open_image_with_reader(p,rd,&x.w,&x.h,&b,&x.e); mc_step();
		contract(&x,im,b,what); slurp(&x,im,b); free(b);
		MC_CHECK(native ? a.e == x.e : strcmp(rd,"FFmpeg") ? (!a.e || a.e == RDEINVAL || a.e == RDEUNSUPP) && (!a.e) == (!x.e) : true,"stdin","%s: error %d, from a file %d",what,a.e,x.e);
		if(!a.e && !x.e) MC_CHECK(a.re == x.re && a.w == x.w && a.h == x.h && a.n == x.n && (!a.n || !memcmp(a.px,x.px,(size_t)a.n*a.w*a.h*4)),"stdin","%s: error %d, %d frames of %zux%zu; from a file %d, %d of %zux%zu",what,a.re,a.n,a.w,a.h,x.re,x.n,x.w,x.h);
		if(native && owner(k) && !strcmp(owner(k),rd)) { MC_CHECK(!a.e && !a.re && a.n == pics[k].n,"own","%s: error %d/%d, %d frames",what,a.e,a.re,a.n); mc_nontriv++; }
	}
	mc_outcome(mc_hash(what,strlen(what),h_out(&a))); free(a.px); free(x.px); unlink(p);
}
static void case_list(void) {
	mc_choose(1); mc_mine();
	const char* const* l = resdet_list_image_readers(); int n = 0, m = 0;
	while(built[m]) m++;
	MC_CHECK(l != NULL,"list","no list");
	for(; l[n]; n++) {
		MC_CHECK(has(l[n]),"list","reader \"%s\" is listed but not built",l[n]);
		for(int i = 0; i < n; i++) MC_CHECK(strcasecmp(l[i],l[n]),"list","reader \"%s\" is listed twice",l[n]);
	}
	MC_CHECK(n == m,"list","%d readers are listed, %d are built",n,m);
	MC_CHECK(l == resdet_list_image_readers() || !strcmp(*l ? *l : "",*resdet_list_image_readers() ? *resdet_list_image_readers() : ""),"list","the list changes");
}
static void mc_case(void) {
	prepare();
	switch(mc_choose(8)) {
		case 7: case_stdin(); break;
		case 5: case_near(); break;
		case 6: case_family(); break;
		case 0: case_list(); break;
		case 1: case_name(); break;
		case 2: case_spelling(); break;
		case 3: case_type(); break;
		default: case_reader(); break; /* 4 */
	}
}
