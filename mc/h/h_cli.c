/*
 * The resdet program (C17): every combination of options within the bounds is run as a process and judged by what the
 * library itself says about the same frames.
 */
#include "mc.h"
#include "resdet.h"
#include "fmt.h"
#include "proc.h"

/* ---- inputs ---- */
#define NIN 15
#define NUSUAL 12 /* the others are long or large */
static struct pic pics[NIN]; static char* paths[NIN]; static const char* inname[NIN];
static const char* defreader[NIN];
static void upscaled(float* o, int w, int h, int sw, int sh, int f) {
	/* ideal upscaling in the frequency domain of a fixed small picture, so that results have something in them */
	for(int y = 0; y < h; y++) for(int x = 0; x < w; x++) {
		double s = 0;
		for(int v = 0; v < sh; v++) for(int u = 0; u < sw; u++) s += sin(u*3.1+v*1.7+f)*cos(M_PI*(x+.5)*u/w)*cos(M_PI*(y+.5)*v/h);
		o[y*w+x] = 0.5+s/(sw*sh);
	}
}
static void put(int i, const char* file, const char* what, const char* reader, size_t cut) {
	char t[1200]; snprintf(t,sizeof t,"%s/%s",mc_scratch,file); paths[i] = strdup(t); inname[i] = what; defreader[i] = reader;
	if(pics[i].b.n) write_file(t,pics[i].b.p,pics[i].b.n-cut);
}
static void prepare(void) {
	static bool did; if(did) return; did = true;
	static float im[3][24*20];
	for(int f = 0; f < 3; f++) { upscaled(im[f],20,18,13+f,11,f); }
	/* three frames, upscaled to different degrees */
	for(int f = 0; f < 3; f++) { struct buf* b = &pics[0].b; enc_pfm(b,im[f],20,18,f & 1); } put(0,"video.pfm","a film of three frames","PFM",0);
	mk_pgm(&pics[1],19,17,255,3,"\n"," ","\n","\n",-1); put(1,"still.pgm","a picture","PGM",0);
	mk_y4m(&pics[2],16,15,3,9,"W%W H%H %C","",3); put(2,"video.y4m","a Y4M film","Y4M",0);
	mk_y4m(&pics[3],9,8,3,9,"W%W H%H %C","",3); put(3,"cut.y4m","a Y4M film whose last frame is cut short","Y4M",5);
	buf_str(&pics[4].b,"P5 nothing"); put(4,"broken.pgm","a broken picture","PGM",0);
	mk_y4m(&pics[5],9,8,0,9,"W%W H%H %C","",3); put(5,"empty.y4m","a film without frames","Y4M",0);
	put(6,"missing.pgm","a missing file","PGM",0);
	mk_pgm(&pics[7],1,1,255,3,"\n"," ","\n","\n",-1); put(7,"dot.pgm","one pixel","PGM",0);
	mk_pfm(&pics[8],5,5,1,0,0,3,"\n","1.0",true); { float nan = NAN; memcpy(pics[8].b.p+pics[8].b.n-20,&nan,4); } put(8,"nan.pfm","a picture with an invalid pixel","PFM",0);
	for(int f = 0; f < 1; f++) enc_pfm(&pics[9].b,im[1],20,18,false); put(9,"film.jpg","a PFM called .jpg","PFM",0);
	buf_str(&pics[10].b,"text"); put(10,"readme.txt","a text file",NULL,0);
	{ float wide[6*5]; upscaled(wide,6,5,6,5,2); enc_pfm(&pics[11].b,wide,6,5,true); } put(11,"small.pfm","a small picture","PFM",0);
	{ static float many[8*7]; for(int f = 0; f < 12; f++) { upscaled(many,8,7,5,4,f); enc_pfm(&pics[12].b,many,8,7,f & 1); } put(12,"many.pfm","a film of twelve frames","PFM",0); }
	{ static float big[140*6]; for(int i = 0; i < 140*6; i++) big[i] = fmt_sample(i,0,5,999)/999.f; enc_pfm(&pics[13].b,big,140,6,false); } put(13,"wide.pfm","a wide picture","PFM",0);
	for(int f = 0; f < 3; f++) enc_pfm(&pics[14].b,im[f],20,18,false);
	{ float inf = INFINITY; memcpy(pics[14].b.p+pics[14].b.n/3*2-40,&inf,4); } put(14,"inf.pfm","a film whose second frame has an invalid pixel","PFM",0);
}

/* ---- what should come of it ---- */
struct opt {
	int verbosity; const char* method; const char* x,* r,* f,* n,* o,* t,* R,* v; bool p; int in; bool in_stdin; const char* name; /* name: path given instead of the input's own */
};
static char want[PROC_MAX]; static char wanterr[512]; static int wantstatus; static bool wantany, wantlist, wantmethods; /* wantany: error expected, text free; wantlist: the readers may be listed */
static int analysed, skipped; static size_t wantw;
static void expect_error(const char* text) { wantstatus = 1; want[0] = 0; snprintf(wanterr,sizeof wanterr,"%s",text); wantany = true; }
static bool ext_is(const char* p, const char* e) { const char* d = strrchr(p,'.'); return d && !strcasecmp(d+1,e); }
static void model(const struct opt* o) {
	want[0] = wanterr[0] = 0; wantstatus = 0; wantany = wantlist = wantmethods = false; analysed = skipped = 0;
	bool badv = o->v && strcspn(o->v,"0123456789") == strlen(o->v) || o->v && (*o->v == 'v');
	if(o->R) { bool known = false; for(const char* const* l = resdet_list_image_readers(); *l; l++) known |= !strcasecmp(*l,o->R); if(!known) { wantlist = true; expect_error(""); return; } }
	if(badv) { expect_error(""); return; }
	RDMethod* m = o->method ? NULL : resdet_methods();
	if(o->method) for(RDMethod* k = resdet_methods(); k->name; k++) if(!strcmp(k->name,o->method)) m = k;
	if(!m) { wantmethods = !(o->x || o->r || o->n || o->f || o->o || o->t || o->R); expect_error(wantmethods ? o->method : ""); return; }
	char* e;
	double x = 0; unsigned long long r = 0, n = 0, off = 0, f = 0;
	if(o->x) { x = strtod(o->x,&e); if(*e || e == o->x || !(x >= 0 && x <= 100)) { expect_error(""); return; } }
	if(o->r) { r = strtoull(o->r,&e,10); if(*e || strchr(o->r,'-') || e == o->r || !r) { expect_error(""); return; } }
	if(o->n) { n = strtoull(o->n,&e,10); if(*e || strchr(o->n,'-') || e == o->n || !n) { expect_error(""); return; } }
	if(o->o) { off = strtoull(o->o,&e,10); if(*e || strchr(o->o,'-') || e == o->o) { expect_error(""); return; } }
	const char* path = o->name ? o->name : paths[o->in];
	if(o->f) {
		if(!strcmp(o->f,"auto")) {
			f = ext_is(path,"jpeg") || ext_is(path,"jpg") || ext_is(path,"mp4") || ext_is(path,"mkv") ? 3 : ext_is(path,"webp") || ext_is(path,"webm") ? 2 : ext_is(path,"avif") || ext_is(path,"heic") ? 5 : 0;
			if(o->in_stdin) f = 0;
		}
		else { f = strtoull(o->f,&e,10); if(*e || strchr(o->f,'-') || e == o->f || f > 31) { expect_error(""); return; } }
	}
	if(o->t && o->R) { expect_error(""); return; }
	/* the library's own word on it */
	size_t w, h; float* b; RDError er; RDImage* im = o->R ? resdet_open_image_with_reader(path,o->R,&w,&h,&b,&er) : resdet_open_image(path,o->t,&w,&h,&b,&er);
	if(!im) { expect_error(resdet_error_str(er)); return; }
	RDParameters* p = resdet_alloc_default_parameters();
	if(o->x) resdet_parameters_set_threshold(p,x/100);
	if(o->r) resdet_parameters_set_range(p,r);
	resdet_parameters_set_compression_filter(p,f);
	RDAnalysis* a = resdet_create_analysis(m,w,h,p,&er); RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0;
	if(!a) { expect_error(resdet_error_str(er)); goto end; }
	for(unsigned long long k = 0; k < off; k++) {
		if(!resdet_read_image_frame(im,b,&er)) { expect_error(er ? resdet_error_str(er) : ""); goto end; }
		skipped++;
	}
	while(!n || (unsigned long long)analysed < n) {
		if(!resdet_read_image_frame(im,b,&er)) { if(er) { expect_error(resdet_error_str(er)); goto end; } break; }
		analysed++;
		if((er = resdet_analyze_image(a,b))) { expect_error(resdet_error_str(er)); goto end; }
	}
	if(!analysed) { expect_error(""); goto end; }
	if((er = resdet_analysis_results(a,&rw,&cw,&rh,&ch))) { expect_error(resdet_error_str(er)); goto end; }
	char* d = want;
	switch(o->verbosity) {
		case 0: wantstatus = cw == 1 && ch == 1; break;
		case 1: sprintf(d,"%zu %zu\n",rw[0].index,rh[0].index); break;
		case 2: case 3:
			for(int k = 0; k < 2; k++) { RDResolution* l = k ? rh : rw; size_t c = k ? ch : cw; for(size_t i = 0; i < c; i++) { d += sprintf(d,"%zu",l[i].index); if(o->verbosity == 3) d += sprintf(d,":%f",l[i].confidence); d += sprintf(d," "); } d += sprintf(d,"\n"); }
			break;
		default:
			d += sprintf(d,"given: %zux%zu\nbest guess: %zux%zu%s\n",w,h,rw[0].index,rh[0].index,cw == 1 && ch == 1 ? " (not upsampled)" : "");
			if(cw > 1 || ch > 1) d += sprintf(d,"all width height\n");
			wantw = cw-1;
			for(size_t i = 0; i+1 < cw || i+1 < ch; i++) {
				if(i+1 < cw) d += sprintf(d,"%zu (%5.2f%%) ",rw[i].index,rw[i].confidence*100);
				if(i+1 < ch) d += sprintf(d,"%zu (%5.2f%%)",rh[i].index,rh[i].confidence*100);
				d += sprintf(d,"\n");
			}
	}
	if(cw > 1 || ch > 1) mc_nontriv++;
end:
	resdet_close_image(im); resdet_destroy_analysis(a); free(b); free(p); free(rw); free(rh);
}

/* ---- the command line ---- */
static char* av[64]; static int ac; static char line[2000];
static void arg(const char* s) { if(ac < 60) { av[ac++] = strdup(s); av[ac] = NULL; } }
static void opt(char c, const char* v, bool joined) {
	if(!v) return;
	char t[300];
	if(joined && *v) { snprintf(t,sizeof t,"-%c%s",c,v); arg(t); }
	else { snprintf(t,sizeof t,"-%c",c); arg(t); arg(v); }
}
static void begin(void) { for(int i = 0; i < ac; i++) free(av[i]); ac = 0; arg("resdet"); }
static const char* cmdline(void) { char* d = line; for(int i = 0; i < ac; i++) { const char* s = av[i]; const char* b = !strncmp(s,mc_scratch,strlen(mc_scratch)) ? strrchr(s,'/')+1 : s; d += snprintf(d,line+sizeof line-d,"%s%s",i ? " " : "",*b ? b : "''"); } return line; }

static void verdict(const struct opt* o) {
	const char* w = cmdline(); static char a[PROC_MAX], b[PROC_MAX];
	check_exit(w);
	int st = WEXITSTATUS(status);
	norm(out,a); norm(want,b);
	if(wantany) {
		MC_CHECK(st == 1,"error-status","%s (%s): exit status %d for an error (stderr: %.200s)",w,inname[o->in],st,err);
		if(wantlist) { char x[500] = ""; for(const char* const* l = resdet_list_image_readers(); *l; l++) { strcat(x,*l); strcat(x,"\n"); } x[strlen(x) ? strlen(x)-1 : 0] = 0; if(!strcmp(a,x)) *a = 0; }
		MC_CHECK(!*a,"error-output","%s (%s): prints \"%.200s\" on an error",w,inname[o->in],out);
		if(wantmethods) for(RDMethod* m = resdet_methods(); m->name; m++) MC_CHECK(strstr(err,m->name),"error-message","%s: does not name the method %s: \"%.200s\"",w,m->name,err);
		MC_CHECK(*err && strstr(err,wanterr),"error-message","%s (%s): says \"%.200s\" instead of \"%s\"",w,inname[o->in],err,wanterr);
	}
	else {
		MC_CHECK(st == wantstatus,"status","%s (%s): exit status %d instead of %d (stderr: %.200s)",w,inname[o->in],st,wantstatus,err);
		MC_CHECK(!strcmp(a,b),"output","%s (%s): prints \"%.300s\" instead of \"%.300s\"",w,inname[o->in],a,b);
		if(!o->p) MC_CHECK(!*err,"stderr","%s (%s): prints \"%.200s\" on standard error",w,inname[o->in],err);
		if(o->verbosity < 0) { /* a lone height stands in the second column, a width in the first */
			size_t row = 0; const char* l = strstr(out,"height\n");
			for(l = l ? strchr(l,'\n')+1 : ""; *l; row++) {
				const char* e = strchr(l,'\n'); if(!e) break;
				size_t lead = strspn(l," ");
				if(row < wantw) MC_CHECK(lead < 10,"columns","%s (%s): a width is in the second column: \"%.300s\"",w,inname[o->in],out);
				else { mc_extra[0]++; MC_CHECK(lead >= 10,"columns","%s (%s): a height is in the first column: \"%.300s\"",w,inname[o->in],out); }
				l = e+1;
			}
		}
		if(o->p) {
			int c = 0; unsigned long long last = 0;
			for(const char* s = err; (s = strstr(s,"Analyzing frame ")); ) { s += 16; last = strtoull(s,NULL,10); c++; MC_CHECK(last == (unsigned long long)(skipped+c),"progress","%s (%s): frame %d of the analysis is announced as %llu",w,inname[o->in],skipped+c,last); }
			MC_CHECK(c == analysed,"progress","%s (%s): announces %d frames of %d",w,inname[o->in],c,analysed);
			c = 0;
			for(const char* s = err; (s = strstr(s,"Seeking past frame ")); ) { s += 19; last = strtoull(s,NULL,10); c++; MC_CHECK(last == (unsigned long long)c,"progress","%s (%s): skipped frame %d is announced as %llu",w,inname[o->in],c,last); }
			MC_CHECK(c == skipped,"progress","%s (%s): announces %d skipped frames of %d",w,inname[o->in],c,skipped);
		}
	}
	mc_outcome(mc_hash(a,strlen(a),mc_hashi(st,mc_hash(w,strlen(w),0))));
	if(mc_want_sample()) mc_sample("%s (%s): status %d, %.300s",w,inname[o->in],st,*a ? a : err);
	mc_trace("%s (%s)\nstatus %d\n%s%s",w,inname[o->in],st,out,err);
}
static const char* const vnames[] = {NULL,"-1","0","1","2","3"};
static void judge(struct opt* o, const char* v, int style) {
	o->v = v; o->verbosity = v ? atoi(v) : -1;
	begin();
	bool j = style & 1; const char* path = o->in_stdin ? "-" : o->name ? o->name : paths[o->in];
	if(style & 2) arg(path);
	opt('v',v,j); opt('m',o->method,j); opt('x',o->x,j); opt('r',o->r,j); opt('f',o->f,j); opt('n',o->n,j); opt('o',o->o,j); opt('t',o->t,j); opt('R',o->R,j);
	if(o->p) arg("-p");
	if(style & 4) arg("--");
	if(!(style & 2)) arg(path);
	if(o->in_stdin) { const char* f = paths[o->in]; o->name = f; }
	model(o);
	run(av,o->in_stdin ? paths[o->in] : NULL);
	verdict(o);
}

/* combinations of valid options */
static void case_product(void) {
	struct opt o = {0};
	static const char* const ms[] = {NULL,"mag","orig","zerox","sign"}; static const char* const xs[] = {NULL,"0","30.5"}; static const char* const rs[] = {NULL,"1","3"}; static const char* const fs[] = {NULL,"2"};
	static const char* const ns[] = {NULL,"1","2"}; static const char* const os[] = {NULL,"0","1","3"}; static const int ins[] = {0,1,2};
	const char* v = MC_PICK(vnames);
	o.method = ms[mc_choose(MC_Q(4,5))]; o.x = MC_PICK(xs); o.r = MC_PICK(rs); mc_mine(); o.f = MC_PICK(fs); o.n = MC_PICK(ns); o.o = os[mc_choose(MC_Q(3,4))]; o.in = MC_PICK(ins);
	/* the file is the same for every verbosity: let each combination have a few */
	if(!mc_tier && !v && (o.f || o.n)) mc_skip();
	judge(&o,v,(o.x != NULL)+2*(o.n != NULL && o.f != NULL));
}
/* every value of one or two options, right or wrong */
#define HUGES "4294967296","4294967297","18446744073709551615"
static const char* const val_m[] = {"sign","mag","orig","zerox","nope","","SIGN"}, * const val_x[] = {"0","100","55","0.001","-1","100.1","abc","","nan","-0.5"}, * const val_r[] = {"1","9","10","12","100","0","abc","","65537","65536","-1","-12",HUGES},
	* const val_f[] = {"0","1","5","31","auto","32","255","256","300","x","","-1","-254","-18446744073709551615","-18446744073709551611"}, * const val_n[] = {"1","3","4","9","10","1000000","0","x","","65537","-1",HUGES}, * const val_o[] = {"0","2","3","4","9","10","12","99","x","","65536","-1","-3",HUGES},
	* const val_t[] = {"pgm","pfm","y4m","PFM","video/yuv4mpeg","image/x-portable-graymap","xyz"}, * const val_R[] = {"PGM","pfm","Y4M","nothing"}, * const val_v[] = {"-1","0","1","2","3","x","","-","v2"}, * const val_p[] = {"p"};
static const struct { char c; const char* const* v; int n; } opts[] = {{'m',val_m,7},{'x',val_x,10},{'r',val_r,sizeof val_r/sizeof *val_r},{'f',val_f,sizeof val_f/sizeof *val_f},{'n',val_n,sizeof val_n/sizeof *val_n},{'o',val_o,sizeof val_o/sizeof *val_o},{'t',val_t,7},{'R',val_R,4},{'v',val_v,9},{'p',val_p,1}};
static void set(struct opt* o, const char** v, int k, const char* val) {
	switch(opts[k].c) { case 'm': o->method = val; break; case 'x': o->x = val; break; case 'r': o->r = val; break; case 'f': o->f = val; break; case 'n': o->n = val; break; case 'o': o->o = val; break; case 't': o->t = val; break; case 'R': o->R = val; break; case 'v': *v = val; break; default: o->p = true; }
}
static void case_pairs(void) {
	struct opt o = {0}; const char* v = NULL;
	int a = mc_choose(10), b = mc_choose(a+1); o.in = mc_choose(NIN); int va = mc_choose(opts[a].n); mc_mine();
	if(o.in == 13) mc_skip();
	if(o.in == 12 && !strchr("rnopv",opts[a].c)) mc_skip();
	int vb = a == b ? 0 : mc_choose(opts[b].n);
	if(!mc_tier && a != b && o.in > 3 && o.in != 5 && o.in != 9 && o.in < 12) mc_skip();
	if(a != b) set(&o,&v,b,opts[b].v[vb]);
	set(&o,&v,a,opts[a].v[va]);
	judge(&o,v,(va ^ vb) & 7 & ~(o.in & 1 ? 4 : 0));
}
/* every input without options and with each verbosity, from a file and from standard input, every style of command line */
static void case_inputs(void) {
	struct opt o = {0}; const char* v = MC_PICK(vnames); o.in = mc_choose(NIN); int src = mc_choose(3), style = mc_choose(8); o.p = mc_choose(2); mc_mine();
	if(src && o.in == 6) mc_skip();
	static const char* const ty[NIN] = {"pfm","pgm","y4m","y4m","pgm","y4m","pgm","pgm","pfm","pfm","txt","pfm","pfm","pfm","pfm"};
	o.in_stdin = src == 2;
	if(src) o.t = ty[o.in];
	if(src == 2 && (style & 2)) mc_skip();
	judge(&o,v,style);
}
/* automatic filter by the name of the file */
static void case_auto(void) {
	static const char* const ex[] = {"jpg","jpeg","JPG","Jpeg","mp4","mkv","MKV","webp","webm","WebM","avif","heic","HEIC","png","pgm","jpgx","jp","mp","web","av","gif",""};
	struct opt o = {0}; const char* e = MC_PICK(ex); int f = mc_choose(3); o.method = mc_choose(2) ? "zerox" : NULL; o.r = mc_choose(2) ? "1" : NULL; o.in = (int[]){0,2,13}[mc_choose(3)]; const char* v = mc_choose(2) ? "3" : "2"; mc_mine();
	o.f = f == 0 ? "auto" : f == 1 ? "3" : NULL; o.x = "0"; o.R = defreader[o.in];
	char p[1300]; snprintf(p,sizeof p,"%s/name%s%s",mc_scratch,*e ? "." : "",e); write_file(p,pics[o.in].b.p,pics[o.in].b.n);
	o.name = p;
	judge(&o,v,0);
	unlink(p);
}
/* options given twice: the last one counts; -f auto then a number and the other way round */
static void case_twice(void) {
	static const char* const vv[] = {"1","2","3","-1"};
	struct opt o = {0}; const char* v = MC_PICK(vv); int k = mc_choose(6), x = mc_choose(2), first = mc_choose(2); mc_mine();
	static const char* const c = "mxrfno"; static const char* const vals[6][2] = {{"mag","zerox"},{"0","90"},{"1","4"},{"auto","1"},{"1","2"},{"1","2"}};
	o.in = 0; const char* v2 = NULL; int kk[] = {0,1,2,3,4,5};
	set(&o,&v2,kk[k],vals[k][x]);
	o.verbosity = atoi(v);
	begin(); opt(c[k],vals[k][!x],first); opt('v',v,0); opt(c[k],vals[k][x],!first); arg(paths[o.in]);
	model(&o); run(av,NULL); verdict(&o);
}
/* help, version, list of readers, and command lines without sense */
static void case_info(void) {
	static const char* const forms[][4] = {{"-h"},{"-V"},{"-R","list"},{NULL},{"-Z","x"},{"-m"},{"-v1"},{"--nothing"},{"-Rlist"},{"-v0","-h"},{"-x","50","-V"},{"-R"},{"-pq","x"},{"-r","3","-R","list"},{"-z"},{"-o"},{"-n","1"}};
	static const char kind[] = {'h','V','l','u','u','u','u','u','l','h','V','u','u','l','u','u','u'};
	int k = mc_choose(17), withfile = mc_choose(2); mc_mine();
	begin(); for(int i = 0; i < 4 && forms[k][i]; i++) arg(forms[k][i]);
	if(withfile) { if(kind[k] == 'u' && !(k == 4 || k == 7 || k == 12 || k == 14)) mc_skip(); arg("x.pgm"); }
	run(av,NULL); const char* w = cmdline(); check_exit(w); int st = WEXITSTATUS(status);
	const char* us = strstr(kind[k] == 'u' ? err : out,"sage");
	if(kind[k] == 'u') MC_CHECK(st == 1 && !*out && us && strstr(us,"resdet"),"usage","%s: status %d, prints \"%.100s\" and \"%.200s\"",w,st,out,err);
	else {
		MC_CHECK(!st && *out && !*err,"info","%s: status %d, \"%.100s\"",w,st,err);
		if(kind[k] == 'h') {
			static const char all[] = "hVmvtRrxfpon";
			MC_CHECK(us && strstr(us,"resdet") == strpbrk(us,"r"),"info","%s: no usage",w);
			const char* tail = strstr(out,"vailable detection methods"); int rows = -1, nm = 0; for(; tail && *tail; tail++) rows += *tail == '\n';
			for(RDMethod* m = resdet_methods(); m->name; m++) nm++;
			MC_CHECK(rows == nm,"info","%s: %d methods in the list instead of %d",w,rows,nm);
			for(const char* c = all; *c; c++) { char t[8]; snprintf(t,sizeof t,"-%c ",*c); MC_CHECK(strstr(out,t),"info","%s: does not mention -%c",w,*c); }
			char t[64];
			for(RDMethod* m = resdet_methods(); m->name; m++) { const char* s = strstr(out,"vailable detection methods"); snprintf(t,sizeof t,"%.0f%%",m->threshold*100); s = s ? strstr(s,m->name) : NULL; const char* e = s ? strchr(s,'\n') : NULL; const char* q = s ? strstr(s,t) : NULL; MC_CHECK(q && q < e,"info","%s: no default threshold %s for method %s",w,t,m->name); }
			snprintf(t,sizeof t,"(%zu)",resdet_default_range()); MC_CHECK(strstr(out,t),"info","%s: does not give the default range",w);
		}
		if(kind[k] == 'V') {
			char x[500] = ""; for(const char* const* l = resdet_list_image_readers(); *l; l++) { if(*x) strcat(x,", "); strcat(x,*l); } strcat(x,"\n");
			const char* t = strstr(out,*resdet_list_image_readers()); MC_CHECK(t && !strcmp(t,x),"info","%s: lists the readers as \"%.100s\"",w,t ? t : out);
			MC_CHECK(strstr(out,resdet_libversion()),"info","%s: no library version",w); for(const char* const* l = resdet_list_image_readers(); *l; l++) MC_CHECK(strstr(out,*l),"info","%s: does not mention %s",w,*l); }
		if(kind[k] == 'l') { char x[500] = "", a[65536]; for(const char* const* l = resdet_list_image_readers(); *l; l++) { strcat(x,*l); strcat(x,"\n"); } x[strlen(x) ? strlen(x)-1 : 0] = 0; norm(out,a); MC_CHECK(!strcmp(a,x),"info","%s: prints \"%.100s\" instead of the readers \"%s\"",w,a,x); }
	}
	mc_outcome(mc_hash(w,strlen(w),st)); mc_trace("%s: status %d\n%s%s",w,st,out,err);
}
/* more results than fit in 16 bits */
static void case_large(void) {
	struct opt o = {0}; bool tall = mc_choose(2); const char* v = MC_PICK(vnames); mc_mine();
	static struct pic p; size_t n = 66003;
	if(!p.b.n) { buf_fmt(&p.b,"P5\n%zu 4\n255\n",n); for(size_t i = 0; i < n*4; i++) buf_byte(&p.b,fmt_sample(i,0,3,255)); }
	char f[1300]; snprintf(f,sizeof f,"%s/large.pgm",mc_scratch); char head[64]; int k = snprintf(head,sizeof head,"P5\n%zu %zu\n255\n",tall ? 4 : n,tall ? n : 4);
	struct buf b = {0}; buf_raw(&b,head,k); buf_raw(&b,p.b.p+p.b.n-n*4,n*4); write_file(f,b.p,b.n); free(b.p);
	o.name = f; o.x = "0"; o.r = "1"; o.in = 1; judge(&o,v,0);
	unlink(f);
}
static void mc_case(void) {
	prepare();
	switch(mc_choose(7)) {
		case 6: case_large(); break;
		case 0: case_info(); break;
		case 1: case_inputs(); break;
		case 2: case_pairs(); break;
		case 3: case_auto(); break;
		case 4: case_twice(); break;
		default: case_product(); break;
	}
}
