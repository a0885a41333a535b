/*
 * C30: the library and the program it is in.
 * Every operation is carried out in a neutral process state and in others (locale, standard files, errno, rounding, stack,
 * working directory, environment, memory contents, earlier failures, other handles...), entered before the operation or
 * between its first call and the rest; it must give the same, and leave the state as it found it.
 */
#include "mc.h"
#include "resdet.h"
#ifdef R_LIBPNG
#include "codec.h"
#else
#include "fmt.h"
#endif
#include <malloc.h>
#include <locale.h>
#include <fenv.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <xmmintrin.h>

/* ---- what an operation gives ---- */
struct rec { const char* label; double v; };
#define CAPREC (1 << 15)
static struct shared { struct rec rec[CAPREC]; size_t nrec; char change[400]; long printed; int drawn; } * sh; /* shared with children */
static void R(const char* label, double v) {
	if(sh->nrec == CAPREC) _exit(70);
	sh->rec[sh->nrec++] = (struct rec){label,v};
}
static double strval(const char* s) { return s ? (double)(mc_hash(s,strlen(s),0) >> 12) : -1; }

/* ---- the state of the host ---- */
enum { C_LOCALE, C_FILES, C_MEMORY, C_ERRNO, C_FLOAT, C_THREAD, C_CWD, C_ENV, C_UMASK, C_SIGNALS, C_HISTORY, C_OTHERS, C_FILE, C_ALIGN, NCOMP };
static const int ncomp[] = {7,3,3,5,5,2,2,3,2,2,8,3,2,4};
static const char* const comp_name[] = {"locale","standard files","memory","errno","floating point","thread","working directory","environment","umask","signals","history","other handles","the file","alignment"};
static const char* const locales[] = {"C","C.UTF-8","de_DE.UTF-8","tr_TR.UTF-8","tr_TR.ISO-8859-9","de_DE.UTF-8 in the thread","tr_TR.UTF-8 in the thread"};
static const int odd_errno[] = {0,EINTR,ERANGE,ENOMEM,12345};
static int st[NCOMP];
static char locdir[1100], reldir[1100];
static char abspath_[4][1200];
extern char** environ;
static char* const env_none[] = {NULL};
static char* const env_odd[] = {"LC_ALL=tr_TR.UTF-8","LANG=de_DE.UTF-8","POSIXLY_CORRECT=1","HOME=/nonexistent","TMPDIR=/nonexistent","PATH=","OMP_NUM_THREADS=1","TZ=Asia/Kathmandu",NULL};
static char** env_saved; static int saved_fd[3]; static mode_t umask_saved; static fenv_t fenv_saved; static sigset_t sig_saved; static locale_t thread_loc; static int cwd_fd = -1;
static char loc_saved[256];
static void apply(void) {
	snprintf(loc_saved,sizeof loc_saved,"%s",setlocale(LC_ALL,NULL));
	if(st[C_LOCALE] >= 5) { char n[50]; snprintf(n,sizeof n,"%.*s",(int)strcspn(locales[st[C_LOCALE]]," "),locales[st[C_LOCALE]]); static locale_t made[7]; thread_loc = made[st[C_LOCALE]] ? made[st[C_LOCALE]] : (made[st[C_LOCALE]] = newlocale(LC_ALL_MASK,n,(locale_t)0)); if(!thread_loc) { perror(n); _exit(70); } uselocale(thread_loc); }
	else if(st[C_LOCALE] && !setlocale(LC_ALL,locales[st[C_LOCALE]])) { perror(locales[st[C_LOCALE]]); _exit(70); }
	for(int i = 0; i < (st[C_FILES] == 2 ? 3 : st[C_FILES]); i++) { saved_fd[i] = fcntl(i,F_DUPFD,300); close(i); }
	static const int fill[] = {0,0x55,0xff}; mallopt(M_PERTURB,fill[st[C_MEMORY]]);
	static const int rounding[] = {FE_TONEAREST,FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO};
	fegetenv(&fenv_saved);
	if(st[C_FLOAT] < 4) fesetround(rounding[st[C_FLOAT]]); else _mm_setcsr(_mm_getcsr()|0x8040); /* subnormals are zero */
	if(st[C_CWD]) { cwd_fd = open(".",O_RDONLY|O_DIRECTORY); if(cwd_fd < 0 || chdir(reldir)) { perror(reldir); _exit(70); } cwd_fd = cwd_fd < 200 ? ({ int k = fcntl(cwd_fd,F_DUPFD,310); close(cwd_fd); k; }) : cwd_fd; }
	env_saved = environ; if(st[C_ENV]) environ = (char**)(st[C_ENV] == 1 ? env_none : env_odd);
	if(st[C_UMASK]) umask_saved = umask(0777);
	if(st[C_SIGNALS]) { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_SETMASK,&s,&sig_saved); }
}
static void undo(void) {
	if(st[C_LOCALE] >= 5) { uselocale(LC_GLOBAL_LOCALE); }
	else if(st[C_LOCALE]) setlocale(LC_ALL,loc_saved);
	for(int i = 0; i < (st[C_FILES] == 2 ? 3 : st[C_FILES]); i++) { dup2(saved_fd[i],i); close(saved_fd[i]); }
	mallopt(M_PERTURB,0);
	fesetenv(&fenv_saved);
	if(st[C_CWD]) { if(fchdir(cwd_fd)) _exit(70); close(cwd_fd); cwd_fd = -1; }
	environ = env_saved;
	if(st[C_UMASK]) umask(umask_saved);
	if(st[C_SIGNALS]) pthread_sigmask(SIG_SETMASK,&sig_saved,NULL);
}

/* ---- what the library must leave alone ---- */
struct snap { char loc[300]; locale_t tl; int round; unsigned csr; mode_t um; ino_t cwd; char** env; uint64_t envhash; sigset_t mask; uint64_t sig; int fd[128]; long pos[128]; int threads, files; int rnd; struct rlimit lim[RLIM_NLIMITS]; int child; };
static int entries(const char* d) { DIR* p = opendir(d); int n = 0; while(p && readdir(p)) n++; if(p) closedir(p); return n; }
static void snapshot(struct snap* s, bool stdin_too) {
	memset(s,0,sizeof *s);
	snprintf(s->loc,sizeof s->loc,"%s",setlocale(LC_ALL,NULL)); s->tl = uselocale((locale_t)0);
	s->round = fegetround(); s->csr = _mm_getcsr() & ~0x3fu;
	s->um = umask(0); umask(s->um);
	struct stat b; stat(".",&b); s->cwd = b.st_ino;
	s->env = environ; for(char** e = environ; *e; e++) s->envhash = mc_hash(*e,strlen(*e)+1,s->envhash);
	pthread_sigmask(SIG_SETMASK,NULL,&s->mask);
	for(int i = 1; i <= 64; i++) { struct sigaction a; memset(&a,0,sizeof a); if(!sigaction(i,NULL,&a)) { s->sig = mc_hashi((uintptr_t)a.sa_handler,s->sig); s->sig = mc_hashi(a.sa_flags,s->sig); } }
	for(int i = 0; i < 128; i++) { s->fd[i] = fcntl(i,F_GETFD); if(s->fd[i] >= 0) s->fd[i] = s->fd[i]*100000+fcntl(i,F_GETFL); if(s->fd[i] >= 0 && (i || stdin_too) && i != 1 && i != 2 && i != fileno(mc_outf)) s->pos[i] = lseek(i,0,SEEK_CUR); }
	s->threads = entries("/proc/self/task"); s->files = entries(mc_scratch);
	for(int i = 0; i < RLIM_NLIMITS; i++) getrlimit(i,&s->lim[i]);
	errno = 0; s->child = waitpid(-1,NULL,WNOHANG) < 0 && errno == ECHILD;
}
static const char* changed(const struct snap* a, const struct snap* b, bool fds) {
	static char m[300];
	if(strcmp(a->loc,b->loc)) { snprintf(m,sizeof m,"the locale, from %.100s to %.100s",a->loc,b->loc); return m; }
	if(a->tl != b->tl) return "the locale of the thread";
	if(a->round != b->round || a->csr != b->csr) return "the rounding of floating point";
	if(a->um != b->um) return "the umask";
	if(a->cwd != b->cwd) return "the working directory";
	if(a->env != b->env || a->envhash != b->envhash) return "the environment";
	if(memcmp(&a->mask,&b->mask,8)) return "the signal mask";
	if(a->sig != b->sig) return "the handling of signals";
	for(int i = 0; i < 128 && fds; i++) if(a->fd[i] != b->fd[i] || a->pos[i] != b->pos[i]) { snprintf(m,sizeof m,"descriptor %d (%s)",i,a->fd[i] < 0 ? "left open" : b->fd[i] < 0 ? "closed" : "flags or position"); return m; }
	if(a->threads != b->threads) return "the number of threads";
	if(a->files != b->files) return "the files in the directory";
	if(memcmp(a->lim,b->lim,sizeof a->lim)) return "the resource limits";
	if(a->child != b->child) return "the child processes";
	return NULL;
}

/* ---- pictures ---- */
struct file { char name[40]; const char* what,* ext,* type,* mime,* reader; struct pic p; int bad, big; };
static struct file files[80]; static int nfiles, ngood;
static void upcase(char* o, const char* s) { for(; *s; s++) *o++ = *s >= 'a' && *s <= 'z' ? *s-32 : *s; *o = 0; }
static void add(const char* what, const char* ext, const char* mime, const char* reader) {
	struct file* f = &files[nfiles]; f->what = what; f->ext = ext; f->mime = mime; f->reader = reader;
	snprintf(f->name,sizeof f->name,"p%d.%s",nfiles,ext);
	char p[1200]; snprintf(p,sizeof p,"%s/%s",reldir,f->name); write_file(p,f->p.b.p,f->p.b.n);
	snprintf(p,sizeof p,"%s/q%d.dat",reldir,nfiles); write_file(p,f->p.b.p,f->p.b.n);
	nfiles++;
}
static const char* const mimes[] = {"image/x-portable-graymap","image/x-portable-floatmap","video/yuv4mpeg"};
static bool reader_there(const char* r) { for(const char* const* l = resdet_list_image_readers(); *l; l++) if(!strcmp(*l,r)) return true; return false; }
static void make_files(void) {
	for(int f = 0; f < NFMT; f++) { mk_any(&files[nfiles].p,f,3,30,29); struct pic* p = &files[nfiles].p; add(fmt_name[f],p->ext,mimes[f ? f < 5 ? 1 : 2 : 0],p->reader); }
	static const char* const scales[] = {"1","0.5","255.000000","1e-3","2.25E+1",".125"};
	for(int i = 0; i < 6; i++) { mk_pfm(&files[nfiles].p,30,29,3,i & 1 ? 7 : 0,i & 2 ? 5 : 0,7,"\n",scales[i],true); static char n[6][40]; snprintf(n[i],40,"PFM of scale %s",scales[i]); add(n[i],"pfm",mimes[1],"PFM"); }
	mk_pgm(&files[nfiles].p,30,29,255,5,"\n# a comment, with 1,5 in it\n"," ","\n","\n",-1); add("PGM with a comment","pgm",mimes[0],"PGM");
	mk_y4m(&files[nfiles].p,30,29,3,2,"W%W H%H F25:1 Ip A1:1 %C XA=1.5"," Ip",3); add("Y4M with parameters","y4m",mimes[2],"Y4M");
#ifdef R_LIBPNG
	mk_png(&files[nfiles].p,30,29,0,0,3); add("PNG gray","png","image/png","libpng");
	mk_png(&files[nfiles].p,30,29,5,1,3); add("PNG RGB, interlaced","png","image/png","libpng");
	mk_png(&files[nfiles].p,30,29,14,0,3); add("PNG RGB+alpha 16 bit","png","image/png","libpng");
	mk_jpeg(&files[nfiles].p,30,29,0,3); add("JPEG gray","jpg","image/jpeg","libjpeg");
	mk_jpeg(&files[nfiles].p,30,29,11,3); add("JPEG colour, progressive","jpeg","image/jpeg","libjpeg");
#endif
#ifdef R_FFMPEG
	mk_y4m(&files[nfiles].p,30,29,3,9,"W%W H%H %C","",3); add("Y4M by FFmpeg","y4m",NULL,"FFmpeg");
	mk_png(&files[nfiles].p,30,29,0,0,3); add("PNG by FFmpeg","png",NULL,"FFmpeg");
	mk_png(&files[nfiles].p,30,29,0,0,3); add("PNG by MagickWand","png",NULL,"MagickWand");
	mk_pgm(&files[nfiles].p,30,29,255,3,"\n"," ","\n","\n",-1); add("PGM by MagickWand","pgm",NULL,"MagickWand");
#endif
	int l = nfiles; mk_pgm(&files[l].p,50000,3,255,3,"\n"," ","\n","\n",-1); add("large PGM","pgm",mimes[0],"PGM");
	mk_any(&files[nfiles].p,4,2,3,30000); add("large PFM","pfm",mimes[1],"PFM");
	mk_any(&files[nfiles].p,7,2,40001,3); add("large Y4M","y4m",mimes[2],"Y4M");
#ifdef R_LIBPNG
	mk_png(&files[nfiles].p,50000,3,6,0,3); add("large PNG","png","image/png","libpng");
	mk_jpeg(&files[nfiles].p,50000,3,1,3); add("large JPEG","jpg","image/jpeg","libjpeg");
#endif
	while(l < nfiles) files[l++].big = 1;
	/* larger and larger, for small stacks */
	static const int ladder[][2] = {{360,370},{430,430},{520,512},{300,1750},{2100,500}};
	for(int i = 0; i < 5; i++) {
		int w = ladder[i][0], h = ladder[i][1];
		mk_pgm(&files[nfiles].p,w,h,255,3,"\n"," ","\n","\n",-1); add("PGM of some size","pgm",mimes[0],"PGM");
		mk_any(&files[nfiles].p,i & 1 ? 2 : 1,1,w,h); add("PFM of some size","pfm",mimes[1],"PFM");
		mk_any(&files[nfiles].p,i & 1 ? 7 : 6,1,w,h); add("Y4M of some size","y4m",mimes[2],"Y4M");
#ifdef R_LIBPNG
		mk_png(&files[nfiles].p,w,h,i & 1 ? 5 : 0,0,3); add("PNG of some size","png","image/png","libpng");
		mk_jpeg(&files[nfiles].p,w,h,i & 1,3); add("JPEG of some size","jpg","image/jpeg","libjpeg");
#endif
#ifdef R_FFMPEG
		mk_png(&files[nfiles].p,w,h,0,0,3); add("PNG of some size by FFmpeg","png",NULL,"FFmpeg");
		mk_png(&files[nfiles].p,w,h,0,0,3); add("PNG of some size by MagickWand","png",NULL,"MagickWand");
#endif
	}
	while(l < nfiles) files[l++].big = 2;
	ngood = nfiles;
	int t = nfiles; mk_any(&files[t].p,1,3,30,29); files[t].p.b.n -= 700; add("PFM cut in its third frame","pfm",mimes[1],"PFM"); files[t].bad = 1;
	t = nfiles; mk_any(&files[t].p,6,3,30,29); files[t].p.b.n -= 1000; add("Y4M cut in its third frame","y4m",mimes[2],"Y4M"); files[t].bad = 1;
	t = nfiles; mk_any(&files[t].p,0,1,30,29); files[t].p.b.n -= 10; add("PGM cut short","pgm",mimes[0],"PGM"); files[t].bad = 1;
	t = nfiles; buf_str(&files[t].p.b,"PF\n30 29\n-1,0\n"); buf_raw(&files[t].p.b,files[2].p.b.p,files[2].p.b.n); add("PFM with a comma in its scale","pfm",mimes[1],"PFM"); files[t].bad = 1;
	t = nfiles; buf_str(&files[t].p.b,"not an image"); add("text","pgm",mimes[0],"PGM"); files[t].bad = 1;
	t = nfiles; buf_str(&files[t].p.b,"YUV4MPEG2 W99999999999 H99999999999 Cmono\nFRAME\n"); add("Y4M too big","y4m",mimes[2],"Y4M"); files[t].bad = 1;
	t = nfiles; { struct pic* p = &files[t].p; mk_pfm(p,30,29,3,0,0,3,"\n","1.0",true); float nan = NAN; memcpy(p->b.p+p->b.n-40,&nan,4); } add("PFM with an invalid pixel","pfm",mimes[1],"PFM"); files[t].bad = 1;
#ifdef R_FFMPEG
	for(int i = 0; i < 2; i++) {
		static const char* const by[][2] = {{"text by FFmpeg","PNG cut by FFmpeg"},{"text by MagickWand","PNG cut by MagickWand"}}; const char* r = i ? "MagickWand" : "FFmpeg";
		t = nfiles; buf_str(&files[t].p.b,"not an image"); add(by[i][0],"iii",NULL,r); files[t].bad = 1;
		t = nfiles; mk_png(&files[t].p,30,29,0,0,3); files[t].p.b.n -= 200; add(by[i][1],"png",NULL,r); files[t].bad = 1;
	}
#endif
}

/* ---- memory that ends at a guard page ---- */
#define GUARD_PAGES 1100
static unsigned char* guard_mem; static size_t guard_len; static long page;
static float* guarded(size_t n) { /* n floats, ending at (or up to 3 floats, filled, before) the guard */
	return (float*)(guard_mem+guard_len)-n-st[C_ALIGN];
}

/* ---- operations ---- */
enum { A_EXT, A_TYPE, A_UPPER, A_MIME, A_READER, A_STDIN, A_PIPE, A_SEEK, A_IMAGE, A_DETECT, NACC };
static const char* const acc_name[] = {"opened by its name","opened by its type","opened by its type in capitals","opened by its MIME type","opened by its reader in capitals","from standard input","from a pipe","after a seek","with resdet_read_image","with resdetect_file"};
static int op_file, op_acc, op_kind, op_method, op_entry; /* op_kind 0: a file, 1: an analysis, 2: the rest */
static bool late; /* the state is entered after the first call */
static struct snap before, after, first, last;
static void note_change(const char* c) { if(c && !sh->change[0]) snprintf(sh->change,sizeof sh->change,"%s",c); }
static bool in_state;
#define STDIN_USED (op_kind == 0 && (op_acc == A_STDIN || op_acc == A_PIPE))
static void enter(void) { if(!in_state) { apply(); in_state = true; snapshot(&before,!STDIN_USED); } }
static void leave(void) { if(in_state) { snapshot(&after,!STDIN_USED); undo(); in_state = false; note_change(changed(&before,&after,!late)); snapshot(&last,!STDIN_USED); note_change(changed(&first,&last,true)); } }
#define L(e) ({ mc_trans++; if(in_state && st[C_ERRNO]) errno = odd_errno[st[C_ERRNO]]; __auto_type r_ = (e); r_; })
#define LV(e) do { mc_trans++; if(in_state && st[C_ERRNO]) errno = odd_errno[st[C_ERRNO]]; e; } while(0)

static uint64_t prog;
static void on_progress(void* c, uint64_t k) { prog = prog*31+k; if(c != &prog) prog = 0; }
static void pixels(const float* b, size_t n) { if(n > 10000) R("pixels",(double)(mc_hash(b,n*4,0) >> 12)); else for(size_t i = 0; i < n; i++) R("pixel",b[i]); }
static void results(const char* l, RDResolution* r, size_t n) { R(l,n); for(size_t i = 0; i < n; i++) { R("index",r[i].index); R("confidence",r[i].confidence); } free(r); }
static RDParameters* params(void) { RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_range(p,5); resdet_parameters_set_threshold(p,0); return p; }
static void file_op(void) {
	struct file* f = &files[op_file]; char name[1300],up[64]; const char* type = NULL; RDError e = 77; size_t w = 7, h = 7; float* b = NULL; RDImage* im = NULL;
	bool rel = st[C_CWD] && !late;
	snprintf(name,sizeof name,op_acc >= A_TYPE && op_acc <= A_MIME ? "%s%sq%d.dat" : "%s%sp%d.%s",rel ? "" : reldir,rel ? "" : "/",op_file,f->ext);
	if(op_acc == A_TYPE || op_acc == A_PIPE) type = f->ext;
	if(op_acc == A_UPPER) upcase(up,f->ext), type = up;
	if(op_acc == A_MIME) type = f->mime;
	if(!late) enter();
	if(op_acc == A_DETECT) {
		RDResolution* rw = (void*)1,* rh = (void*)1; size_t cw = 9, ch = 9; w = h = 9; RDParameters* p = params();
		e = L(resdetect_file(name,NULL,&rw,&cw,&rh,&ch,NULL,p)); R("error",e);
		if(!e) { results("widths",rw,cw); results("heights",rh,ch); } free(p);
	}
	else if(op_acc == A_IMAGE) {
		size_t n = 9; e = L(resdet_read_image(name,NULL,&b,&n,&w,&h)); R("error",e);
		if(!e) { R("frames",n); R("width",w); R("height",h); pixels(b,w*h*n); } free(b);
	}
	else {
		if(op_acc == A_STDIN || op_acc == A_PIPE) { snprintf(name,sizeof name,"-"); type = f->ext; }
		if(op_acc == A_READER || !f->mime) { upcase(up,f->reader); im = L(resdet_open_image_with_reader(name,up,&w,&h,&b,&e)); }
		else im = L(resdet_open_image(name,type,&w,&h,&b,&e));
		R("handle",!!im); R("error",e); R("width",w); R("height",h);
		char gone[1400]; snprintf(gone,sizeof gone,"%s.gone",name);
		bool away = st[C_FILE] && strcmp(name,"-"); if(away && rename(name,gone)) away = false;
		if(late) enter();
		if(im) {
			if(op_acc == A_SEEK) { prog = 1; e = 77; bool r = L(resdet_seek_frame(im,1,on_progress,&prog,&e)); R("seek",r); R("error",e); R("progress",prog % 1000003); }
			for(int i = 0; i < 5; i++) {
				e = 77; float* d = guarded(w*h); for(size_t k = 0; k < w*h; k++) d[k] = 0;
				bool r = L(resdet_read_image_frame(im,d,&e)); R("read",r); R("error",e); if(!r) break;
				pixels(d,w*h);
			}
			LV(resdet_close_image(im));
		}
		if(away && rename(gone,name)) { perror(name); _exit(70); }
		free(b);
	}
	leave();
}
static float pic_px[2][41*35], large_px[400*450];
static void make_analysed(void) {
	for(int y = 0; y < 450; y++) for(int x = 0; x < 400; x++) large_px[y*400+x] = fmt_sample((y*26/35)*400+x*30/41,0,9,4000)/4000.f;
	for(int f = 0; f < 2; f++) for(int y = 0; y < 35; y++) for(int x = 0; x < 41; x++) pic_px[f][y*41+x] = fmt_sample((y*26/35)*41+x*30/41,f,9,4000)/4000.f+fmt_sample(y*41+x,f,5,100)/10000.f;
}
static const char* const methods[] = {"sign","mag","orig","zerox"};
static void analysis_op(void) {
	RDParameters* p = params(); size_t n = 41*35*(op_entry ? 1 : 2); RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0; RDError e = 77;
	if(!late) enter();
	RDMethod* m = L(resdet_get_method(methods[op_method]));
	if(!op_entry) {
		if(late) enter();
		float* d = guarded(n); memcpy(d,pic_px,n*4); mprotect(guard_mem,guard_len,PROT_READ);
		e = L(resdetect(d,2,41,35,&rw,&cw,&rh,&ch,m,p)); mprotect(guard_mem,guard_len,PROT_READ|PROT_WRITE);
		R("error",e); if(!e) { results("widths",rw,cw); results("heights",rh,ch); }
	}
	else {
		RDAnalysis* a = L(resdet_create_analysis(m,41,35,p,&e)); R("handle",!!a); R("error",e); free(p); p = NULL;
		if(late) enter();
		for(int f = 0; f < 3; f++) {
			float* d = guarded(n); memcpy(d,pic_px[f & 1],n*4); if(f == 1) d[77] = op_entry == 2 ? NAN : d[77]; mprotect(guard_mem,guard_len,PROT_READ);
			e = L(resdet_analyze_image(a,d)); mprotect(guard_mem,guard_len,PROT_READ|PROT_WRITE); R("error",e);
		}
		e = L(resdet_analysis_results(a,&rw,&cw,&rh,&ch)); R("error",e); if(!e) { results("widths",rw,cw); results("heights",rh,ch); }
		LV(resdet_destroy_analysis(a));
	}
	leave(); free(p);
}
static void large_op(void) {
	RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0; static const int sizes[][2] = {{400,450},{397,450},{18000,10},{10,18000},{17280,10}};
	int w = sizes[op_file][0], h = sizes[op_file][1]; enter();
	float* d = guarded((size_t)w*h); memcpy(d,large_px,(size_t)w*h*4); mprotect(guard_mem,guard_len,PROT_READ);
	RDError e = L(resdetect(d,1,w,h,&rw,&cw,&rh,&ch,L(resdet_get_method(methods[op_method])),NULL)); mprotect(guard_mem,guard_len,PROT_READ|PROT_WRITE);
	R("error",e); if(!e) { results("widths",rw,cw); results("heights",rh,ch); }
	leave();
}
#define NREST 12
static void rest_op(void) {
	size_t w = 3, h = 3; float* b = (void*)1; RDError e = 77; RDImage* im; char p[1300];
	if(late) { enter(); } else enter();
	switch(op_file) {
		case 0: im = L(resdet_open_image("/nonexistent/x.pfm",NULL,&w,&h,&b,&e)); R("handle",!!im); R("error",e); R("buffer",!!b); R("w",w); break;
		case 1: im = L(resdet_open_image("/x.iii",NULL,&w,&h,&b,&e)); R("handle",!!im); R("error",e != RDEOK); break;
		case 2: im = L(resdet_open_image_with_reader("/x.iii","nothing",&w,&h,&b,&e)); R("handle",!!im); R("error",e); break;
		case 3: for(RDMethod* m = L(resdet_methods()); m->name; m++) { R("method",strval(m->name)); R("threshold",m->threshold); } break;
		case 4: for(const char* const* l = L(resdet_list_image_readers()); *l; l++) R("reader",strval(*l)); break;
		case 5: for(int i = 0; i <= resdet_get_max_error(); i++) R("text",strval(L(resdet_error_str(i)))); break;
		case 6: R("version",strval(L(resdet_libversion()))); R("range",L(resdet_default_range())); break;
		case 7: { RDParameters* q = L(resdet_alloc_default_parameters()); R("a",L(resdet_parameters_set_range(q,0))); R("b",L(resdet_parameters_set_threshold(q,NAN))); R("c",L(resdet_parameters_set_threshold(q,.5f))); R("d",L(resdet_parameters_set_compression_filter(q,99))); free(q); break; }
		case 8: R("analysis",!!L(resdet_create_analysis(NULL,SIZE_MAX/2,3,NULL,&e))); R("error",e); break;
		case 9: R("method",!!L(resdet_get_method("SIGN"))); R("method",!!L(resdet_get_method("zerox"))); R("default",L(resdet_get_method(NULL)) == L(resdet_methods())); break;
		case 10: { RDResolution* r = (void*)1; size_t n = 5; e = L(resdetect_file("/nonexistent/y.pgm",NULL,&r,&n,NULL,NULL,NULL,NULL)); R("error",e); R("results",!!r); R("n",n); break; }
		case 11: e = L(resdet_analyze_image(NULL,NULL)); R("error",e); LV(resdet_close_image(NULL)); LV(resdet_destroy_analysis(NULL)); (void)p; break;
	}
	leave();
}
static void history(int k) {
	size_t w, h, n; float* b; RDError e; char p[1300];
	static const int bad[] = {0,1,2,4,5,6};
	if(k >= 1 && k <= 6) { snprintf(p,sizeof p,"%s/%s",reldir,files[ngood+bad[k-1]].name); if(!resdet_read_image(p,NULL,&b,&n,&w,&h)) free(b); RDResolution* r; size_t c; if(!resdetect_file(p,NULL,&r,&c,NULL,NULL,NULL,NULL)) free(r); }
	if(k == 7) { resdet_open_image("/nonexistent",NULL,&w,&h,NULL,&e); resdet_create_analysis(NULL,0,3,NULL,&e); resdet_read_image_frame(NULL,NULL,&e); float x = NAN; resdetect(&x,1,1,1,NULL,NULL,NULL,NULL,NULL,NULL); }
}
static void* run_op(void* unused) {
	/* other handles: one image and one analysis in the middle of their work */
	RDImage* im = NULL; RDAnalysis* an = NULL; size_t w, h; float* b = NULL; char p[1300];
	history(st[C_HISTORY]);
	if(st[C_OTHERS]) {
		snprintf(p,sizeof p,"%s/%s",reldir,files[op_kind ? 5 : op_file].name);
		im = resdet_open_image(p,NULL,&w,&h,&b,NULL); if(im && st[C_OTHERS] == 2) resdet_read_image_frame(im,b,NULL);
		an = resdet_create_analysis(resdet_get_method(methods[(op_method+st[C_OTHERS]) & 3]),41,35,NULL,NULL); if(an && st[C_OTHERS] == 2) resdet_analyze_image(an,pic_px[1]);
	}
	snapshot(&first,!STDIN_USED);
	op_kind == 0 ? file_op() : op_kind == 1 ? analysis_op() : op_kind == 2 ? rest_op() : large_op();
	resdet_close_image(im); resdet_destroy_analysis(an); free(b);
	return NULL;
}
/* standard output and error, and the host's own random numbers, are left alone */
static char outpath[1200]; static int out_fd = -1, keep1, keep2;
static void perform(void) {
	sh->nrec = 0; sh->change[0] = 0;
	int in = -1, keep0 = -1; FILE* hold = NULL; int pp[2] = {-1,-1};
	if(op_kind == 0 && (op_acc == A_STDIN || op_acc == A_PIPE)) {
		keep0 = fcntl(0,F_DUPFD,320);
		if(op_acc == A_STDIN) { char p[1300]; snprintf(p,sizeof p,"%s/%s",reldir,files[op_file].name); in = open(p,O_RDONLY); dup2(in,0); close(in); }
		else { if(pipe(pp)) _exit(70); fcntl(pp[1],F_SETPIPE_SZ,1 << 20); if(write(pp[1],files[op_file].p.b.p,files[op_file].p.b.n) != (ssize_t)files[op_file].p.b.n) { perror("pipe"); _exit(70); } close(pp[1]); dup2(pp[0],0); close(pp[0]); }
		hold = stdin; stdin = fdopen(0,"rb");
	}
	fflush(stdout); fflush(stderr); if(ftruncate(out_fd,0)) _exit(70); lseek(out_fd,0,SEEK_SET);
	keep1 = fcntl(1,F_DUPFD,330); keep2 = fcntl(2,F_DUPFD,331); dup2(out_fd,1); dup2(out_fd,2);
	srand(12345);
	if(st[C_THREAD]) {
		pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,128 << 10); pthread_t t;
		if(pthread_create(&t,&a,run_op,NULL)) { perror("thread"); _exit(70); }
		pthread_join(t,NULL); pthread_attr_destroy(&a);
	}
	else run_op(NULL);
	sh->drawn = rand();
	fflush(stdout); fflush(stderr); dup2(keep1,1); dup2(keep2,2); close(keep1); close(keep2);
	sh->printed = lseek(out_fd,0,SEEK_END);
	if(hold) { fclose(stdin); stdin = hold; dup2(keep0,0); close(keep0); }
}

/* in a process that has not used the library before */
static void perform_fresh(void) {
	pid_t p = fork();
	if(p < 0) { perror("fork"); _exit(70); }
	if(!p) { signal(SIGALRM,SIG_DFL); setitimer(ITIMER_REAL,&(struct itimerval){{0},{0}},NULL); perform(); _exit(0); }
	int s; while(waitpid(p,&s,0) < 0 && errno == EINTR);
	if(s) mc_fail("crash","%s: the process ends with status %x",(char*)mc_st->note,s);
}
static bool ready; static size_t first_heap;
#define NOPS 3000
static struct rec* base[NOPS]; static size_t nbase[NOPS];
static void init(void) {
	page = sysconf(_SC_PAGESIZE); sh = mmap(NULL,sizeof *sh,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	guard_len = GUARD_PAGES*page; guard_mem = mmap(NULL,guard_len+page,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(guard_mem+guard_len,page,PROT_NONE);
	snprintf(locdir,sizeof locdir,"%s/../loc",mc_scratch); /* shared by the shards of a run */ snprintf(reldir,sizeof reldir,"%s/pics",mc_scratch); mkdir(locdir,0700); mkdir(reldir,0700);
	static const char* const defs[][2] = {{"de_DE","UTF-8"},{"tr_TR","UTF-8"},{"tr_TR","ISO-8859-9"}};
	setenv("LOCPATH",locdir,1);
	char lock[1200]; snprintf(lock,sizeof lock,"%s/lock",locdir); int lk = open(lock,O_RDWR|O_CREAT,0600); if(lk < 0 || flock(lk,LOCK_EX)) { perror(lock); _exit(70); }
	for(int i = 0; i < 3; i++) {
		char c[8000]; snprintf(c,sizeof c,"%s/%s.%s/LC_NUMERIC",locdir,defs[i][0],defs[i][1]); if(!access(c,R_OK)) continue;
		snprintf(c,sizeof c,"localedef -c -f %s -i %s %s/%s.%s >/dev/null 2>&1; test -e %s/%s.%s/LC_NUMERIC",defs[i][1],defs[i][0],locdir,defs[i][0],defs[i][1],locdir,defs[i][0],defs[i][1]);
		if(system(c)) { fprintf(stderr,"mc: no locale %s\n",defs[i][0]); _exit(70); }
	}
	close(lk);
	snprintf(outpath,sizeof outpath,"%s/printed",mc_scratch); int fd = open(outpath,O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600); out_fd = fcntl(fd,F_DUPFD,290); close(fd);
	make_files(); make_analysed(); ready = true;
	(void)!freopen("/dev/null","r",stdin);
}
static void mc_case(void) {
	if(!ready) init();
	memset(st,0,sizeof st);
	op_kind = mc_choose(4);
	if(op_kind == 0) { op_file = mc_choose(nfiles); op_acc = mc_choose(NACC); op_method = op_entry = 0; }
	else if(op_kind == 1) { op_method = mc_choose(4); op_entry = mc_choose(3); op_file = op_acc = 0; }
	else { op_file = mc_choose(op_kind == 2 ? NREST : 5); op_method = op_kind == 3 ? mc_choose(2) : 0; op_acc = op_entry = 0; }
	/* up to two (thorough: three) components of the state are not the usual ones */
	bool fresh = !strcmp(mc_mode,"fresh"); bool large = op_kind == 3 || op_kind == 0 && files[op_file].big; if(large) mc_mine(); int deep = large ? 1 : fresh ? MC_Q(1,2) : mc_tier && (op_kind == 1 || op_kind == 0 && (op_acc == A_EXT || op_acc == A_DETECT) && op_file % 4 == 1) ? 3 : 2, from = 0; char what[600] = "", state[400] = ""; bool odd = false;
	for(int i = 0; i < deep; i++) {
		int n = 0; for(int c = from; c < NCOMP; c++) n += ncomp[c]-1;
		int k = mc_choose(n+1); if(!k) break;
		int c = from; for(k--; k >= ncomp[c]-1; c++) k -= ncomp[c]-1;
		st[c] = k+1; from = c+1; odd = true;
		snprintf(state+strlen(state),sizeof state-strlen(state),"%s%s%s",i ? ", " : "",c == C_LOCALE ? "locale " : comp_name[c],c == C_LOCALE ? locales[st[c]] : ({ static char t[3][20]; snprintf(t[i],20," %d",st[c]); t[i]; }));
		if(from == NCOMP) break;
	}
	late = mc_choose(2);
	if(!large) mc_mine();
	struct file* f = &files[op_file];
	if(op_kind == 0 && files[op_file].big == 2 && (odd && !st[C_THREAD] || op_acc != A_EXT && op_acc != A_READER && op_acc != A_IMAGE || late)) mc_skip();
	if(large && st[C_FLOAT] || op_kind == 0 && large && (op_acc == A_PIPE || op_acc == A_DETECT || op_acc == A_TYPE || op_acc == A_MIME)) mc_skip();
	bool std = op_kind == 0 && (op_acc == A_STDIN || op_acc == A_PIPE), lib3 = op_kind == 0 && !f->mime;
	if(op_kind == 0 && (op_acc == A_TYPE || op_acc == A_UPPER || op_acc == A_MIME || op_acc == A_IMAGE || op_acc == A_DETECT) && !f->mime) mc_skip(); /* those would choose another reader */
	if(std && lib3 && strcmp(f->reader,"FFmpeg")) mc_skip();
	if(std && lib3) mc_skip();
	if(std && st[C_FILES]) mc_skip(); /* there is no standard input */
	if(lib3 && st[C_FILE]) mc_skip(); /* what the library below keeps open is its own affair */
#ifdef R_MAGICKWAND
	if((lib3 && !strcmp(f->reader,"MagickWand") || op_kind == 2 && op_file == 1) && st[C_FILES]) mc_skip(); /* ImageMagick 6 itself aborts in its first error without standard files */
#endif
	if(late && (op_kind >= 2 || op_kind == 0 && (op_acc == A_IMAGE || op_acc == A_DETECT))) mc_skip();
	if(!odd && late) mc_skip();
	if(op_kind == 0) snprintf(what,sizeof what,"%s %s",f->what,acc_name[op_acc]); else if(op_kind == 1) snprintf(what,sizeof what,"%s%s",methods[op_method],op_entry ? op_entry == 2 ? " frame by frame, one invalid" : " frame by frame" : ""); else if(op_kind == 3) snprintf(what,sizeof what,"large analysis %d, %s",op_file,methods[op_method]); else snprintf(what,sizeof what,"call %d",op_file);
	if(state[0]) snprintf(what+strlen(what),sizeof what-strlen(what)," (%s%s)",late ? "from the second call on, " : "",state);
	mc_note("%s",what);
	/* the neutral state first */
	int id = op_kind == 0 ? op_file*NACC+op_acc : op_kind == 1 ? 2000+op_method*3+op_entry : op_kind == 2 ? 2100+op_file : 2200+op_file*2+op_method;
	if(!base[id]) {
		int s2[NCOMP]; bool l2 = late; memcpy(s2,st,sizeof st); memset(st,0,sizeof st); late = false;
		if(fresh) perform_fresh(); else perform(), perform();
		if(sh->change[0]) mc_fail("state-changed","%s, in the neutral state: the library changes %s",what,sh->change);
		nbase[id] = sh->nrec; base[id] = mmap(NULL,sh->nrec*sizeof(struct rec)+1,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); memcpy(base[id],sh->rec,sh->nrec*sizeof(struct rec));
		memcpy(st,s2,sizeof st); late = l2;
		if(op_kind == 0 && !f->bad && op_acc < A_IMAGE && (sh->nrec < (op_acc == A_SEEK || f->big ? 5 : 30*29) || sh->rec[0].v != 1)) mc_fail("neutral","%s is not read",what);
	}
	if(getenv("HOSTDBG")) fprintf(stderr,"%s\n",what);
	struct mallinfo2 m0 = mallinfo2();
	if(fresh) perform_fresh(); else perform(); mc_nontriv += odd;
	struct mallinfo2 m1 = mallinfo2();
	bool inexact = st[C_FLOAT];
	if(sh->nrec != nbase[id]) mc_fail("state-matters","%s: %zu values instead of %zu; the first to differ: %s",what,sh->nrec,nbase[id],({ const char* l = "the number"; for(size_t i = 0; i < sh->nrec && i < nbase[id]; i++) if(sh->rec[i].v != base[id][i].v) { static char t[100]; snprintf(t,sizeof t,"%s is %g, not %g",sh->rec[i].label,sh->rec[i].v,base[id][i].v); l = t; break; } l; }));
	for(size_t i = 0; i < sh->nrec; i++) {
		double a = sh->rec[i].v, b = base[id][i].v;
		if(a == b || isnan(a) && isnan(b)) continue;
		if(inexact && fabs(a-b) <= 1e-5*fmax(1,fabs(b)) && (!strcmp(sh->rec[i].label,"pixel") || !strcmp(sh->rec[i].label,"confidence"))) continue;
		mc_fail("state-matters","%s: %s (value %zu) is %.9g instead of %.9g",what,sh->rec[i].label,i,a,b);
	}
	if(sh->change[0]) mc_fail("state-changed","%s: the library changes %s",what,sh->change);
	if(sh->printed && !lib3) mc_fail("printed","%s: the library writes %ld bytes to standard output or error",what,sh->printed);
	static int expected; if(!expected) { srand(12345); expected = rand(); }
	if(sh->drawn != expected && !lib3) mc_fail("random","%s: the library draws from the program's random numbers",what);
	if(!fresh && !st[C_THREAD] && !lib3 && m1.uordblks > m0.uordblks) {
		/* what is kept once is a cache, what is kept twice a leak */
		struct mallinfo2 m2 = m1; int more = 0;
		for(int i = 0; i < 4; i++) { m1 = m2; perform(); m2 = mallinfo2(); more += m2.uordblks > m1.uordblks; }
		if(more == 4) mc_fail("memory","%s: %zu bytes more in use after every time",what,(size_t)(m2.uordblks-m1.uordblks));
	}
	uint64_t hh = 0; for(size_t i = 0; i < sh->nrec; i++) hh = mc_hash(&sh->rec[i].v,8,hh); mc_outcome(mc_hash(what,strlen(what),hh));
	if(mc_want_sample()) mc_sample("%s: the same %zu values, nothing changed",what,sh->nrec);
}
