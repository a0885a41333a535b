/*
 * Frames and numbers of frames beyond 2^31 and 2^32 bytes or samples, out of files with holes:
 * huge-seek (C11), huge-cut (C12), huge-read (C10), and huge-count (C18) out of memory mapped many times.
 */
#include "mc.h"
#include "ref.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#define P31 (1ull << 31)
#define P32 (1ull << 32)

enum { PGM, PFM_L, PFM_B, PFM_RGB, MONO8, MONO16, C420, C444, C422P10, NFMT };
static const char* fname[] = {"pgm","pfm, little endian","pfm, big endian","pfm, colour","y4m, mono","y4m, mono16","y4m, 420jpeg","y4m, 444","y4m, 422p10"};
static const char* ext(int f) { return f == PGM ? "pgm" : f <= PFM_RGB ? "pfm" : "y4m"; }
static int luma_bytes(int f) { return f == PFM_L || f == PFM_B ? 4 : f == PFM_RGB ? 12 : f == MONO16 || f == C422P10 ? 2 : 1; }
static uint64_t frame_bytes(int f, uint64_t w, uint64_t h) {
	uint64_t n = w*h*luma_bytes(f);
	switch(f) { case C420: n += (w+1)/2*((h+1)/2)*2; break; case C444: n *= 3; break; case C422P10: n += (w+1)/2*h*2*2; break; }
	return n;
}
static char path[1200]; static int fd = -1;
static uint64_t at[20]; /* where the data of each frame begin */
static void done(void) { if(fd >= 0) close(fd); fd = -1; unlink(path); }
/* a file system without room for files with holes cannot be helped */
static uint64_t put_at(uint64_t o, const char* s) { if(pwrite(fd,s,strlen(s),o) < 0) { done(); mc_skip(); } return o+strlen(s); }
/* a file of n frames of zeros; gives its size */
static uint64_t sparse(int f, uint64_t w, uint64_t h, int n) {
	snprintf(path,sizeof path,"%s/huge.%s",mc_scratch,ext(f));
	if((fd = open(path,O_RDWR|O_CREAT|O_TRUNC,0600)) < 0) { perror("mc: open"); _exit(70); }
	char t[200]; uint64_t o = 0;
	static const char* csp[] = {[MONO8]="mono",[MONO16]="mono16",[C420]="420jpeg",[C444]="444",[C422P10]="422p10"};
	if(f == PGM) { snprintf(t,sizeof t,"P5\n%llu %llu\n200\n",(unsigned long long)w,(unsigned long long)h); o = put_at(o,t); }
	if(f >= MONO8) { snprintf(t,sizeof t,"YUV4MPEG2 W%llu H%llu C%s\n",(unsigned long long)w,(unsigned long long)h,csp[f]); o = put_at(o,t); }
	for(int i = 0; i < n; i++) {
		if(f >= PFM_L && f <= PFM_RGB) { snprintf(t,sizeof t,"P%c\n%llu %llu\n%s\n",f == PFM_RGB ? 'F' : 'f',(unsigned long long)w,(unsigned long long)h,f == PFM_B ? "1.0" : "-1.0"); o = put_at(o,t); }
		if(f >= MONO8) o = put_at(o,"FRAME\n");
		at[i] = o; o += frame_bytes(f,w,h);
	}
	if(ftruncate(fd,o)) { done(); mc_skip(); }
	return o;
}
static uint64_t progress_n; static void progress(void* c, uint64_t n) { (void)c; progress_n = n == progress_n+1 ? n : ~0ull; }
static uint64_t available(void) { char l[100]; unsigned long long kb = 0; FILE* f = fopen("/proc/meminfo","r"); if(!f) return 0; while(fgets(l,sizeof l,f)) if(sscanf(l,"MemAvailable: %llu",&kb) == 1) break; fclose(f); return kb << 10; }

static const struct shape { int f; uint64_t w, h; } shapes[] = {
	{C420,70000,70000},{C444,50000,50000},{C422P10,70000,40000},{MONO8,46349,46341},{MONO16,33000,33000},{PFM_L,33000,33000},{PFM_B,24000,24000},{PFM_RGB,24000,24000},
	{MONO8,P32+8,1},{MONO8,1,P32+8},{MONO8,P31,1},{MONO8,65536,65536},{PFM_L,P31/4,1},{PFM_L,1,P32/4},{PFM_L,32768,32768},{PFM_RGB,20000,20000},{C444,P32/3+1,1},{C444,38000,38000},{C420,65536,65536},{MONO16,46341,46349}};
static const char* shape(const struct shape* s) { static char b[100]; snprintf(b,sizeof b,"%s, %llux%llu",fname[s->f],(unsigned long long)s->w,(unsigned long long)s->h); return b; }
static RDImage* open_it(const struct shape* s, float** px) {
	size_t w = 9, h = 9; RDError e = 77; mc_step(); RDImage* im = resdet_open_image(path,NULL,&w,&h,px,&e);
	if(!im && e == RDENOMEM) { /* right only if there is none */
		void* p = malloc(2*frame_bytes(s->f,s->w,s->h)+(px ? s->w*s->h*4 : 0)); bool room = p; free(p); if(!room) { done(); mc_skip(); }
	}
	MC_CHECK(im && !e && w == s->w && h == s->h,"open","%s: opened as %zux%zu, error %d",shape(s),w,h,e);
	return im;
}
/* every sequence of seeks: where the cursor is shows in what is left */
static void case_seek(void) {
	const struct shape* s = &MC_PICK(shapes); int n = MC_Q(3,4); uint64_t ops[4]; for(int i = 0; i < n; i++) ops[i] = mc_choose(MC_Q(4,5)); mc_mine();
	sparse(s->f,s->w,s->h,3); uint64_t pos = 0; RDImage* im = open_it(s,NULL); char t[100] = "";
	for(int i = 0; i < n; i++) {
		RDError e = 77; progress_n = 0; mc_step(); bool ok = resdet_seek_frame(im,ops[i],progress,NULL,&e); snprintf(t+strlen(t),20," %d",(int)ops[i]);
		uint64_t passed = ops[i] <= 3-pos ? ops[i] : 3-pos;
		MC_CHECK(ok == (passed == ops[i]) && !e && progress_n == passed,"seek","3 frames of %s: of the seeks by%s the last one, %llu from the end, gives %s, error %d, after %lld frames",shape(s),t,(unsigned long long)(3-pos),ok ? "true" : "false",e,(long long)progress_n);
		pos += passed;
	}
	RDError e = 77; progress_n = 0; mc_step(); bool ok = resdet_seek_frame(im,9,progress,NULL,&e);
	MC_CHECK(!ok && !e && progress_n == 3-pos,"left","3 frames of %s: after seeks by%s %llu frames are left instead of %llu, error %d",shape(s),t,(unsigned long long)progress_n,(unsigned long long)(3-pos),e);
	resdet_close_image(im); done(); mc_nontriv++; mc_outcome(mc_hashi(s-shapes,mc_hashi(pos,mc_hash(t,strlen(t),0)))); mc_trace("%s: %s",shape(s),t); if(mc_want_sample()) mc_sample("3 frames of %s: seeks by%s leave %d",shape(s),t,(int)(3-pos));
}
/* files that end within a frame, at places that differ in the high bits from what they should */
static void case_cut(void) {
	const struct shape* s = &MC_PICK(shapes); uint64_t fb = frame_bytes(s->f,s->w,s->h), lb = s->w*s->h*luma_bytes(s->f);
	const uint64_t cuts[] = {0,1,1000,P31-1,P31,P31+1,P32-1,P32,P32+1,fb%P31,fb%P31+1,fb%P32,fb%P32+1,lb-1,lb,lb+1,lb%P32,lb%P32+1,fb-P31,fb-P32,fb/2,fb-2,fb-1};
	uint64_t cut = MC_PICK(cuts); int k = mc_choose(3), how = mc_choose(2); mc_mine();
	if(cut >= fb) mc_skip();
	sparse(s->f,s->w,s->h,3); if(ftruncate(fd,at[k]+cut)) _exit(70);
	RDImage* im = open_it(s,NULL); RDError e = 77; progress_n = 0; uint64_t passed = 0; mc_step();
	if(how) { bool ok = resdet_seek_frame(im,9,progress,NULL,&e); MC_CHECK(!ok,"cut","true"); passed = progress_n; }
	else do { progress_n = 0; if(!resdet_seek_frame(im,1,progress,NULL,&e)) { MC_CHECK(!progress_n,"progress","%s: a seek that fails tells of %lld frames",shape(s),(long long)progress_n); break; } mc_step(); MC_CHECK(!e,"true","%s: true and error %d",shape(s),e); } while(++passed < 9);
	MC_CHECK(e == RDEINVAL && passed == (uint64_t)k,"cut","%s: frame %d of 3 is cut short after %llu of %llu bytes: skipping passes %llu frames and ends with error %d",shape(s),k,(unsigned long long)cut,(unsigned long long)fb,(unsigned long long)passed,e);
	resdet_close_image(im); done(); mc_nontriv++; mc_outcome(mc_hashi(s-shapes,mc_hashi(cut,k*2+how))); mc_trace("%s: frame %d cut at %llu",shape(s),k,(unsigned long long)cut); if(mc_want_sample()) mc_sample("frame %d of 3 of %s ends after %llu bytes: error %d",k,shape(s),(unsigned long long)cut,e);
}
/* the pixels of large frames: zeros but for some marks in places that differ in their high bits only, and around them */
static void case_read(void) {
	static const struct shape rd[] = {{MONO8,46349,46341},{MONO8,12000,12000},{MONO16,33000,33000},{PGM,46349,46341},{PFM_L,33000,33000},{MONO8,P31+1000,1},{PFM_B,24000,24000},{PFM_RGB,24000,24000},{C420,46349,46341},{C422P10,1,P31+1000},{PGM,P31+1000,1},{PFM_L,1,P31+1000},{PFM_B,46349,46341},{PFM_RGB,46349,46341},{MONO8,65537,65551}};
	const struct shape* s = &rd[mc_choose(MC_Q(5,15))]; int whole = mc_choose(2); mc_mine();
	uint64_t n = s->w*s->h; int frames = s->f == PGM ? 1 : n < P31/8 ? 17 : 2; bool many = frames > 1; uint64_t lb = luma_bytes(s->f), need = n*4*(whole ? frames+1 : 1)+n*lb;
	/* frames of 2^31 pixels twice over need too much memory */
	if(whole ? n > P31/2+P31/8 || !many : frames > 2) mc_skip();
	if(available() < need+(3ull << 30)) mc_skip();
	sparse(s->f,s->w,s->h,frames);
	const uint64_t where[] = {0,1,2,s->w-1,s->w,n%P31,n%P32,P31/4-1,P31/4,P31/4+1,P31/2-1,P31/2,P31/2+1,P31-1,P31,P31+1,P32-1,P32,P32+1,n/2,n-2,n-1};
	uint64_t pos[20][40]; float val[20][40]; int m[20] = {0};
	for(int k = 0; k < frames; k++) for(unsigned i = k%4; i < sizeof where/sizeof *where; i += 1+frames/2%7) { /* every frame has other marks */
		uint64_t p = where[i]; if(p >= n) continue; int d = 0; while(d < m[k] && pos[k][d] != p) d++; if(d < m[k]) continue;
		int v = 3+(int)i*5+k; unsigned char b[12] = {0}; float x; uint64_t o = p;
		if(s->f == PGM) { b[0] = v; x = v/200.f; }
		else if(s->f <= PFM_RGB) { /* rows are stored bottom up */
			float raw = v+.5f; o = (s->h-1-p/s->w)*s->w+p%s->w; x = raw;
			for(int c = 0; c < (s->f == PFM_RGB ? 3 : 1); c++) { memcpy(b+c*4,&raw,4); if(s->f == PFM_B) for(int j = 0; j < 2; j++) { unsigned char q = b[j]; b[j] = b[3-j]; b[3-j] = q; } }
		}
		else if(lb == 2) { uint16_t q = v*5; memcpy(b,&q,2); x = q/(float)(s->f == MONO16 ? 65535 : 1023); }
		else { b[0] = v; x = v/255.f; }
		if(pwrite(fd,b,lb,at[k]+o*lb) < 0) { done(); mc_skip(); }
		pos[k][m[k]] = p; val[k][m[k]] = x; m[k]++;
	}
	float* px = NULL; RDError e = 77; RDImage* im = NULL; size_t nn = 0, w, h;
	if(whole) {
		mc_step(); e = resdet_read_image(path,NULL,&px,&nn,&w,&h);
		if(e == RDENOMEM) { done(); mc_skip(); }
		MC_CHECK(!e && nn == (size_t)frames && w == s->w && h == s->h && px,"whole","%d frames of %s read as a whole: %zu frames, error %d",frames,shape(s),nn,e);
	}
	else im = open_it(s,&px);
	for(int k = 0; k < frames; k++) {
		float* f = px+(whole ? k*n : 0);
		if(!whole) {
			bool ok;
			/* the first of two is skipped if it is large, to save time */
			if(many && !k && n > P31/2+P31/8) { mc_step(); ok = resdet_seek_frame(im,1,NULL,NULL,&e); MC_CHECK(ok && !e,"skip","%s: skipping the first frame gives error %d",shape(s),e); continue; }
			mc_step(); e = 77; ok = resdet_read_image_frame(im,f,&e); MC_CHECK(ok && !e,"read","%s: reading frame %d gives %s, error %d",shape(s),k,ok ? "true" : "false",e);
		}
		int seen = 0;
		for(uint64_t i = 0; i < n; i++) {
			uint64_t two; if(i+1 < n && !(i&1)) { memcpy(&two,f+i,8); if(!two) { i++; continue; } }
			if(!f[i]) continue;
			int d = 0; while(d < m[k] && pos[k][d] != i) d++;
			MC_CHECK(d < m[k] && fabsf(f[i]-val[k][d]) <= 2e-6f*val[k][d],"pixel","%s: pixel %llu of frame %d is %.9g instead of %.9g",shape(s),(unsigned long long)i,k,f[i],d < m[k] ? val[k][d] : 0.);
			seen++;
		}
		MC_CHECK(seen == m[k],"pixel","%s: of %d pixels of frame %d that are not 0 %d are found",shape(s),m[k],k,seen);
	}
	if(im) { mc_step(); progress_n = 0; bool ok = resdet_seek_frame(im,1,progress,NULL,&e); MC_CHECK(!ok && !e && !progress_n,"end","%s: after the last frame a seek gives %s, error %d",shape(s),ok ? "true" : "false",e); resdet_close_image(im); }
	free(px); done(); mc_nontriv++; mc_outcome(mc_hashi(s-rd,whole)); mc_trace("%s",shape(s)); if(mc_want_sample()) mc_sample("%s read %s: %d marks",shape(s),whole ? "as a whole" : "frame by frame",m[0]+m[1]);
}
/* many images at once, in the same memory but for those at the end, which count as much as any */
static void case_count(void) {
	const size_t w = 8, h = 8, px = w*h, block = 1 << 16, blocks = P32/px/block+1, k = blocks*block, per = block*px*sizeof(float), guard = 9ull << 30; int what = mc_choose(2); mc_mine();
	int m = memfd_create("images",0); if(m < 0 || ftruncate(m,2*per)) { if(m >= 0) close(m); mc_skip(); }
	float* two = mmap(NULL,2*per,PROT_READ|PROT_WRITE,MAP_SHARED,m,0); if(two == MAP_FAILED) { close(m); mc_skip(); }
	for(size_t i = 0; i < 2*block*px; i++) two[i] = ref_noise(i%px,1,3+i/(block*px)); /* one image, then another */
	if(what) two[2*block*px-1] = NAN;
	char* v = mmap(NULL,guard+blocks*per,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); bool room = v != MAP_FAILED;
	for(size_t i = 0; room && i < blocks; i++) room = mmap(v+guard+i*per,per,PROT_READ,MAP_SHARED|MAP_FIXED,m,i == blocks-1 ? per : 0) != MAP_FAILED;
	if(!room) { munmap(two,2*per); if(v != MAP_FAILED) munmap(v,guard+blocks*per); close(m); mc_skip(); }
	RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_threshold(p,0); RDMethod* z = resdet_get_method("zerox");
	RDResolution* r[2],* one[2][2]; size_t c[2], d[2][2]; mc_step(); RDError e = resdetect((float*)(v+guard),k,w,h,&r[0],&c[0],&r[1],&c[1],z,p);
	if(what) MC_CHECK(e == RDEINVAL && !r[0] && !c[0] && !r[1] && !c[1],"last","%zu images of %zux%zu, the last of which has a NaN: error %d",k,w,h,e);
	else {
		MC_CHECK(!e,"many","%zu images of %zux%zu: error %d",k,w,h,e);
		for(int i = 0; i < 2; i++) if((e = resdetect(two+i*block*px,1,w,h,&one[i][0],&d[i][0],&one[i][1],&d[i][1],z,p))) mc_fail("alone","error %d",e);
		bool differ = false;
		for(int dim = 0; dim < 2; dim++) {
			double conf[2][9] = {{0}}; for(int i = 0; i < 2; i++) { for(size_t j = 0; j < d[i][dim]; j++) if(one[i][dim][j].index <= 8) conf[i][one[i][dim][j].index] = one[i][dim][j].confidence; free(one[i][dim]); }
			MC_CHECK(c[dim] == d[0][dim],"many","%zu images of %zux%zu: %zu results at threshold 0 instead of %zu",k,w,h,c[dim],d[0][dim]);
			for(size_t j = 0; j < c[dim]; j++) {
				size_t x = r[dim][j].index; double want = (conf[0][x]*(blocks-1)+conf[1][x])/blocks; differ |= conf[0][x] != conf[1][x];
				MC_CHECK(fabs(r[dim][j].confidence-want) < 1e-5,"count","%zu images of %zux%zu: confidence %.9g of %zu instead of %.9g",k,w,h,r[dim][j].confidence,x,want);
			}
			free(r[dim]);
		}
		if(!differ) { fprintf(stderr,"mc: the images do not differ\n"); _exit(70); }
	}
	free(p); munmap(two,2*per); munmap(v,guard+blocks*per); close(m); mc_nontriv++; mc_outcome(what); mc_trace("%zu images",k); if(mc_want_sample()) mc_sample("%zu images of %zux%zu in one call, %s",k,w,h,what ? "the last with a NaN" : "those at the end different");
}
static void mc_case(void) {
	const char* m = mc_mode+5;
	if(!strcmp(m,"seek")) case_seek(); else if(!strcmp(m,"cut")) case_cut(); else if(!strcmp(m,"read")) case_read(); else case_count();
}
