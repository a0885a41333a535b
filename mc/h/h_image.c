/*
 * Built-in image formats.
 *   decode: every well-formed file decodes to what was encoded, through every entry point (C10)
 *   cursor: every sequence of reads and seeks behaves as a cursor over the list of frames (C11)
 *   bad:    malformed and truncated input is reported, never misread, never unsafe (C12)
 */
#include "mc.h"
#include "resdet.h"
#include "fmt.h"

static void check_frame(const char* what, const struct pic* p, int f, const float* got) {
	for(size_t i = 0; i < p->w*p->h; i++)
		if(!px_equal(got[i],p->want[f][i],p->tol))
			mc_fail("pixels","%s: frame %d, pixel (%zu,%zu) is %.9g, encoded as %.9g",what,f,i%p->w,i/p->w,got[i],p->want[f][i]);
}
/* a complete file: frame-wise and in one go, through one source */
static void check_whole(const char* what, const struct pic* p, int kind) {
	struct source s; RDError e = 77; size_t w = 9, h = 9; float* b = (void*)1;
	char t[300]; snprintf(t,sizeof t,"%s from %s",what,src_name[kind]);
	source_open(&s,kind,p->b.p,p->b.n,p->ext);
	RDImage* im = source_image(&s,p->reader,&w,&h,&b,&e); mc_step();
	if(!im || e) mc_fail("open","%s: cannot be opened: error %d",t,e);
	if(w != p->w || h != p->h) mc_fail("dims","%s: opened as %zux%zu, is %zux%zu",t,w,h,p->w,p->h);
	for(int f = 0; f < p->n; f++) {
		e = 77; mc_step();
		memset(b,0xa5,w*h*sizeof *b);
		if(!resdet_read_image_frame(im,b,&e) || e) mc_fail("read","%s: frame %d of %d cannot be read: error %d",t,f,p->n,e);
		check_frame(t,p,f,b);
	}
	for(int k = 0; k < 2; k++) {
		e = 77;
		if(resdet_read_image_frame(im,b,&e)) mc_fail("end","%s: a frame is read after the last one",t);
		if(e) mc_fail("end","%s: error %d after the last frame",t,e);
	}
	resdet_close_image(im);
	source_close(&s); free(b);
	if(kind == SRC_READER) return;
	source_open(&s,kind,p->b.p,p->b.n,p->ext);
	size_t n = 9; b = (void*)1; w = h = 9;
	e = resdet_read_image(s.name,s.type,&b,&n,&w,&h); mc_step();
	if(e || n != (size_t)p->n || w != p->w || h != p->h) mc_fail("read-image","%s: whole file gives error %d, %zu frames of %zux%zu, expected %d of %zux%zu",t,e,n,w,h,p->n,p->w,p->h);
	for(int f = 0; f < p->n; f++) check_frame(t,p,f,b+f*w*h);
	free(b);
	source_close(&s);
	mc_trace("%s: %zux%zu, %d frames ok",t,w,h,p->n);
}

static const char* const pres[] = {"\n"," ","\t","\r\n","\n\n","\n# comment\n","\n#\n","\n# 9 9 9\n#P5 9 9 255\n","  # x\n"};
static const char* const seps[] = {" ","\n","\t","  ","\r\n","\n\n"};
static const char* const lasts[] = {"\n"," ","\t","\r"};
static const size_t sides[] = {1,2,3,4,5,7,8,17};

/* n times t, between a and b */
static char* many_of(const char* a, const char* t, size_t n, const char* b) {
	size_t l = strlen(t); char* s = malloc(strlen(a)+n*l+strlen(b)+1),* o = s+sprintf(s,"%s",a);
	for(size_t i = 0; i < n; i++) { memcpy(o,t,l); o += l; }
	strcpy(o,b);
	return s;
}
static const size_t long_lengths[] = {400,510,511,512,513,600,1000,1021,1022,1023,1024,1025,1026,2047,2048,2049,4093,4094,4095,4096,4097,4098,8191,8192,8193,16384,32767,32768,65534,65535,65536,65537,100000};
#define NLONG ((int)(sizeof long_lengths/sizeof *long_lengths))
static const struct { size_t w, h; } large_sizes[] = {{65535,1},{65536,1},{65537,1},{1,65536},{1,65537},{256,257},{257,256},{300,200},{1000,70},{71,1001},{40000,3},{3,40000},{131073,1},{2049,129},{1,4097},{4097,1},{8193,2},{70000,2},{2,70000}};

static void decode(void) {
	struct pic p; char what[300];
	int fam = mc_choose(12);
	switch(fam) {
		case 0: { /* PGM: every maximum value and size */
			unsigned max = 1+mc_choose(255); size_t w = MC_PICK(sides), h = MC_PICK(sides); mc_mine();
			mk_pgm(&p,w,h,max,max,"\n"," ","\n","\n",-1);
			snprintf(what,sizeof what,"PGM %zux%zu, maximum value %u",w,h,max); break;
		}
		case 1: { /* PGM: every header spelling */
			const char* pre = MC_PICK(pres),* a = MC_PICK(seps),* b = MC_PICK(seps),* c = MC_PICK(lasts); size_t w = mc_choose(2) ? 3 : 12, h = mc_choose(2) ? 2 : 11; mc_mine();
			mk_pgm(&p,w,h,255,1,pre,a,b,c,-1);
			snprintf(what,sizeof what,"PGM %zux%zu, header %.*s",w,h,(int)p.hdr,p.b.p); break;
		}
		case 2: { /* PGM: every first data byte after every last separator */
			int v = mc_choose(256); const char* c = MC_PICK(lasts); size_t w = 1+mc_choose(3); mc_mine();
			mk_pgm(&p,w,2,255,v,"\n"," ","\n",c,v);
			snprintf(what,sizeof what,"PGM %zux2, first data byte %d",w,v); break;
		}
		case 3: { /* PFM: formats, byte orders, sizes, frames */
			int n = 1+mc_choose(3), cm = mc_choose(1 << n), em = mc_choose(1 << n); size_t w = MC_PICK(sides), h = MC_PICK(sides); int pl = mc_choose(2); mc_mine();
			mk_pfm(&p,w,h,n,cm,em,n,"\n","1.0",pl);
			snprintf(what,sizeof what,"PFM %zux%zu, %d frames, colour mask %d, big endian mask %d",w,h,n,cm,em); break;
		}
		case 4: { /* PFM: header spelling */
			static const char* const scales[] = {"1.0","1","0.5","1.000000","2e0","1e-3","255"};
			const char* pre = MC_PICK(pres),* sc = MC_PICK(scales); int n = 1+mc_choose(2), cm = mc_choose(1 << n), em = mc_choose(1 << n); mc_mine();
			mk_pfm(&p,3,2,n,cm,em,7,pre,sc,false);
			snprintf(what,sizeof what,"PFM 3x2, %d frames, colour mask %d, big endian mask %d, scale %s, header %.*s",n,cm,em,sc,(int)p.hdr,p.b.p); break;
		}
		case 5: { /* Y4M: colour spaces, sizes, frames */
			int c = mc_choose(NCSP); size_t w = MC_PICK(sides), h = MC_PICK(sides); int n = 1+mc_choose(3); mc_mine();
			mk_y4m(&p,w,h,n,c,"W%W H%H F25:1 Ip A1:1 %C","",c);
			snprintf(what,sizeof what,"Y4M %s %zux%zu, %d frames",csps[c].tag,w,h,n); break;
		}
		case 6: { /* Y4M: headers */
			int c = mc_choose(NCSP), hd = mc_choose(7), n = 1+mc_choose(2); static const char* const fps[] = {""," Ip"," X0123456789 W9 H9"," "}; int fp = mc_choose(4); mc_mine();
			char t[200]; strcpy(t,y4m_heads[hd]); char* x = strstr(t," W9"); if(x) *x = 0;
			mk_y4m(&p,5,3,n,c,t,fps[fp],hd);
			snprintf(what,sizeof what,"Y4M 5x3, %d frames, frame parameters \"%s\", header %.*s",n,fps[fp],(int)p.hdr-1,p.b.p); break;
		}
		case 7: { /* Y4M: every size 1..20 (thorough 1..22) of the subsampled colour spaces */
			int c = 1+mc_choose(9); size_t w = 1+mc_choose(MC_Q(20,22)), h = 1+mc_choose(MC_Q(20,22)); mc_mine();
			mk_y4m(&p,w,h,2,c,"W%W H%H %C","",c);
			snprintf(what,sizeof what,"Y4M %s %zux%zu",csps[c].tag,w,h); break;
		}
		case 9: { /* comments, white space and parameters of any length and number */
			int k = mc_choose(9), l = mc_choose(MC_Q(300,700)+NLONG); mc_mine();
			size_t n = l < NLONG ? long_lengths[l] : (size_t)(l-NLONG); char* t = NULL;
			if((k == 6 || k == 8) && !n) n = 1; /* a parameter has a value */
			switch(k) {
				case 0: mk_pgm(&p,5,3,255,1,t = many_of("\n#","P5 9",n,"\n")," ","\n","\n",-1); break;
				case 1: mk_pgm(&p,5,3,255,1,t = many_of("\n"," ",n,""),"\n","\n","\n",-1); break;
				case 2: mk_pgm(&p,5,3,255,1,"\n",t = many_of("","\t\n",n," "),t,"\n",-1); break;
				case 3: mk_pgm(&p,5,3,255,1,t = many_of("\n","# 1\n",n,"")," ","\n","\n",-1); break;
				case 4: mk_pfm(&p,3,2,2,n & 3,n >> 2 & 3,7,t = many_of("\n#"," 7",n,"\n"),"1.0",false); break;
				case 5: mk_pfm(&p,3,2,2,n & 3,n >> 2 & 3,7,t = many_of("\n","#Pf\n",n,""),"1.0",false); break;
				case 6: mk_y4m(&p,5,3,2,n % NCSP,t = many_of("W%W X","W9H9C",n," H%H %C"),"",1); break;
				case 7: mk_y4m(&p,5,3,2,n % NCSP,t = many_of("%C W%W"," Xa Ip",n," H%H"),"",1); break;
				default: mk_y4m(&p,5,3,2,n % NCSP,"W%W H%H %C",t = many_of(" ","FRAME",n,""),1);
			}
			free(t);
			static const char* const kn[] = {"PGM, comment","PGM, spaces","PGM, separators","PGM, comments","PFM, comment","PFM, comments","Y4M, parameter","Y4M, parameters","Y4M, frame parameter"};
			snprintf(what,sizeof what,"%s of length %zu",kn[k],n); break;
		}
		case 10: { /* sizes past every integer and buffer size a reader may have */
			int k = mc_choose(NFMT+7), z = mc_choose(MC_Q(12,19)); size_t w = large_sizes[z].w, h = large_sizes[z].h; mc_mine();
			static const int cs[] = {5,6,13,23};
			if(k < NFMT) mk_any(&p,k,2,w,h); else if(k >= NFMT+4) mk_pfm(&p,w,h,2,k == NFMT+5 ? 3 : 0,k == NFMT+6 ? 2 : k == NFMT+5 ? 0 : 3,3,"\n","1.0",true); else mk_y4m(&p,w,h,2,cs[k-NFMT],"W%W H%H %C","",2);
			snprintf(what,sizeof what,"%s %zux%zu",k < NFMT ? fmt_name[k] : k < NFMT+4 ? csps[cs[k-NFMT]].tag : k == NFMT+4 ? "PFM, big endian" : k == NFMT+5 ? "PFM colour, little endian" : "PFM, little, then big endian",w,h); break;
		}
		case 11: { /* any number of frames */
			int f = mc_choose(NFMT), n = mc_choose(MC_Q(301,MAXFRAMES+1)); if(!f && n != 1) mc_skip(); if(!n && f < 5) mc_skip(); mc_mine();
			mk_any(&p,f,n,n & 1 ? 3 : 4,2);
			snprintf(what,sizeof what,"%s of %d frames",fmt_name[f],n); break;
		}
		default: { /* Y4M: every sample value at every depth: one file of 512 samples per block of values */
			static const int dc[] = {9,25,26,27,28,29,7}; int k = mc_choose(7), c = dc[k], depth = csps[c].depth, blk = mc_choose(depth > 9 ? 1 << (depth-9) : 1); mc_mine();
			mk_y4m(&p,32,16,1,c,"W%W H%H %C","",c);
			size_t o = p.hdr+6; unsigned max = (1u << depth)-1;
			for(unsigned i = 0; i < 512; i++) {
				unsigned v = (blk*512+i) & max;
				if(depth > 8) { p.b.p[o+i*2] = v; p.b.p[o+i*2+1] = v >> 8; } else p.b.p[o+i] = v;
				p.want[0][i] = (double)v/max;
			}
			snprintf(what,sizeof what,"Y4M %s, samples %d...",csps[c].tag,blk*512);
		}
	}
	bool many = fam == 0 || fam == 7 || fam >= 8;
	for(int k = 0; k < NSRC; k++) {
		if(many && !mc_tier && k != SRC_FILE && k != SRC_PIPE) continue;
		if(fam >= 9 && (k == SRC_PIPE1 || k == SRC_PIPE5) && p.b.n > 20000) continue;
		check_whole(what,&p,k);
	}
	mc_outcome(mc_hash(p.b.p,p.b.n,0)); mc_nontriv++;
	if(mc_want_sample()) mc_sample("%s: decoded through every source as encoded",what);
	pic_free(&p);
}

/* ---- cursor ---- */
static uint64_t prog_n; static bool prog_bad; static void* prog_ctx;
static void progress(void* c, uint64_t k) { if(k != prog_n+1 || c != prog_ctx) prog_bad = true; prog_n++; }

struct cur { struct pic p; struct source s; RDImage* im; int pos; float* b; char what[200]; int opn, wps; };
static void cur_open(struct cur* c, int f, int n, int kind) {
	mk_any(&c->p,f,n,3,2);
	snprintf(c->what,sizeof c->what,"%s of %d frames, %s",fmt_name[f],c->p.n,src_name[kind]);
	source_open(&c->s,kind,c->p.b.p,c->p.b.n,c->p.ext);
	size_t w, h; RDError e;
	c->im = source_image(&c->s,c->p.reader,&w,&h,NULL,&e); mc_step();
	if(!c->im || w != 3 || h != 2) mc_fail("open","%s: error %d, %zux%zu",c->what,e,w,h);
	c->b = malloc(w*h*sizeof *c->b);
	c->pos = c->opn = 0; c->wps = 1; /* which seeks have progress reported: bit 0 the 1st, 3rd..., bit 1 the others */
	mc_trace("open %s",c->what);
}
static void cur_close(struct cur* c) { resdet_close_image(c->im); source_close(&c->s); pic_free(&c->p); free(c->b); }
static void cur_seek(struct cur* c, uint64_t k) {
	RDError e = 77; int n = c->p.n, left = n-c->pos; mc_step();
	bool wp = c->wps >> (c->opn++ & 1) & 1;
	prog_n = 0; prog_bad = false; prog_ctx = c;
	bool r = resdet_seek_frame(c->im,k,wp ? progress : NULL,wp ? c : NULL,&e);
	mc_trace("  seek by %llu at %d -> %d error %d, %llu progress calls",(unsigned long long)k,c->pos,r,e,(unsigned long long)prog_n);
	if(e) mc_fail("seek-error","%s: seek by %llu at frame %d gives error %d",c->what,(unsigned long long)k,c->pos,e);
	if(r != (k <= (uint64_t)left)) mc_fail("seek-result","%s: seek by %llu at frame %d of %d returns %s",c->what,(unsigned long long)k,c->pos,n,r ? "true" : "false");
	int mv = k <= (uint64_t)left ? (int)k : left;
	if(wp && (prog_bad || prog_n != (uint64_t)mv)) mc_fail("progress","%s: seek by %llu at frame %d of %d reports %llu frames of progress%s",c->what,(unsigned long long)k,c->pos,n,(unsigned long long)prog_n,prog_bad ? ", out of order" : "");
	c->pos += mv;
}
/* op 0: read; op 1..: seek */
static const uint64_t seeks[] = {0,1,2,3,(uint64_t)1 << 32,UINT64_MAX};
static void cur_op(struct cur* c, int op) {
	RDError e = 77; int n = c->p.n;
	if(op) { cur_seek(c,seeks[op-1]); return; }
	mc_step();
	memset(c->b,0xa5,6*sizeof *c->b);
	bool r = resdet_read_image_frame(c->im,c->b,&e);
	mc_trace("  read at %d -> %d error %d",c->pos,r,e);
	if(e) mc_fail("read-error","%s: read at frame %d gives error %d",c->what,c->pos,e);
	if(r != (c->pos < n)) mc_fail("read-result","%s: read at frame %d of %d returns %s",c->what,c->pos,n,r ? "true" : "false");
	if(r) check_frame(c->what,&c->p,c->pos++,c->b);
}
static void cursor(void) {
	static const int kinds[] = {SRC_FILE,SRC_SEEKABLE,SRC_PIPE,SRC_PIPE5};
	int space = mc_choose(3);
	if(space == 2) {
		/* many frames: a seek by any amount from anywhere */
		int f = 1+mc_choose(NFMT-1), n = mc_choose(2) ? 300 : 257, kind = MC_PICK(kinds), at = mc_choose(4), byseek = at ? mc_choose(2) : 0, k = mc_choose(n+4), wp = mc_choose(2);
		if(!mc_tier && (k*7+at+f) % 4) mc_skip();
		mc_mine();
		struct cur c; cur_open(&c,f,n,kind); c.wps = wp*3;
		static const int ats[] = {0,1,44,255};
		if(byseek) cur_seek(&c,ats[at]); else while(c.pos < ats[at]) cur_op(&c,0);
		cur_seek(&c,k == n+2 ? 65536 : k == n+3 ? UINT64_MAX : (uint64_t)k);
		cur_op(&c,0); cur_op(&c,0);
		mc_state(mc_hashi(c.pos,f*1000+n)); mc_outcome(mc_hashi(k,at*1000+f)); mc_nontriv++;
		if(mc_want_sample()) mc_sample("%s: seek by %d from frame %d",c.what,k,ats[at]);
		cur_close(&c);
	}
	else if(space == 0) {
		/* one handle */
		int f = mc_choose(NFMT), n = mc_choose(5); if(f == 0 && n != 1) mc_skip(); if(f < 5 && !n) mc_skip();
		int kind = MC_PICK(kinds), wps = mc_choose(4), depth = MC_Q(4,5), o0 = mc_choose(7), o1 = mc_choose(7);
		mc_mine();
		struct cur c; cur_open(&c,f,n,kind); c.wps = wps;
		cur_op(&c,o0); mc_state(mc_hashi(c.pos,f*100+n*10+kind)); cur_op(&c,o1);
		for(int i = 2; i < depth; i++) { int op = mc_choose(8); if(op == 7) break; cur_op(&c,op); mc_state(mc_hashi(c.pos,f*100+n*10+kind)); }
		/* whatever happened, the rest of the frames is still there */
		while(c.pos < c.p.n) cur_op(&c,0);
		cur_op(&c,0);
		mc_outcome(mc_hashi(o0*64+o1,f*100+n*10+kind)); mc_nontriv++;
		if(mc_want_sample()) mc_sample("%s: operations %d, %d, ... (0 = read, k = seek by %d-th amount) follow the cursor",c.what,o0,o1,0);
		cur_close(&c);
	}
	else {
		/* two handles, interleaved: reads and seeks by 1 */
		int f0 = mc_choose(NFMT), f1 = mc_choose(NFMT), k1 = mc_choose(2);
		mc_mine();
		struct cur a, b; cur_open(&a,f0,2,SRC_FILE); cur_open(&b,f1,2,k1 ? SRC_PIPE : SRC_FILE);
		for(int i = 0; i < MC_Q(4,6); i++) {
			int op = mc_choose(4);
			struct cur* c = op & 1 ? &b : &a;
			if(op < 2) cur_op(c,0);
			else { RDError e; bool r = resdet_seek_frame(c->im,1,NULL,NULL,&e); mc_step(); if(e || r != (c->pos < c->p.n)) mc_fail("seek-result","two handles: seek by 1 at %d of %d gives %d, error %d",c->pos,c->p.n,r,e); c->pos += r; }
		}
		for(int i = 0; i < 3; i++) { cur_op(&a,0); cur_op(&b,0); }
		mc_state(mc_hashi(f0*10+f1,k1)); mc_nontriv++;
		cur_close(&b); cur_close(&a);
	}
}

/* ---- malformed input ---- */
struct res { RDError open_e; int n; bool end; RDError e; float px[RESFRAMES+2][MAXPIX]; size_t w, h; };
/* read everything there is, checking the contract on the way */
static void slurp(struct res* r, const char* what, const void* p, size_t len, const char* ext, const char* reader, int kind, bool byseek) {
	struct source s; memset(r,0,sizeof *r); float* b = NULL;
	source_open(&s,kind,p,len,ext); mc_step();
	RDImage* im = source_image(&s,reader,&r->w,&r->h,&b,&r->open_e);
	if(!!im != !r->open_e) mc_fail("contract","%s: handle %p with error %d",what,(void*)im,r->open_e);
	if(!im) {
		if(b || r->w || r->h) mc_fail("contract","%s: outputs left set after failing to open",what);
		source_close(&s); return;
	}
	if(!r->w || !r->h || !b) mc_fail("contract","%s: opened with empty dimensions",what);
	for(;;) {
		RDError e = 77;
		bool ok = byseek ? resdet_seek_frame(im,1,NULL,NULL,&e) : resdet_read_image_frame(im,b,&e); mc_step();
		if(ok && e) mc_fail("contract","%s: frame %d: success with error %d",what,r->n,e);
		if(!ok) { r->e = e; r->end = !e; break; }
		if(r->w*r->h <= MAXPIX && r->n < RESFRAMES+2 && !byseek) memcpy(r->px[r->n],b,r->w*r->h*sizeof *b);
		if(++r->n > 100000) mc_fail("endless","%s: more frames than data",what);
	}
	resdet_close_image(im); free(b); source_close(&s);
}
static bool res_same(const struct res* a, const struct res* b, bool px) {
	if(!!a->open_e != !!b->open_e) return false;
	if(a->open_e) return true;
	if(a->w != b->w || a->h != b->h || a->n != b->n || a->end != b->end) return false;
	for(int f = 0; px && f < a->n && f < RESFRAMES+2 && a->w*a->h <= MAXPIX; f++) if(memcmp(a->px[f],b->px[f],a->w*a->h*4)) return false;
	return true;
}
/* the same bytes through every source, by reading and by skipping, and as a whole, must tell the same story */
static struct res R0, R1;
static void consistent(const char* what, const unsigned char* p, size_t n, const char* ext, const char* reader) {
	char t[400];
	slurp(&R0,what,p,n,ext,reader,SRC_FILE,false);
	for(int k = 0; k < 4; k++) {
		int kind = k == 0 ? SRC_SEEKABLE : SRC_PIPE; bool sk = k >= 2; if(k == 3) kind = SRC_FILE;
		if(sk && !strcmp(ext,"pgm")) continue; /* a still need not be read to be skipped */
		snprintf(t,sizeof t,"%s, %s%s",what,src_name[kind],sk ? " by skipping" : "");
		slurp(&R1,t,p,n,ext,reader,kind,sk);
		if(!res_same(&R0,&R1,!sk)) mc_fail("inconsistent","%s: error %d, %zux%zu, %d frames, then error %d; reading the file: error %d, %zux%zu, %d frames, then error %d",t,R1.open_e,R1.w,R1.h,R1.n,R1.e,R0.open_e,R0.w,R0.h,R0.n,R0.e);
	}
	struct source s; source_open(&s,SRC_FILE,p,n,ext);
	float* im = (void*)1; size_t ni = 9, w = 9, h = 9;
	RDError e = resdet_read_image(s.name,s.type,&im,&ni,&w,&h); mc_step();
	bool bad = R0.open_e || !R0.end;
	if(!!e != bad) mc_fail("inconsistent","%s: as a whole: error %d; frame by frame: open error %d, %d frames, then error %d",what,e,R0.open_e,R0.n,R0.e);
	if(e && im) mc_fail("contract","%s: images left set after error %d",what,e);
	if(!e && (ni != (size_t)R0.n || w != R0.w || h != R0.h)) mc_fail("inconsistent","%s: as a whole %zu frames of %zux%zu, frame by frame %d of %zux%zu",what,ni,w,h,R0.n,R0.w,R0.h);
	free(im); source_close(&s);
	mc_trace("%s: error %d, %zux%zu, %d frames, then error %d",what,R0.open_e,R0.w,R0.h,R0.n,R0.e);
}
static void must_reject(const char* what) { if(!R0.open_e) mc_fail("accepted","%s: opens as %zux%zu",what,R0.w,R0.h); }

static const char* const toks[] = {"","0","-1","x","0x10","00","1.5","4294967296","18446744073709551615","18446744073709551616","99999999999999999999999999","256","1000","65535","65536","65537","65791","4294967297","+2","2x","nan","7","17","33"," 2"};
#define NTOK ((int)(sizeof toks/sizeof *toks))
static bool digits(const char* s) { if(!*s) return false; for(; *s; s++) if(*s < '0' || *s > '9') return false; return true; }

static void bad(void) {
	struct pic p; char what[300]; int fam = mc_choose(7);
	if(fam == 0) {
		/* every strict prefix */
		int f = mc_choose(NFMT), n = 1+mc_choose(3); if(!f && n > 1) mc_skip();
		static const size_t ww[] = {1,3,5}; size_t w = MC_PICK(ww), h = 1+mc_choose(2);
		mk_any(&p,f,n,w,h);
		size_t cut = mc_choose(p.b.n);
		mc_mine();
		snprintf(what,sizeof what,"%s %zux%zu of %d frames, first %zu bytes of %zu",fmt_name[f],w,h,p.n,cut,p.b.n);
		consistent(what,p.b.p,cut,p.ext,p.reader);
		if(cut < p.hdr) must_reject(what);
		else {
			int full = 0; while(full < p.n && p.end[full+1] <= cut) full++;
			bool boundary = cut == p.end[full] && !(f <= 4 && full == 0);
			if(R0.open_e) mc_fail("rejected","%s: complete header refused with error %d",what,R0.open_e);
			if(R0.n != full || R0.end != boundary) mc_fail("truncated","%s: %d frames, then %s %d; %d are complete%s",what,R0.n,R0.end ? "the end" : "error",R0.e,full,boundary ? " and it ends between frames" : "");
			for(int i = 0; i < full; i++) check_frame(what,&p,i,R0.px[i]);
		}
		mc_outcome(mc_hashi(f*1000+cut,w*10+h)); mc_nontriv++;
	}
	else if(fam == 1) {
		/* every byte of the header replaced by every value */
		int f = mc_choose(NFMT); mk_any(&p,f,1,3,2);
		size_t at = mc_choose(p.hdr); int v = mc_choose(256);
		mc_mine();
		snprintf(what,sizeof what,"%s, header byte %zu replaced by 0x%02x",fmt_name[f],at,v);
		unsigned char o = p.b.p[at]; p.b.p[at] = v;
		consistent(what,p.b.p,p.b.n,p.ext,p.reader);
		size_t magic = f >= 5 ? 10 : 2;
		if(v != o && at < magic && !(f >= 1 && f <= 4 && at == 1 && (v == 'f' || v == 'F'))) must_reject(what);
		mc_outcome(mc_hashi(f*1000+at,v)); mc_nontriv += v != o;
	}
	else if(fam == 2) {
		/* PGM and PFM: every pair of tokens in place of the numbers */
		int kind = mc_choose(3), a = mc_choose(NTOK+1), b = mc_choose(NTOK+1), c = mc_choose(NTOK+1);
		if(!mc_tier && a < NTOK && b < NTOK && c < NTOK) mc_skip();
		mc_mine();
		const char* ta = a < NTOK ? toks[a] : "3",* tb = b < NTOK ? toks[b] : "2",* tc = c < NTOK ? toks[c] : kind ? "-1.0" : "255";
		struct buf bb = {0};
		buf_fmt(&bb,"%s\n%s %s\n%s\n",kind == 0 ? "P5" : kind == 1 ? "Pf" : "PF",ta,tb,tc);
		for(int i = 0; i < 80; i++) buf_byte(&bb,i*7);
		snprintf(what,sizeof what,"%s with numbers \"%s\" \"%s\" \"%s\"",kind == 0 ? "PGM" : "PFM",ta,tb,tc);
		consistent(what,bb.p,bb.n,kind ? "pfm" : "pgm",kind ? "PFM" : "PGM");
		const char* const t[2] = {ta,tb};
		bool okw[2]; for(int i = 0; i < 2; i++) { const char* s = t[i]; if(*s == ' ') s++; if(*s == '+') s++; okw[i] = digits(s) && strtoull(s,NULL,10) && strlen(s) < 20; }
		bool badnum = false;
		/* a token that is empty shifts the others: no verdict */
		if(!*ta || !*tb || !*tc || (kind && !strcmp(tb,"1.5"))) ; /* "1.5" may be read as a height of 1 and a scale of .5 */
		else {
			for(int i = 0; i < 2; i++) if(!okw[i]) badnum = true;
			if(!kind) { const char* s = tc; if(*s == ' ') s++; if(*s == '+') s++; if(!digits(s) || strlen(s) > 9 || atoi(s) < 1 || atoi(s) > 255) badnum = true; }
			if(badnum) must_reject(what);
			else if(!kind && okw[0] && okw[1] && strtoull(ta,NULL,10) <= 33 && strtoull(tb,NULL,10) <= 33 && R0.open_e) mc_fail("rejected","%s: error %d",what,R0.open_e);
		}
		free(bb.p); mc_outcome(mc_hashi(kind*100+a,b*100+c)); mc_nontriv++;
	}
	else if(fam == 3) {
		/* Y4M: tokens for sizes, colour spaces, missing parameters */
		static const char* const cs[] = {"Cmono","C420p7","C420p17","C420p0","Cmono7","Cmono17","C9","Cfoo","C","C42","C440","C42O","C420p99999999999","Cmono99999999999999999999","C420p8","C444p4294967304"};
		static const int csbad[] = {0,1,1,1,1,1,1,1,1,1,1,1,1,1,0,1};
		int a = mc_choose(NTOK+2), b = mc_choose(NTOK+2), c = mc_choose(16);
		mc_mine();
		struct buf bb = {0}; buf_str(&bb,"YUV4MPEG2");
		if(a <= NTOK) buf_fmt(&bb," W%s",a < NTOK ? toks[a] : "3");
		if(b <= NTOK) buf_fmt(&bb," H%s",b < NTOK ? toks[b] : "2");
		buf_fmt(&bb," %s\nFRAME\n",cs[c]);
		for(int i = 0; i < 90; i++) buf_byte(&bb,i*5);
		snprintf(what,sizeof what,"Y4M with header %.*s",(int)(strchr((char*)bb.p,'\n')-(char*)bb.p),bb.p);
		consistent(what,bb.p,bb.n,"y4m","Y4M");
		bool odd = false; /* a number followed by something else swallows what comes next: no verdict */
		for(int i = 0; i < 2; i++) { int k = i ? b : a; odd |= k < NTOK && (!*toks[k] || !strcmp(toks[k],"2x") || !strcmp(toks[k],"0x10") || !strcmp(toks[k],"1.5")); }
		for(int i = 0; i < 2 && !odd; i++) {
			int k = i ? b : a; const char* s = k < NTOK ? toks[k] : k == NTOK ? "3" : "";
			if(*s == ' ' || *s == '+') continue;
			if(!digits(s) || !strtoull(s,NULL,10) || strlen(s) >= 20) must_reject(what);
		}
		if(!odd && csbad[c] && strcmp(cs[c],"C")) must_reject(what);
		free(bb.p); mc_outcome(mc_hashi(a*100+b,c)); mc_nontriv++;
	}
	else if(fam == 4) {
		/* damaged frame headers: every byte of the second frame's header replaced; another size there; trailing bytes */
		int f = 1+mc_choose(NFMT-1); mk_any(&p,f,3,3,2);
		size_t hl = 0; const unsigned char* q = p.b.p+p.end[1];
		hl = f >= 5 ? 6+3*(f == 6) : p.hdr;
		(void)q;
		size_t at = mc_choose(hl+1); int v = mc_choose(256);
		if(at == hl && v > 8) mc_skip();
		mc_mine();
		if(at < hl) {
			unsigned char o = p.b.p[p.end[1]+at]; p.b.p[p.end[1]+at] = v;
			snprintf(what,sizeof what,"%s of 3 frames, byte %zu of the second frame's header replaced by 0x%02x",fmt_name[f],at,v);
			consistent(what,p.b.p,p.b.n,p.ext,p.reader);
			if(R0.open_e || R0.n < 1) mc_fail("rejected","%s: error %d, %d frames",what,R0.open_e,R0.n);
			check_frame(what,&p,0,R0.px[0]);
			size_t magic = f >= 5 ? 5 : 2;
			if(v != o && at < magic && !(f < 5 && at == 1 && (v == 'f' || v == 'F')) && (R0.n != 1 || R0.end)) mc_fail("accepted","%s: %d frames are read, then %s",what,R0.n,R0.end ? "the end" : "an error");
		}
		else {
			/* trailing bytes after the last frame */
			static const char* const tr[] = {"\n","F","FRAM","FRAME","P","Pf","Pf\n3 2\n","Pf\n2 3\n-1.0\n                                                                        ","garbage"};
			buf_str(&p.b,tr[v]);
			snprintf(what,sizeof what,"%s of 3 frames followed by \"%s\"",fmt_name[f],tr[v]);
			consistent(what,p.b.p,p.b.n,p.ext,p.reader);
			if(R0.n != 3 || R0.end) mc_fail("accepted","%s: %d frames are read, then %s",what,R0.n,R0.end ? "the end" : "an error");
			for(int i = 0; i < 3; i++) check_frame(what,&p,i,R0.px[i]);
		}
		mc_outcome(mc_hashi(f*1000+at,v)); mc_nontriv++;
	}
	else if(fam == 6) {
		/* frames larger than any buffer, cut near the borders of what a buffer may hold */
		static const size_t near[] = {0,1,255,256,257,511,512,513,1023,1024,1025,2048,4095,4096,4097,8191,8192,8193,16384,32767,32768,32769,65535,65536,65537,100000,131072};
		int f = mc_choose(NFMT), z = mc_choose(MC_Q(6,12)), fr = mc_choose(f ? 2 : 1), back = mc_choose(2), k = mc_choose(27);
		mc_mine();
		mk_any(&p,f,f ? 2 : 1,large_sizes[z+6].w,large_sizes[z+6].h);
		size_t size = p.end[fr+1]-p.end[fr], cut = back ? p.end[fr+1]-near[k] : p.end[fr]+near[k];
		if(near[k] > size) { pic_free(&p); return; }
		snprintf(what,sizeof what,"%s %zux%zu of %d frames, first %zu bytes of %zu",fmt_name[f],p.w,p.h,p.n,cut,p.b.n);
		consistent(what,p.b.p,cut,p.ext,p.reader);
		if(cut < p.hdr) must_reject(what);
		else {
			int full = 0; while(full < p.n && p.end[full+1] <= cut) full++;
			bool boundary = cut == p.end[full] && !(f <= 4 && full == 0);
			if(R0.open_e) mc_fail("rejected","%s: complete header refused with error %d",what,R0.open_e);
			if(R0.n != full || R0.end != boundary) mc_fail("truncated","%s: %d frames, then %s %d; %d are complete%s",what,R0.n,R0.end ? "the end" : "error",R0.e,full,boundary ? " and it ends between frames" : "");
		}
		mc_outcome(mc_hashi(f*1000+z,cut)); mc_nontriv++;
	}
	else {
		/* other formats' magic, one format's bytes given to another's reader, near misses */
		static const char* const heads[] = {"P2\n3 2\n255\n1 2 3 4 5 6\n","P6\n1 1\n255\nabc","P4\n8 1\nA","P7\nWIDTH 1\n","3 2 255\n1234567890","P\n5 3 2 255\nabcdefghijklm","P 5\n3 2\n255\nabcdef","p5\n3 2\n255\nabcdef"," P5\n3 2\n255\nabcdef","PG\n3 2\n-1.0\nabcdefghijklmnopqrstuvwxyz",
			"pf\n3 2\n-1.0\nabcdefghijklmnopqrstuvwxyz","yuv4mpeg2 W3 H2 Cmono\nFRAME\nabcdef","YUV4MPEG3 W3 H2 Cmono\nFRAME\nabcdef","YUV4MPEG2\nFRAME\n","YUV4MPEG2 \nFRAME\n","\x89PNG\r\n\x1a\n","\xff\xd8\xff\xe0","GIF89a","","\n","P5","P5\n","P5\n#","P5\n# no end","Pf\n#","P5 3 2 255","Pf 3 2 -1","P53 2 255 abcdef","P512 1 255 abcdefghijklm"};
		int k = mc_choose(29), r = mc_choose(3);
		mc_mine();
		static const char* const ext[] = {"pgm","pfm","y4m"},* const rd[] = {"PGM","PFM","Y4M"};
		snprintf(what,sizeof what,"\"%.20s...\" given to the %s reader",heads[k],rd[r]);
		consistent(what,(const void*)heads[k],strlen(heads[k]),ext[r],rd[r]);
		if(k < 27 || r) must_reject(what); /* "P53 2 255 " is a header without separator: no verdict */
		mc_outcome(mc_hashi(k,r)); mc_nontriv++;
		return;
	}
	if(mc_want_sample()) mc_sample("%s: error %d, %d frames, then error %d",what,R0.open_e,R0.n,R0.e);
	if(fam < 2 || fam == 4 || fam == 6) pic_free(&p);
}

static void mc_case(void) {
	if(!strcmp(mc_mode,"decode")) decode();
	else if(!strcmp(mc_mode,"cursor")) cursor();
	else bad();
}
