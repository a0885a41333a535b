/*
 * C21: files read by way of FFmpeg and ImageMagick.
 * The real readers on the real libraries.  The calls from the readers into the libraries pass through wrappers (--wrap), which are
 * transparent unless an execution asks for a fault or for another schedule of the decoder; read(2) is taken over to fail the
 * reading of a file.
 *
 * Modes: cursor (operation sequences), sched (decoder schedules), mix (frames of differing size and format), fault (failing library
 * calls and file reads), equal (agreement with the native readers).
 */
#include "mc.h"
#include <resdet.h>
#include <malloc.h>
#include <dlfcn.h>
#include <libavcodec/avcodec.h>
#include <libavformat/avformat.h>
#include <libavutil/opt.h>
#include <libavutil/imgutils.h>
#include <libswscale/swscale.h>
#include <libavutil/pixdesc.h>
#include <wand/MagickWand.h>
#include "io.h"

/* ---- faults, objects ---- */
static int armed, fault_at, fault_at2, fault_err, ncalls; static bool faulted; static const char* fault_name; static int fault_kind;
enum {K_OPEN,K_PTR,K_READ,K_SEND,K_RECV,K_SCALE,K_MREAD,K_MEXPORT};
#define LIB(e) ({ armed++; __auto_type r_ = (e); armed--; r_; })
static bool hit(const char* name, int kind) {
	if(!armed || ++ncalls != fault_at && ncalls != fault_at2) return false;
	if(!faulted) fault_name = name, fault_kind = kind;
	faulted = true;
	mc_trace("  (%s fails)",name);
	return true;
}
static void* live[256]; static const char* live_what[256]; static int nlive;
static void* born(void* p, const char* what) { if(p && armed) { live_what[nlive] = what; live[nlive++] = p; } return p; }
static void dies(void* p) { for(int i = 0; i < nlive; i++) if(live[i] == p) { live[i] = live[--nlive]; live_what[i] = live_what[nlive]; return; } }
static const int averrs[] = {AVERROR(EIO),AVERROR(ENOMEM),AVERROR_INVALIDDATA};

/* ---- the decoder's schedule ---- */
static bool sched; static AVFrame* held[64]; static int nheld, sched_left; static bool draining;
static void unhold(void) { while(nheld) av_frame_free(&held[--nheld]); draining = false; }

#define W(type,name,params) type __real_##name params; type __wrap_##name params
W(void*,malloc,(size_t n)) { return hit("malloc",K_PTR) ? NULL : born(__real_malloc(n),"malloc"); }
W(void,free,(void* p)) { dies(p); __real_free(p); }
W(int,avformat_open_input,(AVFormatContext** f, const char* u, const AVInputFormat* i, AVDictionary** o)) {
	if(hit("avformat_open_input",K_OPEN)) { avformat_free_context(*f); *f = NULL; return averrs[fault_err]; }
	int r = __real_avformat_open_input(f,u,i,o); if(!r) born(*f,"AVFormatContext"); return r;
}
W(void,avformat_close_input,(AVFormatContext** f)) { if(f) dies(*f); __real_avformat_close_input(f); }
W(int,avformat_find_stream_info,(AVFormatContext* f, AVDictionary** o)) { return hit("avformat_find_stream_info",K_OPEN) ? averrs[fault_err] : __real_avformat_find_stream_info(f,o); }
W(int,av_find_best_stream,(AVFormatContext* f, enum AVMediaType t, int a, int b, const AVCodec** d, int fl)) { return hit("av_find_best_stream",K_OPEN) ? (fault_err ? fault_err == 1 ? AVERROR_DECODER_NOT_FOUND : AVERROR(ENOMEM) : AVERROR_STREAM_NOT_FOUND) : __real_av_find_best_stream(f,t,a,b,d,fl); }
W(AVCodecContext*,avcodec_alloc_context3,(const AVCodec* c)) { return hit("avcodec_alloc_context3",K_PTR) ? NULL : born(__real_avcodec_alloc_context3(c),"AVCodecContext"); }
W(void,avcodec_free_context,(AVCodecContext** c)) { if(c) dies(*c); if(armed) unhold(); __real_avcodec_free_context(c); }
W(int,avcodec_parameters_to_context,(AVCodecContext* c, const AVCodecParameters* p)) { return hit("avcodec_parameters_to_context",K_OPEN) ? averrs[fault_err] : __real_avcodec_parameters_to_context(c,p); }
W(int,avcodec_open2,(AVCodecContext* c, const AVCodec* k, AVDictionary** o)) { return hit("avcodec_open2",K_OPEN) ? averrs[fault_err] : __real_avcodec_open2(c,k,o); }
W(struct SwsContext*,sws_alloc_context,(void)) { return hit("sws_alloc_context",K_PTR) ? NULL : born(__real_sws_alloc_context(),"SwsContext"); }
W(int,sws_init_context,(struct SwsContext* s, SwsFilter* a, SwsFilter* b)) { return hit("sws_init_context",K_OPEN) ? averrs[fault_err] : __real_sws_init_context(s,a,b); }
W(void,sws_freeContext,(struct SwsContext* s)) { dies(s); __real_sws_freeContext(s); }
W(int,sws_scale_frame,(struct SwsContext* s, AVFrame* d, const AVFrame* f)) { return hit("sws_scale_frame",K_SCALE) ? averrs[fault_err] : __real_sws_scale_frame(s,d,f); }
W(AVFrame*,av_frame_alloc,(void)) { return hit("av_frame_alloc",K_PTR) ? NULL : born(__real_av_frame_alloc(),"AVFrame"); }
W(void,av_frame_free,(AVFrame** f)) { if(f) dies(*f); __real_av_frame_free(f); }
W(AVPacket*,av_packet_alloc,(void)) { return hit("av_packet_alloc",K_PTR) ? NULL : born(__real_av_packet_alloc(),"AVPacket"); }
W(void,av_packet_free,(AVPacket** p)) { if(p) dies(*p); __real_av_packet_free(p); }
W(int,av_read_frame,(AVFormatContext* f, AVPacket* p)) {
	if(hit("av_read_frame",K_READ)) {
		if(fault_err == 0 && f->pb) f->pb->error = AVERROR(EIO); /* as the library leaves it */
		return averrs[fault_err];
	}
	return __real_av_read_frame(f,p);
}
W(int,avcodec_send_packet,(AVCodecContext* c, const AVPacket* p)) {
	if(hit("avcodec_send_packet",K_SEND)) return averrs[fault_err];
	if(armed && (!p || !p->size)) draining = true;
	return __real_avcodec_send_packet(c,p);
}
W(int,avcodec_receive_frame,(AVCodecContext* c, AVFrame* f)) {
	if(hit("avcodec_receive_frame",K_RECV)) return averrs[fault_err];
	if(!sched || !armed) return __real_avcodec_receive_frame(c,f);
	/* a decoder may take any number of packets before it gives a frame, and give several for one packet */
	int r;
	for(;;) {
		AVFrame* n = __real_av_frame_alloc();
		if((r = __real_avcodec_receive_frame(c,n))) { __real_av_frame_free(&n); break; }
		held[nheld++] = n;
	}
	av_frame_unref(f);
	if(!nheld) return r;
	if(r == AVERROR(EAGAIN) && !draining && sched_left > 0) { sched_left--; if(mc_choose(2)) { mc_trace("  (decoder holds %d)",nheld); return AVERROR(EAGAIN); } }
	av_frame_move_ref(f,held[0]); __real_av_frame_free(&held[0]);
	memmove(held,held+1,--nheld*sizeof *held);
	return 0;
}
W(MagickWand*,NewMagickWand,(void)) { return born(__real_NewMagickWand(),"MagickWand"); }
W(MagickWand*,DestroyMagickWand,(MagickWand* w)) { dies(w); return __real_DestroyMagickWand(w); }
static ExceptionType forced;
static const ExceptionType mexc[] = {FileOpenError,ResourceLimitError,CorruptImageError};
W(MagickBooleanType,MagickReadImage,(MagickWand* w, const char* n)) {
	if(hit("MagickReadImage",K_MREAD)) { forced = mexc[fault_err]; errno = ENOENT; return MagickFalse; }
	return __real_MagickReadImage(w,n);
}
W(char*,MagickGetException,(const MagickWand* w, ExceptionType* e)) { char* r = __real_MagickGetException(w,e); if(armed && forced) *e = forced; return r; }
W(MagickBooleanType,MagickExportImagePixels,(MagickWand* w, ssize_t x, ssize_t y, size_t c, size_t r, const char* m, StorageType s, void* p)) { return hit("MagickExportImagePixels",K_MEXPORT) ? MagickFalse : __real_MagickExportImagePixels(w,x,y,c,r,m,s,p); }

/* file reads by libavformat come here */
static int io_at, nio; static bool io_hit;
ssize_t read(int fd, void* b, size_t n) {
	static ssize_t (*real)(int,void*,size_t);
	if(!real) real = dlsym(RTLD_NEXT,"read");
	if(armed && ++nio == io_at) { io_hit = true; mc_trace("  (read fails)"); errno = EIO; return -1; }
	return real(fd,b,n);
}

/* ---- files ---- */
struct src { const char* name,* ext; char path[300]; bool ff, mw, gray; int n; size_t w, h; float* want[8]; };
static struct src S[24]; static int nS;
static uint8_t px(int f, int x, int y) { return 20+37*(f+f*f%3)+3*x+5*y; }
static void die(const char* what) { fprintf(stderr,"mc: cannot make %s\n",what); _exit(70); }
static void spit(const char* path, const void* p, size_t n, bool app) { FILE* f = fopen(path,app ? "ab" : "wb"); if(!f || fwrite(p,1,n,f) != n) die(path); fclose(f); }

/* everything a file has, decoded and converted apart from the reader */
static void decode(struct src* s) {
	AVFormatContext* f = NULL; const AVCodec* c; int st;
	if(avformat_open_input(&f,s->path,NULL,NULL) || avformat_find_stream_info(f,NULL) < 0 || (st = av_find_best_stream(f,AVMEDIA_TYPE_VIDEO,-1,-1,&c,0)) < 0) die(s->name);
	AVCodecContext* cc = avcodec_alloc_context3(c); avcodec_parameters_to_context(cc,f->streams[st]->codecpar);
	if(avcodec_open2(cc,c,NULL)) die(s->name);
	AVPacket* p = av_packet_alloc(); AVFrame* fr = av_frame_alloc(); int n = 0; bool flush = false;
	for(;;) {
		int r = avcodec_receive_frame(cc,fr);
		if(!r) {
			struct SwsContext* sw = sws_getContext(fr->width,fr->height,fr->format,fr->width,fr->height,AV_PIX_FMT_GRAYF32,SWS_BICUBIC,NULL,NULL,NULL);
			int ls = FFALIGN(fr->width*4,64); uint8_t* o = av_malloc(ls*fr->height+64);
			sws_scale(sw,(const uint8_t* const*)fr->data,fr->linesize,0,fr->height,(uint8_t*[4]){o},(int[4]){ls});
			sws_freeContext(sw);
			s->w = fr->width; s->h = fr->height;
			if(n >= 8) die(s->name);
			s->want[n] = malloc(s->w*s->h*sizeof(float));
			for(size_t y = 0; y < s->h; y++) memcpy(s->want[n]+y*s->w,o+y*ls,s->w*4);
			av_free(o); n++;
		}
		else if(r == AVERROR_EOF) break;
		else if(r != AVERROR(EAGAIN) || flush) die(s->name);
		else {
			while(!(r = av_read_frame(f,p)) && p->stream_index != st) av_packet_unref(p);
			if(r) { flush = true; avcodec_send_packet(cc,NULL); } else { avcodec_send_packet(cc,p); av_packet_unref(p); }
		}
	}
	s->n = n;
	av_frame_free(&fr); av_packet_free(&p); avcodec_free_context(&cc); avformat_close_input(&f);
}

static struct src* newsrc(const char* name, const char* ext, bool ff, bool mw) {
	struct src* s = &S[nS]; *s = (struct src){.name = name, .ext = ext, .ff = ff, .mw = mw};
	snprintf(s->path,sizeof s->path,"%s/av%d-%d.%s",mc_scratch,(int)getpid(),nS,ext); nS++;
	return s;
}
static void gray_want(struct src* s, size_t w, size_t h, int n) {
	s->w = w; s->h = h; s->n = n; s->gray = true;
	for(int f = 0; f < n; f++) { s->want[f] = malloc(w*h*sizeof(float)); for(size_t i = 0; i < w*h; i++) s->want[f][i] = px(f,i%w,i/w)/255.f; }
}
static void pnm(const char* path, bool app, int kind, size_t w, size_t h, int f) {
	uint8_t b[8192]; int n = sprintf((char*)b,"P%d\n%zu %zu\n255\n",kind ? 6 : 5,w,h);
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) for(int k = 0; k < (kind ? 3 : 1); k++) b[n++] = kind ? px(f,x,y)*(k+1)/3 : px(f,x,y);
	spit(path,b,n,app);
}
static void encode(struct src* s, const char* mux, const char* codec, enum AVPixelFormat fmt, int w, int h, int n, const char* opts, int bframes, int audio) {
	AVFormatContext* f; if(avformat_alloc_output_context2(&f,NULL,mux,s->path) < 0) die(s->name);
	AVStream* as = NULL;
	if(audio < 0) { /* another picture, smaller */
		as = avformat_new_stream(f,NULL);
		as->codecpar->codec_type = AVMEDIA_TYPE_VIDEO; as->codecpar->codec_id = AV_CODEC_ID_RAWVIDEO; as->codecpar->codec_tag = avcodec_pix_fmt_to_codec_tag(AV_PIX_FMT_GRAY8); as->codecpar->format = AV_PIX_FMT_GRAY8; as->codecpar->width = 4; as->codecpar->height = 3; as->time_base = (AVRational){1,25};
	}
	if(audio > 0) {
		as = avformat_new_stream(f,NULL);
		as->codecpar->codec_type = AVMEDIA_TYPE_AUDIO; as->codecpar->codec_id = AV_CODEC_ID_PCM_U8; as->codecpar->format = AV_SAMPLE_FMT_U8; as->codecpar->sample_rate = 8000; av_channel_layout_default(&as->codecpar->ch_layout,1);
		as->codecpar->bits_per_coded_sample = 8; as->codecpar->block_align = 1; as->time_base = (AVRational){1,8000};
	}
	const AVCodec* c = avcodec_find_encoder_by_name(codec); AVCodecContext* cc = avcodec_alloc_context3(c);
	cc->width = w; cc->height = h; cc->pix_fmt = fmt; cc->time_base = (AVRational){1,25}; cc->framerate = (AVRational){25,1}; cc->max_b_frames = bframes; cc->gop_size = 12; cc->thread_count = 1; cc->flags |= AV_CODEC_FLAG_BITEXACT; cc->bit_rate = 4000000;
	if(f->oformat->flags & AVFMT_GLOBALHEADER) cc->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
	f->flags |= AVFMT_FLAG_BITEXACT;
	AVDictionary* d = NULL; av_dict_parse_string(&d,opts,"=",":",0);
	if(avcodec_open2(cc,c,&d) < 0) die(s->name);
	av_dict_free(&d);
	AVStream* st = avformat_new_stream(f,NULL); avcodec_parameters_from_context(st->codecpar,cc); st->time_base = cc->time_base; st->avg_frame_rate = cc->framerate;
	if(avio_open(&f->pb,s->path,AVIO_FLAG_WRITE) < 0 || avformat_write_header(f,NULL) < 0) die(s->name);
	AVPacket* p = av_packet_alloc();
	for(int i = 0; i <= n; i++) {
		AVFrame* fr = NULL;
		if(i < n) {
			fr = av_frame_alloc(); fr->width = w; fr->height = h; fr->format = fmt; fr->pts = i; av_frame_get_buffer(fr,0);
			for(int k = 0; k < 4 && fr->data[k]; k++) { int ph = k == 1 || k == 2 ? AV_CEIL_RSHIFT(h,fmt == AV_PIX_FMT_YUV420P ? 1 : 0) : h; if(fr->linesize[k]) for(int y = 0; y < ph; y++) for(int x = 0; x < fr->linesize[k]; x++) fr->data[k][y*fr->linesize[k]+x] = k ? 128 : px(i,x%w,y); }
			if(audio < 0) for(int k = 0; k < i%3; k++) { uint8_t z[12]; memset(z,i,12); av_new_packet(p,12); memcpy(p->data,z,12); p->stream_index = as->index; p->pts = p->dts = i*3+k; p->flags |= AV_PKT_FLAG_KEY; if(av_write_frame(f,p) < 0) die(s->name); av_packet_unref(p); }
			if(audio > 0) for(int k = 0; k < (audio > 1 && i == n/2 ? audio : i%3+1); k++) { uint8_t z[160]; memset(z,i,160); av_new_packet(p,160); memcpy(p->data,z,160); p->stream_index = as->index; p->pts = p->dts = av_rescale_q(i,cc->time_base,as->time_base)+k*160; p->duration = 160; av_write_frame(f,p); av_packet_unref(p); }
		}
		if(avcodec_send_frame(cc,fr) < 0) die(s->name);
		av_frame_free(&fr);
		while(!avcodec_receive_packet(cc,p)) { av_packet_rescale_ts(p,cc->time_base,st->time_base); p->stream_index = st->index; if(av_write_frame(f,p) < 0) die(s->name); av_packet_unref(p); }
	}
	if(av_write_trailer(f)) die(s->name);
	av_packet_free(&p); avcodec_free_context(&cc); avio_closep(&f->pb); avformat_free_context(f);
}
static void magick_write(struct src* s, int w, int h, int n) {
	MagickWand* m = NewMagickWand();
	for(int f = 0; f < n; f++) { uint8_t b[4096]; for(int i = 0; i < w*h; i++) b[i] = px(f,i%w,i/w); MagickConstituteImage(m,w,h,"I",CharPixel,b); }
	if(MagickWriteImages(m,s->path,MagickTrue) == MagickFalse) die(s->name);
	DestroyMagickWand(m);
}
static void setup(void) {
	av_log_set_level(AV_LOG_QUIET);
	MagickWandGenesis();
	struct src* s;
	s = newsrc("one PGM","pgm",true,true); pnm(s->path,false,0,5,4,0); gray_want(s,5,4,1);
	s = newsrc("three PGMs","pgm",true,true); for(int i = 0; i < 3; i++) pnm(s->path,i,0,5,4,i); gray_want(s,5,4,3);
	s = newsrc("GIF of 4","gif",true,true); encode(s,"gif","gif",AV_PIX_FMT_GRAY8,5,4,4,"gifflags=0",0,false); decode(s);
	if(s->n != 4) die(s->name);
	s = newsrc("NUT of 4 with sound","nut",true,false); encode(s,"nut","rawvideo",AV_PIX_FMT_GRAY8,5,4,4,"",0,true); gray_want(s,5,4,4);
	s = newsrc("TIFF of 3","tiff",false,true); magick_write(s,5,4,3); gray_want(s,5,4,3);
	s = newsrc("FFV1 of 3","mkv",true,false); encode(s,"matroska","ffv1",AV_PIX_FMT_GRAY8,5,4,3,"",0,false); gray_want(s,5,4,3);
	s = newsrc("MPEG-4 of 6","avi",true,false); encode(s,"avi","mpeg4",AV_PIX_FMT_YUV420P,32,16,6,"",2,false); decode(s); if(s->n != 6) die(s->name);
	s = newsrc("H.264 of 7","mkv",true,false); encode(s,"matroska","libx264",AV_PIX_FMT_YUV420P,32,16,7,"qp=0",2,false); decode(s); if(s->n != 7) die(s->name);
	s = newsrc("MPEG-2 of 5","ts",true,false); encode(s,"mpegts","mpeg2video",AV_PIX_FMT_YUV420P,32,16,5,"",2,false); decode(s); if(s->n != 5) die(s->name);
	s = newsrc("APNG of 3","apng",true,false); encode(s,"apng","apng",AV_PIX_FMT_GRAY8,5,4,3,"pred=none",0,false); decode(s); if(s->n != 3) die(s->name);
	s = newsrc("MJPEG of 3","avi",true,false); encode(s,"avi","mjpeg",AV_PIX_FMT_YUVJ420P,24,16,3,"",0,false); decode(s); if(s->n != 3) die(s->name);
	s = newsrc("PNMs gray and colour in turn","pnm",true,false); for(int i = 0; i < 4; i++) pnm(s->path,i,i & 1,5,4,i); decode(s); if(s->n != 4) die(s->name);
	s = newsrc("NUT of 4 with another picture","nut",true,false); encode(s,"nut","rawvideo",AV_PIX_FMT_GRAY8,5,4,4,"",0,-1); gray_want(s,5,4,4);
	s = newsrc("MIFF of 4","miff",false,true); magick_write(s,5,4,4); gray_want(s,5,4,4);
}
static const char* const reader_name[] = {"FFmpeg","MagickWand"};

/* the frame read is frame f of the file; GIF and the like, converted from colour, by order and not by value for the other reader */
static bool is_frame(const struct src* s, int reader, int f, const float* b) {
	double tol = s->gray ? 1.5e-6 : 0.02;
	if(!s->gray && reader == 1) { for(size_t i = 0; i < s->w*s->h; i++) if(!(fabs(b[i]-px(f,i%s->w,i/s->w)/255.) < 1e-5)) return false; return true; }
	for(size_t i = 0; i < s->w*s->h; i++) if(!(fabs(b[i]-s->want[f][i]) <= tol)) return false;
	return true;
}
struct cur { const struct src* s; int reader, pos; RDImage* im; float* b; size_t w, h; RDError e; };
static const char* cur_name(const struct cur* c) { static char t[200]; snprintf(t,sizeof t,"%s by %s",c->s->name,reader_name[c->reader]); return t; }
static int stdin_save = -1;
static bool cur_open(struct cur* c, const struct src* s, int reader, bool via_stdin) {
	*c = (struct cur){.s = s, .reader = reader, .e = 77, .w = 9, .h = 9, .b = (void*)1};
	mc_step();
	const char* name = s->path;
	if(via_stdin) { int fd = open(s->path,O_RDONLY); dup2(fd,0); close(fd); name = "-"; }
	c->im = LIB(resdet_open_image_with_reader(name,reader_name[reader],&c->w,&c->h,&c->b,&c->e));
	mc_trace("open %s -> %s error %d, %zux%zu",cur_name(c),c->im ? "image" : "NULL",c->e,c->w,c->h);
	if(!c->im != !!c->e) mc_fail("open-result","%s: opening returns %s with error %d",cur_name(c),c->im ? "an image" : "NULL",c->e);
	if(!c->im && (c->w || c->h || c->b)) mc_fail("open-outputs","%s: a failure (error %d) leaves %zux%zu, buffer %p",cur_name(c),c->e,c->w,c->h,(void*)c->b);
	if(c->im && (c->w != s->w || c->h != s->h)) mc_fail("open-size","%s: opened as %zux%zu, is %zux%zu",cur_name(c),c->w,c->h,s->w,s->h);
	return c->im;
}
static void cur_close(struct cur* c) {
	armed++; resdet_close_image(c->im); if(c->b) free(c->b); armed--; mc_step();
	if(nlive) mc_fail("leak","%s: after closing, %s is still held",cur_name(c),live_what[0]);
}
static uint64_t prog_n; static bool prog_bad; static void* prog_ctx;
static void progress(void* p, uint64_t k) { if(k != prog_n+1 || p != prog_ctx) prog_bad = true; prog_n++; }
static const uint64_t seeks[] = {0,1,2,(uint64_t)1 << 40};
static void cur_op(struct cur* c, int op) {
	int n = c->s->n; RDError e = 77; mc_step();
	if(!op) {
		bool r = LIB(resdet_read_image_frame(c->im,c->b,&e));
		mc_trace("  read at %d of %d -> %d error %d",c->pos,n,r,e);
		if(e) mc_fail("read-error","%s: read at frame %d of %d gives error %d",cur_name(c),c->pos,n,e);
		if(r != (c->pos < n)) mc_fail("read-result","%s: read at frame %d of %d returns %s",cur_name(c),c->pos,n,r ? "true" : "false");
		if(r && !is_frame(c->s,c->reader,c->pos,c->b)) mc_fail("read-frame","%s: read at frame %d of %d gives something else (%g %g, not %g %g)",cur_name(c),c->pos,n,c->b[0],c->b[1],c->s->want[c->pos][0],c->s->want[c->pos][1]);
		c->pos += r;
		return;
	}
	static const int what[] = {0,2,3,4,5,7,6}; /* seeks of 0 without, of others with and without progress */
	op = what[op-1]; uint64_t k = seeks[op >> 1]; bool cb = op & 1; int left = n-c->pos;
	prog_n = 0; prog_bad = false; prog_ctx = c;
	bool r = LIB(resdet_seek_frame(c->im,k,cb ? progress : NULL,c,&e));
	mc_trace("  seek %llu at %d of %d -> %d error %d, %llu reported",(unsigned long long)k,c->pos,n,r,e,(unsigned long long)prog_n);
	if(e) mc_fail("seek-error","%s: seek by %llu at frame %d of %d gives error %d",cur_name(c),(unsigned long long)k,c->pos,n,e);
	bool want = k <= (uint64_t)left;
	if(r != want) mc_fail("seek-result","%s: seek by %llu at frame %d of %d returns %s",cur_name(c),(unsigned long long)k,c->pos,n,r ? "true" : "false");
	if(cb && (prog_bad || prog_n != (want ? k : (uint64_t)left))) mc_fail("seek-progress","%s: seek by %llu at frame %d of %d reported %llu frames%s",cur_name(c),(unsigned long long)k,c->pos,n,(unsigned long long)prog_n,prog_bad ? ", out of order" : "");
	c->pos += want ? (int)k : left;
}
static struct src* pick(int* reader) {
	struct src* s = &S[mc_choose(nS)]; *reader = mc_choose(2);
	if(*reader ? !s->mw : !s->ff) mc_skip();
	return s;
}
static void reset(void) { armed = fault_at = fault_at2 = ncalls = io_at = nio = nlive = 0; faulted = io_hit = sched = false; forced = 0; unhold(); errno = 0; }

static void cursor(void) {
	int reader; struct src* s = pick(&reader); bool in = mc_choose(2);
	/* these are not read without seeking in the file */
	if(in && reader == 0 && (!strcmp(s->ext,"apng"))) mc_skip();
	int ops[8], depth = MC_Q(4,5), n = mc_choose(depth+1);
	if(in && !mc_tier && n > 2) mc_skip();
	for(int i = 0; i < n; i++) ops[i] = mc_choose(8);
	mc_mine();
	struct cur c;
	if(!cur_open(&c,s,reader,in)) mc_fail("open","%s: cannot be opened, error %d",cur_name(&c),c.e);
	for(int i = 0; i < n; i++) { cur_op(&c,ops[i]); mc_state(mc_hashi(c.pos,mc_hashi(s-S,reader))); }
	while(c.pos < c.s->n) cur_op(&c,0);
	for(int i = 0; i < 3; i++) cur_op(&c,0);
	cur_op(&c,2); cur_op(&c,3); cur_op(&c,0);
	uint64_t h = mc_hashi(s-S,reader); for(int i = 0; i < n; i++) h = mc_hashi(ops[i],h);
	mc_outcome(h); mc_nontriv += n > 0;
	if(mc_want_sample()) mc_sample("%s, %d operations then drained: every frame once, in order",cur_name(&c),n);
	cur_close(&c);
}

static void schedule(void) {
	int reader; struct src* s = pick(&reader); if(reader) mc_skip();
	static const int scripts[][3] = {{0,0,0},{3,0,0},{0,2,0},{5,0,0},{0,4,3},{6,0,0}};
	int k = mc_choose(6);
	sched = true; sched_left = MC_Q(9,16);
	mc_mine();
	struct cur c;
	if(!cur_open(&c,s,reader,false)) mc_fail("open","%s: cannot be opened, error %d",cur_name(&c),c.e);
	for(int i = 0; i < 3; i++) cur_op(&c,scripts[k][i]);
	while(c.pos < c.s->n) cur_op(&c,0);
	cur_op(&c,0); cur_op(&c,0);
	uint64_t h = mc_hashi(s-S,k); for(int i = 0; i < mc_len; i++) h = mc_hashi(mc_st->ch[i],h);
	mc_outcome(h); mc_nontriv++;
	if(mc_want_sample()) mc_sample("%s, script %d, decoder schedule of %d choices: every frame once, in order",cur_name(&c),k,mc_len-3);
	cur_close(&c);
}

static void mix(void) {
	static const struct { size_t w, h; int kind; const char* what; } fr[] = {{5,4,0,"5x4"},{5,4,1,"5x4 in colour"},{3,4,0,"3x4"},{5,3,0,"5x3"},{9,4,0,"9x4"},{5,8,0,"5x8"},{20,20,1,"20x20 in colour"},{4,5,0,"4x5"},{1,1,0,"1x1"}};
	enum {NF = sizeof fr/sizeof *fr};
	int reader = mc_choose(2), n = 2+mc_choose(MC_Q(2,3)), k[4], first = -1; char what[200] = "";
	for(int i = 0; i < n; i++) { k[i] = mc_choose(NF); sprintf(what+strlen(what),"%s%s",i ? ", " : "",fr[k[i]].what); if(i == 1) mc_mine(); }
	char path[300],one[300]; snprintf(path,sizeof path,"%s/mix%d.pgm",mc_scratch,(int)getpid()); snprintf(one,sizeof one,"%s/one%d.pgm",mc_scratch,(int)getpid());
	for(int i = 0; i < n; i++) pnm(path,i,fr[k[i]].kind,fr[k[i]].w,fr[k[i]].h,i);
	size_t w, h, W = fr[k[0]].w, H = fr[k[0]].h; RDError e; float* b;
	mc_step();
	RDImage* im = LIB(resdet_open_image_with_reader(path,reader_name[reader],&w,&h,&b,&e));
	mc_trace("%s by %s: error %d, %zux%zu",what,reader_name[reader],e,w,h);
	/* what FFmpeg announces is the size of some image, having looked at several */
	bool some = false; for(int i = 0; i < n; i++) if(!reader && fr[k[i]].w == w && fr[k[i]].h == h) { some = true; }
	if(im && some) W = w, H = h;
	if(!im || w != W || h != H) mc_fail("mix-open","images of %s by %s: error %d, %zux%zu",what,reader_name[reader],e,w,h);
	int skip = mc_choose(n);
	for(int i = 0; i < n; i++) {
		bool same = fr[k[i]].w == W && fr[k[i]].h == H; e = 77; mc_step();
		if(i < skip) { if(!LIB(resdet_seek_frame(im,1,NULL,NULL,&e)) || e) mc_fail("mix-seek","images of %s by %s: frame %d cannot be skipped, error %d",what,reader_name[reader],i,e); continue; }
		memset(b,0xa5,w*h*sizeof *b);
		bool r = LIB(resdet_read_image_frame(im,b,&e));
		mc_trace("  frame %d -> %d error %d",i,r,e);
		if(same ? !r || e : r || !e) mc_fail("mix-read","images of %s by %s: reading image %d returns %s with error %d",what,reader_name[reader],i,r ? "true" : "false",e);
		if(!r) { first = i; break; }
		/* the same as if it were alone */
		pnm(one,false,fr[k[i]].kind,W,H,i);
		size_t w1, h1; float* b1; RDImage* im1 = resdet_open_image_with_reader(one,reader_name[reader],&w1,&h1,&b1,&e);
		if(!im1 || !resdet_read_image_frame(im1,b1,&e)) mc_fail("mix-alone","image of %s by %s alone: error %d",fr[k[i]].what,reader_name[reader],e);
		for(size_t j = 0; j < W*H; j++) if(fabsf(b[j]-b1[j]) > 1e-6) mc_fail("mix-value","images of %s by %s: image %d has pixel %zu %g, alone it is %g",what,reader_name[reader],i,j,b[j],b1[j]);
		resdet_close_image(im1); free(b1);
	}
	resdet_close_image(im); free(b);
	/* the whole file at once */
	size_t nn = 9; b = (void*)1; bool bad = false; for(int i = 0; i < n; i++) bad |= fr[k[i]].w != W || fr[k[i]].h != H;
	float* buf = NULL; im = resdet_open_image_with_reader(path,reader_name[reader],&w,&h,&buf,&e);
	int got = 0; while(resdet_read_image_frame(im,buf,&e)) got++;
	if(bad ? !e : e || got != n) mc_fail("mix-whole","images of %s by %s: %d of %d read, error %d",what,reader_name[reader],got,n,e);
	(void)nn;
	resdet_close_image(im); free(buf);
	mc_nontriv += bad; mc_outcome(mc_hash(what,strlen(what),mc_hashi(first,reader)));
	if(mc_want_sample()) mc_sample("images of %s by %s: read up to image %d",what,reader_name[reader],first);
}

/* ---- faults ---- */
/* a script over a file, with a fault somewhere; every failure is reported, nothing is skipped silently, nothing is held afterwards */
static int fault_script(struct src* s, int reader, int script, bool check) {
	struct cur c; int got = 0, errors = 0; bool lost = false; c.pos = 0;
	int before = faulted || io_hit;
	if(!cur_open(&c,s,reader,false)) {
		if(!faulted && !io_hit) mc_fail("open","%s: cannot be opened, error %d",cur_name(&c),c.e);
		if(check && faulted && fault_kind == K_OPEN && strcmp(fault_name,"av_find_best_stream") && (fault_err == 0 && c.e != -EIO || fault_err == 1 && c.e != -ENOMEM && c.e != RDENOMEM))
			mc_fail("fault-code","%s: %s fails with %s, error %d is reported",cur_name(&c),fault_name,fault_err ? "ENOMEM" : "EIO",c.e);
		if(check && faulted && fault_kind == K_PTR && c.e != RDENOMEM && c.e != -ENOMEM) mc_fail("fault-code","%s: %s fails, error %d is reported",cur_name(&c),fault_name,c.e);
		if(check && faulted && fault_kind == K_MREAD && fault_err == 0 && c.e != -ENOENT) mc_fail("fault-code","%s: ImageMagick cannot open the file for ENOENT, error %d is reported",cur_name(&c),c.e);
		if(check && faulted && fault_kind == K_MREAD && fault_err == 1 && c.e != RDENOMEM && c.e != -ENOMEM) mc_fail("fault-code","%s: ImageMagick is out of resources, error %d is reported",cur_name(&c),c.e);
		cur_close(&c);
		return 1;
	}
	if(faulted && fault_kind != K_SCALE && !before) mc_fail("fault-ignored","%s: %s failed, the file was opened",cur_name(&c),fault_name);
	for(int i = 0, ends = 0; ends < 3 && i < 20; i++) {
		RDError e = 77; bool hadf = faulted || io_hit; mc_step();
		if(script == 1 && i == 1) {
			bool r = LIB(resdet_seek_frame(c.im,1,NULL,NULL,&e));
			mc_trace("  seek -> %d error %d",r,e);
			if(r && e) mc_fail("seek-error","%s: seeking succeeds with error %d",cur_name(&c),e);
			if(faulted && !hadf && !e) mc_fail("fault-ignored","%s: %s failed while seeking, no error was reported",cur_name(&c),fault_name);
			if(r) c.pos++; else if(e) { errors++; if(check && faulted && !hadf && fault_err == 0 && e != -EIO) mc_fail("fault-code","%s: %s fails with EIO, error %d is reported",cur_name(&c),fault_name,e); } else ends++;
			continue;
		}
		memset(c.b,0xa5,c.w*c.h*sizeof *c.b);
		bool r = LIB(resdet_read_image_frame(c.im,c.b,&e));
		mc_trace("  read -> %d error %d",r,e);
		if(r && e) mc_fail("read-error","%s: reading succeeds with error %d",cur_name(&c),e);
		if(e && !hadf && !faulted && !io_hit) mc_fail("read-error","%s: read gives error %d, nothing failed",cur_name(&c),e);
		if(faulted && !hadf && !e) mc_fail("fault-ignored","%s: %s failed while reading, no error was reported",cur_name(&c),fault_name);
		if(faulted && !hadf && fault_err == 0 && fault_kind != K_MEXPORT && fault_kind != K_PTR && e != -EIO) mc_fail("fault-code","%s: %s fails with EIO, error %d is reported",cur_name(&c),fault_name,e);
		if(e) { errors++; continue; }
		if(!r) { ends++; continue; }
		if(ends) mc_fail("after-end","%s: a frame is read after the end",cur_name(&c));
		/* after an error frames may be missing, but the order is kept and they are whole (damaged if the decoder lost its references) */
		int f = c.pos;
		if(errors) while(f < s->n && !is_frame(s,reader,f,c.b)) f++;
		if(f < s->n && is_frame(s,reader,f,c.b)) c.pos = f+1, got++;
		else if(!errors) mc_fail("read-frame","%s: frame %d is something else, and no error was reported",cur_name(&c),c.pos);
		else lost = true;
	}
	(void)lost;
	if(!errors && c.pos != s->n) mc_fail("silent-loss","%s: %d of %d frames were read, no error was reported%s",cur_name(&c),c.pos,s->n,io_hit ? " though the file could not be read" : "");
	cur_close(&c);
	return errors;
}
static void fault(void) {
	int reader; struct src* s = pick(&reader); int script = mc_choose(2), kind = mc_choose(2);
	/* how many places are there */
	fault_script(s,reader,script,false);
	int total = kind ? nio : ncalls;
	if(!total) mc_skip();
	int at = 1+mc_choose(total), err = kind ? 0 : mc_choose(3);
	int second = !kind && mc_tier ? mc_choose(9) : 0; /* and another call soon after */
	mc_mine();
	size_t use[6]; int errors = 0;
	for(int rep = 0; rep < 6; rep++) {
		reset(); if(kind) io_at = at; else { fault_at = at; if(second) fault_at2 = at+second; } fault_err = err;
		if(!rep) mc_trace("%s by %s, script %d: %s %d fails (%d)",s->name,reader_name[reader],script,kind ? "file read" : "library call",at,err);
		errors = fault_script(s,reader,script,true);
		use[rep] = mallinfo2().uordblks;
	}
	if(!faulted && !io_hit) mc_fail("no-fault","%s: the fault was not reached again",s->name);
	if(use[2] < use[3] && use[3] < use[4] && use[4] < use[5] && reader == 0)
		mc_fail("memory","%s by %s: each run with %s failing leaves %zu more bytes allocated",s->name,reader_name[reader],kind ? "a file read" : fault_name,use[5]-use[4]);
	mc_nontriv++; mc_extra[0]++; mc_extra[1] += errors > 0;
	mc_outcome(mc_hashi(s-S,mc_hashi(reader*4+script*2+kind,mc_hashi(at*40+err*10+second,0))));
	if(mc_want_sample()) mc_sample("%s by %s: %s %d of %d fails -> %d errors reported",s->name,reader_name[reader],kind ? "file read" : "library call",at,total,errors);
}

/* ---- damaged files: whatever the libraries make of them, the reader keeps to its contract ---- */
static void damage(void) {
	int reader; struct src* s = pick(&reader);
	static uint8_t* data[24]; static size_t len[24];
	if(!data[s-S]) { FILE* f = fopen(s->path,"rb"); data[s-S] = malloc(1 << 20); len[s-S] = fread(data[s-S],1,1 << 20,f); fclose(f); }
	uint8_t* d = data[s-S]; size_t n = len[s-S];
	int kind = mc_choose(MC_Q(3,5)); size_t at = mc_choose(n > 6000 ? 6000 : n); bool in = mc_choose(2);
	if(!mc_tier && (n > 1500 && at > 1000 && n-at > 200 && at%3 || in && at%2) || in && !strcmp(s->ext,"apng")) mc_skip();
	mc_mine();
	static uint8_t* t; if(!t) t = malloc(1 << 20);
	memcpy(t,d,n);
	if(kind == 0) n = at; else if(kind == 1) t[at] ^= 0xff; else if(kind == 2) t[at] = 0; else if(kind == 3) t[at]++; else t[at] ^= 0x80;
	char path[300]; snprintf(path,sizeof path,"%s/dmg%d.%s",mc_scratch,(int)getpid(),s->ext); spit(path,t,n,false);
	size_t w = 9, h = 9; RDError e = 77; const char* name = path;
	if(in) { int fd = open(path,O_RDONLY); dup2(fd,0); close(fd); name = "-"; }
	mc_trace("%s by %s, damage %d at %zu%s",s->name,reader_name[reader],kind,at,in ? ", from standard input" : "");
	mc_step();
	RDImage* im = LIB(resdet_open_image_with_reader(name,reader_name[reader],&w,&h,NULL,&e));
	mc_trace("  open -> %s error %d, %zux%zu",im ? "image" : "NULL",e,w,h);
	if(!im != !!e) mc_fail("open-result","%s by %s, damage %d at %zu: opening returns %s with error %d",s->name,reader_name[reader],kind,at,im ? "an image" : "NULL",e);
	uint64_t o = mc_hashi(e,0); int got = 0;
	if(!im) { if(w || h) mc_fail("open-outputs","%s by %s, damage %d at %zu: a failure leaves %zux%zu",s->name,reader_name[reader],kind,at,w,h); }
	else {
		if(!w || !h) mc_fail("open-size","%s by %s, damage %d at %zu: opened as %zux%zu",s->name,reader_name[reader],kind,at,w,h);
		if(w*h < 4000000) {
			float* b = malloc(w*h*sizeof *b+64); int ends = 0;
			for(int i = 0; i < 40 && ends < 2; i++) {
				memset(b+w*h,0x5a,64); if(w*h) b[w*h-1] = -123456; e = 77;
				bool r = i == 1 && (at & 1) ? LIB(resdet_seek_frame(im,1,NULL,NULL,&e)) : LIB(resdet_read_image_frame(im,b,&e)); mc_step();
				mc_trace("  -> %d error %d",r,e);
				if(r && e) mc_fail("read-error","%s by %s, damage %d at %zu: succeeds with error %d",s->name,reader_name[reader],kind,at,e);
				for(int k = 0; k < 64; k++) if(((uint8_t*)(b+w*h))[k] != 0x5a) mc_fail("overrun","%s by %s, damage %d at %zu: a frame is written past %zux%zu",s->name,reader_name[reader],kind,at,w,h);
				if(r && ends) mc_fail("after-end","%s by %s, damage %d at %zu: a frame follows the end",s->name,reader_name[reader],kind,at);
				if(r && !(i == 1 && (at & 1)) && (b[w*h-1] == -123456)) mc_fail("short","%s by %s, damage %d at %zu: a frame is not written up to %zux%zu",s->name,reader_name[reader],kind,at,w,h);
				if(!r && !e) ends++;
				got += r; o = mc_hashi(r*100+e,o);
			}
			free(b);
		}
		armed++; resdet_close_image(im); armed--;
	}
	if(nlive) mc_fail("leak","%s by %s, damage %d at %zu: after closing, %s is still held",s->name,reader_name[reader],kind,at,live_what[0]);
	mc_nontriv += got > 0; mc_outcome(mc_hashi(s-S,mc_hashi(reader,o)));
	if(mc_want_sample()) mc_sample("%s by %s, damage %d at byte %zu: %d frames",s->name,reader_name[reader],kind,at,got);
}

/* ---- large pictures, many frames, much else in the file, colour ---- */
/* only one of the components of colour varies, or all do alike: the frame follows it */
static void colour(void) {
	int reader = mc_choose(2), ch = mc_choose(4), back = mc_choose(3), size = mc_choose(MC_Q(4,6)); static const int wh[][2] = {{16,16},{5,52},{256,1},{30,9},{1,256},{301,7}};
	mc_mine();
	int w = wh[size][0], h = wh[size][1], bg = back*127; char path[300],why[100]; static uint8_t b[1 << 16];
	snprintf(path,sizeof path,"%s/co%d.ppm",mc_scratch,(int)getpid()); snprintf(why,sizeof why,"%dx%d picture of %s by %s",w,h,(const char*[]){"red","green","blue","grey in colour"}[ch],reader_name[reader]);
	int n = sprintf((char*)b,"P6\n%d %d\n255\n",w,h); static uint8_t v[8192];
	for(int i = 0; i < w*h; i++) { v[i] = i*7+i/256; for(int c = 0; c < 3; c++) b[n++] = ch == 3 || c == ch ? v[i] : bg; }
	spit(path,b,n,false);
	size_t rw, rh; RDError e; float* o; mc_step();
	RDImage* im = resdet_open_image_with_reader(path,reader_name[reader],&rw,&rh,&o,&e);
	if(!im || rw != (size_t)w || rh != (size_t)h || !resdet_read_image_frame(im,o,&e)) mc_fail("colour-read","%s: error %d",why,e);
	/* the straight line through the extremes */
	int lo = 0, hi = 0; for(int i = 0; i < w*h; i++) { if(v[i] < v[lo]) lo = i; if(v[i] > v[hi]) hi = i; }
	double k = (o[hi]-o[lo])/((v[hi]-v[lo])/255.);
	mc_trace("%s: %g at %d, %g at %d",why,o[lo],v[lo],o[hi],v[hi]);
	if(!(k > 0.03 && k < 1.05)) mc_fail("colour","%s: from %d to %d the frame goes from %g to %g",why,v[lo],v[hi],o[lo],o[hi]);
	if(ch == 3 && !(k > 0.8)) mc_fail("colour","%s: from %d to %d the frame goes from %g to %g",why,v[lo],v[hi],o[lo],o[hi]);
	for(int i = 0; i < w*h; i++) if(!(fabs(o[i]-(o[lo]+k*(v[i]-v[lo])/255.)) < 1.5/255)) mc_fail("colour-line","%s: pixel %d is %g for %d, which is not between %g for %d and %g for %d in proportion",why,i,o[i],v[i],o[lo],v[lo],o[hi],v[hi]);
	resdet_close_image(im); free(o);
	mc_nontriv++; mc_outcome(mc_hash(why,strlen(why),back));
	if(mc_want_sample()) mc_sample("%s over %d: in proportion %g",why,bg,k);
}
static void pgm_to(struct buf* b, size_t w, size_t h, int f) { buf_fmt(b,"P5\n%zu %zu\n255\n",w,h); for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) buf_byte(b,px(f%250,x,y)); }
static void large(void) {
	static const int wh[][2] = {{2047,2},{2049,2},{4096,1},{4097,2},{8191,1},{8193,3},{15999,1},{1,4097},{3,8193},{2,15999},{640,480},{1025,130},{65537,1},{1,65537},{100000,2},{1500,1300}};
	int reader = mc_choose(2), kind = mc_choose(3), z = mc_choose(kind == 0 ? 16 : kind == 1 ? 8 : 10), script = mc_choose(3);
	static const int ns[] = {9,31,65,100,128,129,257,300}, au[] = {2,16,63,64,99,100,101,129,257,1000};
	if(reader && kind == 2 || reader && kind == 0 && z >= 12) mc_skip(); /* ImageMagick has limits */
	mc_mine();
	struct src s = {.n = 2,.w = 5,.h = 4,.gray = true}; char why[100]; struct buf b = {0};
	snprintf(s.path,sizeof s.path,"%s/la%d.%s",mc_scratch,(int)getpid(),kind == 2 ? "nut" : "pgm");
	if(kind == 0) { s.w = wh[z][0]; s.h = wh[z][1]; } else s.n = kind == 1 ? ns[z] : 6;
	if(kind < 2) { for(int f = 0; f < s.n; f++) pgm_to(&b,s.w,s.h,f); spit(s.path,b.p,b.n,false); free(b.p); snprintf(why,sizeof why,"%d PGMs of %zux%zu by %s",s.n,s.w,s.h,reader_name[reader]); }
	else { s.name = "NUT"; encode(&s,"nut","rawvideo",AV_PIX_FMT_GRAY8,5,4,s.n,"",0,au[z]); snprintf(why,sizeof why,"NUT of %d frames with %d packets of sound after the %dth",s.n,au[z],s.n/2); }
	size_t w, h; RDError e; float* o; mc_step();
	RDImage* im = LIB(resdet_open_image_with_reader(s.path,reader_name[reader],&w,&h,&o,&e));
	mc_trace("%s: error %d, %zux%zu",why,e,w,h);
	if(!im || w != s.w || h != s.h) mc_fail("large-open","%s: error %d, %zux%zu",why,e,w,h);
	int f = 0;
	if(script) { uint64_t k = script == 1 ? (uint64_t)s.n-1 : (uint64_t)s.n/2; if(!LIB(resdet_seek_frame(im,k,NULL,NULL,&e)) || e) mc_fail("large-seek","%s: seek by %llu, error %d",why,(unsigned long long)k,e); f = k; }
	for(;; f++) {
		bool r = LIB(resdet_read_image_frame(im,o,&e)); mc_step();
		if(e || r != (f < s.n)) mc_fail("large-read","%s: reading frame %d gives %d, error %d",why,f,r,e);
		if(!r) break;
		for(size_t i = 0; i < w*h; i++) if(!(fabs(o[i]-px(kind ? f%250 : f,i%w,i/w)/255.) < 2e-6)) mc_fail("large-frame","%s: frame %d, pixel %zu is %g, not %g",why,f,i,o[i],px(f%250,i%w,i/w)/255.);
	}
	armed++; resdet_close_image(im); free(o); armed--;
	if(nlive) mc_fail("leak","%s: after closing, %s is still held",why,live_what[0]);
	unlink(s.path);
	mc_nontriv++; mc_outcome(mc_hash(why,strlen(why),script));
	if(mc_want_sample()) mc_sample("%s: read as written",why);
}

/* ---- agreement with the native readers ---- */
static void equal(void) {
	int reader = mc_choose(2), kind = mc_choose(5);
	size_t w, h; char path[300],why[100]; static uint8_t b[1 << 20]; int n; const char* native;
	if(kind == 0) { w = 1+mc_choose(MC_Q(40,80)); h = 1+mc_choose(MC_Q(9,16)); mc_mine(); }
	else if(kind == 1) { w = 16; h = 16; int o = mc_choose(4); mc_mine(); w += o; }
	else if(kind == 2) { w = 1+mc_choose(MC_Q(40,80)); h = 1+mc_choose(6); mc_mine(); if(reader) mc_skip(); }
	else { w = 1+mc_choose(MC_Q(40,80)); h = 1+mc_choose(MC_Q(6,12)); mc_mine(); } /* floating point, in either byte order */
	if(kind < 2) { n = sprintf((char*)b,"P5\n%zu %zu\n255\n",w,h); native = "PGM"; snprintf(path,sizeof path,"%s/eq%d.pgm",mc_scratch,(int)getpid()); for(size_t i = 0; i < w*h; i++) b[n++] = kind ? i : px(0,i%w,i/w); }
	else if(kind > 2) {
		n = sprintf((char*)b,"Pf\n%zu %zu\n%s\n",w,h,kind == 3 ? "-1.0" : "1.0"); native = "PFM"; snprintf(path,sizeof path,"%s/eq%d.pfm",mc_scratch,(int)getpid());
		for(size_t i = 0; i < w*h; i++) { union { float f; uint32_t u; } v = {px(0,i%w,i/w)/255.f}; for(int k = 0; k < 4; k++) b[n++] = v.u >> (kind == 3 ? 8*k : 24-8*k); }
	}
	else { n = sprintf((char*)b,"YUV4MPEG2 W%zu H%zu F25:1 Ip A1:1 Cmono\n",w,h); native = "Y4M"; snprintf(path,sizeof path,"%s/eq%d.y4m",mc_scratch,(int)getpid()); for(int f = 0; f < 2; f++) { n += sprintf((char*)b+n,"FRAME\n"); for(size_t i = 0; i < w*h; i++) b[n++] = px(f,i%w,i/w); } }
	spit(path,b,n,false);
	snprintf(why,sizeof why,"%s %zux%zu by %s",native,w,h,reader_name[reader]);
	size_t w1, h1, w2, h2; RDError e1, e2; float* b1,* b2;
	mc_step();
	RDImage* i1 = resdet_open_image_with_reader(path,native,&w1,&h1,&b1,&e1),* i2 = resdet_open_image_with_reader(path,reader_name[reader],&w2,&h2,&b2,&e2);
	mc_trace("%s: errors %d %d",why,e1,e2);
	if(e1 || e2 || w1 != w || h1 != h || w2 != w || h2 != h) mc_fail("equal-open","%s: errors %d and %d, %zux%zu and %zux%zu",why,e1,e2,w1,h1,w2,h2);
	for(int f = 0;; f++) {
		bool r1 = resdet_read_image_frame(i1,b1,&e1), r2 = resdet_read_image_frame(i2,b2,&e2); mc_step();
		if(r1 != r2 || e1 || e2) mc_fail("equal-read","%s: frame %d: %d and %d, errors %d and %d",why,f,r1,r2,e1,e2);
		if(!r1) { if(f != (kind == 2 ? 2 : 1)) mc_fail("equal-count","%s: %d frames",why,f); break; }
		for(size_t i = 0; i < w*h; i++) if(fabsf(b1[i]-b2[i]) > 2e-6) mc_fail("equal-value","%s: frame %d pixel %zu is %g, by the native reader %g",why,f,i,b2[i],b1[i]);
	}
	resdet_close_image(i1); resdet_close_image(i2); free(b1); free(b2);
	mc_nontriv++; mc_outcome(mc_hash(why,strlen(why),0));
	if(mc_want_sample()) mc_sample("%s: as by the native reader",why);
}

/* every pixel format that frames can come in: the same picture but for a linear scale */
static void formats(void) {
	int fmt = mc_choose(256), size = mc_choose(MC_Q(3,6)), at = mc_choose(2);
	static const int wh[][2] = {{16,12},{12,8},{13,7},{1,1},{34,2},{64,5}};
	mc_mine();
	const AVPixFmtDescriptor* d = av_pix_fmt_desc_get(fmt);
	int w = wh[size][0], h = wh[size][1];
	if(!d || d->flags & (AV_PIX_FMT_FLAG_HWACCEL|AV_PIX_FMT_FLAG_BAYER|AV_PIX_FMT_FLAG_PAL) || !sws_isSupportedInput(fmt) || !sws_isSupportedOutput(fmt) || !avcodec_pix_fmt_to_codec_tag(fmt)) mc_skip();
	if((w|h) > 1 && ((w & ((1 << d->log2_chroma_w)-1)) || (h & ((1 << d->log2_chroma_h)-1)))) mc_skip();
	if(w == 1 && (d->log2_chroma_w || d->log2_chroma_h)) mc_skip();
	int depth = 32; for(int i = 0; i < d->nb_components && i < 3; i++) if(d->comp[i].depth < depth) depth = d->comp[i].depth;
	if(depth < 5) mc_skip(); /* dithered */
	/* a smooth picture, so that no resampling of colour matters */
	uint8_t* g = av_malloc(w*h+64); for(int i = 0; i < w*h; i++) g[i] = 40+(i%w)*140/w+(i/w)*40/h;
	AVFrame* fr = av_frame_alloc(); fr->width = w; fr->height = h; fr->format = fmt; av_frame_get_buffer(fr,0);
	if(fmt == AV_PIX_FMT_GRAYF32LE || fmt == AV_PIX_FMT_GRAYF32BE)
		for(int y = 0; y < h; y++) for(int x = 0; x < w; x++) { union { float f; uint8_t b[4]; } u = {g[y*w+x]/255.f}; for(int k = 0; k < 4; k++) fr->data[0][y*fr->linesize[0]+x*4+k] = u.b[fmt == AV_PIX_FMT_GRAYF32LE ? k : 3-k]; }
	else {
		struct SwsContext* sw = sws_getContext(w,h,AV_PIX_FMT_GRAY8,w,h,fmt,SWS_POINT|SWS_ACCURATE_RND|SWS_FULL_CHR_H_INT,NULL,NULL,NULL);
		sws_scale(sw,(const uint8_t* const[4]){g},(int[4]){w},0,h,fr->data,fr->linesize);
		sws_freeContext(sw);
	}
	/* alone in a file, or after another frame */
	char path[300],why[200]; snprintf(path,sizeof path,"%s/fm%d.nut",mc_scratch,(int)getpid()); snprintf(why,sizeof why,"%dx%d in %s%s",w,h,d->name,at ? ", second frame" : "");
	AVFormatContext* f; avformat_alloc_output_context2(&f,NULL,"nut",path);
	AVStream* st = avformat_new_stream(f,NULL); AVCodecParameters* cp = st->codecpar;
	cp->codec_type = AVMEDIA_TYPE_VIDEO; cp->codec_id = AV_CODEC_ID_RAWVIDEO; cp->codec_tag = avcodec_pix_fmt_to_codec_tag(fmt); cp->format = fmt; cp->width = w; cp->height = h; st->time_base = (AVRational){1,25};
	bool ok = avio_open(&f->pb,path,AVIO_FLAG_WRITE) >= 0 && avformat_write_header(f,NULL) >= 0;
	int n = av_image_get_buffer_size(fmt,w,h,1);
	for(int k = 0; ok && k <= at; k++) {
		AVPacket* p = av_packet_alloc(); av_new_packet(p,n);
		if(k < at) memset(p->data,0,n); else av_image_copy_to_buffer(p->data,n,(const uint8_t* const*)fr->data,fr->linesize,fmt,w,h,1);
		p->pts = p->dts = k; p->flags |= AV_PKT_FLAG_KEY; ok = av_write_frame(f,p) >= 0; av_packet_free(&p);
	}
	ok = ok && !av_write_trailer(f); avio_closep(&f->pb); avformat_free_context(f); av_frame_free(&fr);
	/* what the file says it is, if it does */
	AVFormatContext* in = NULL; ok = ok && !avformat_open_input(&in,path,NULL,NULL) && avformat_find_stream_info(in,NULL) >= 0 && in->streams[0]->codecpar->format == fmt; avformat_close_input(&in);
	if(!ok) { av_free(g); mc_trace("%s: not in NUT",why); mc_skip(); }
	size_t rw, rh; RDError e; float* b;
	RDImage* im = resdet_open_image_with_reader(path,"FFmpeg",&rw,&rh,&b,&e); mc_step();
	mc_trace("%s: error %d",why,e);
	if(e || rw != (size_t)w || rh != (size_t)h) mc_fail("format-open","%s: error %d, %zux%zu",why,e,rw,rh);
	for(int k = 0; k <= at; k++) { for(size_t i = 0; i < rw*rh; i++) b[i] = NAN; if(!resdet_read_image_frame(im,b,&e)) mc_fail("format-read","%s: error %d",why,e); mc_step(); }
	/* full or limited range of values */
	double worst = 0; for(int l = 0; l < 2; l++) { double m = 0; for(int i = 0; i < w*h; i++) { double x = g[i]/255., v = l ? (x*219+16)/255 : x, q = fabs(b[i]-v); if(!(q <= m)) m = q; if(isnan(b[i])) m = 9; } if(!l || m < worst) worst = m; }
	mc_trace("%s: differs by %g",why,worst);
	if(!(worst <= 1./((1ull << (depth > 8 ? 8 : depth))-1)+2.5/255)) { char t[800]; int o = 0; for(int i = 0; i < w*h && i < 20; i++) o += sprintf(t+o," %g/%g",b[i],g[i]/255.); mc_fail("format-value","%s: differs by %g from the picture: %s",why,worst,t); }
	if(resdet_read_image_frame(im,b,&e) || e) mc_fail("format-end","%s: more frames, or error %d",why,e);
	resdet_close_image(im); free(b); av_free(g); unlink(path);
	mc_nontriv++; mc_outcome(mc_hash(why,strlen(why),0));
	if(mc_want_sample()) mc_sample("%s: differs by %g",why,worst);
}

static void mc_case(void) {
	static bool done; if(!done) { done = true; int a = armed; setup(); armed = a; }
	reset();
	if(!strcmp(mc_mode,"cursor")) cursor();
	else if(!strcmp(mc_mode,"sched")) schedule();
	else if(!strcmp(mc_mode,"mix")) mix();
	else if(!strcmp(mc_mode,"fault")) fault();
	else if(!strcmp(mc_mode,"damage")) damage();
	else if(!strcmp(mc_mode,"formats")) formats();
	else if(!strcmp(mc_mode,"colour")) colour();
	else if(!strcmp(mc_mode,"large")) large();
	else equal();
}
