/*
 * codec.h - PNG and JPEG files made in memory, with the gray picture they stand for.
 */
#ifndef CODEC_H
#define CODEC_H
#include "fmt.h"
#include <png.h>
#include <jpeglib.h>
#include <setjmp.h>

static void pngw(png_structp p, png_bytep d, png_size_t n) { buf_raw(png_get_io_ptr(p),d,n); }
static void pngf(png_structp p) { (void)p; }
/* colour type, depth, transparency chunk, interlacing */
struct pngkind { int color, depth; bool trns; };
static const struct pngkind pngkinds[] = {
	{PNG_COLOR_TYPE_GRAY,8,0},{PNG_COLOR_TYPE_GRAY,1,0},{PNG_COLOR_TYPE_GRAY,2,0},{PNG_COLOR_TYPE_GRAY,4,0},{PNG_COLOR_TYPE_GRAY,16,0},
	{PNG_COLOR_TYPE_RGB,8,0},{PNG_COLOR_TYPE_RGB,16,0},{PNG_COLOR_TYPE_PALETTE,1,0},{PNG_COLOR_TYPE_PALETTE,2,0},{PNG_COLOR_TYPE_PALETTE,4,0},{PNG_COLOR_TYPE_PALETTE,8,0},
	{PNG_COLOR_TYPE_GRAY_ALPHA,8,0},{PNG_COLOR_TYPE_GRAY_ALPHA,16,0},{PNG_COLOR_TYPE_RGB_ALPHA,8,0},{PNG_COLOR_TYPE_RGB_ALPHA,16,0},
	{PNG_COLOR_TYPE_GRAY,8,1},{PNG_COLOR_TYPE_GRAY,2,1},{PNG_COLOR_TYPE_GRAY,16,1},{PNG_COLOR_TYPE_RGB,8,1},{PNG_COLOR_TYPE_PALETTE,8,1},{PNG_COLOR_TYPE_PALETTE,2,1},
};
#define NPNG ((int)(sizeof pngkinds/sizeof *pngkinds))
static void png_name(char* b, size_t n, int k, int il) {
	static const char* const c[] = {"gray","?","RGB","palette","gray+alpha","?","RGB+alpha"};
	snprintf(b,n,"PNG %s %d bit%s%s",c[pngkinds[k].color],pngkinds[k].depth,pngkinds[k].trns ? " with tRNS" : "",il ? ", interlaced" : "");
}
/* what else a file may hold: 1 colour spaces, 2 texts and other notes, 4 significant bits and background, 8 unknown chunks, also after the image, 16 much divided, 32 not compressed, one filter */
static int png_extra;
static void mk_png(struct pic* p, size_t w, size_t h, int kind, int interlace, int salt) {
	memset(p,0,sizeof *p); p->ext = "png"; p->reader = "libpng"; p->w = w; p->h = h; p->n = 1; p->still = true;
	const struct pngkind* k = &pngkinds[kind]; p->tol = k->depth == 16 ? 1/255.+1e-6 : 1e-5;
	png_structp png = png_create_write_struct(PNG_LIBPNG_VER_STRING,NULL,NULL,NULL); png_infop info = png_create_info_struct(png);
	png_set_write_fn(png,&p->b,pngw,pngf);
	png_set_IHDR(png,info,w,h,k->depth,k->color,interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE,PNG_COMPRESSION_TYPE_DEFAULT,PNG_FILTER_TYPE_DEFAULT);
	png_color pal[256]; png_byte tr[256];
	if(k->color == PNG_COLOR_TYPE_PALETTE) {
		for(int i = 0; i < 256; i++) pal[i] = (png_color){fmt_sample(i,0,salt,255),fmt_sample(i,1,salt,255),fmt_sample(i,2,salt,255)}, tr[i] = i*37;
		png_set_PLTE(png,info,pal,1 << k->depth);
		if(k->trns) png_set_tRNS(png,info,tr,1 << k->depth,NULL);
	}
	else if(k->trns) png_set_tRNS(png,info,NULL,0,&(png_color_16){.gray = 1,.red = 1,.green = 2,.blue = 3});
	png_color_8 sb = {1,1,1,1,1}; png_text tx[] = {{.compression = PNG_TEXT_COMPRESSION_NONE,.key = "Title",.text = "a picture",.text_length = 9},{.compression = PNG_TEXT_COMPRESSION_zTXt,.key = "Comment",.text = "IDAT IEND IDAT IEND IDAT IEND",.text_length = 29}};
	if(png_extra & 1) { png_set_gAMA(png,info,0.25); png_set_cHRM(png,info,0.3127,0.329,0.64,0.33,0.3,0.6,0.15,0.06); }
	if(png_extra & 2) { png_set_text(png,info,tx,2); png_set_pHYs(png,info,300,100,PNG_RESOLUTION_METER); png_set_oFFs(png,info,5,7,PNG_OFFSET_PIXEL); png_set_tIME(png,info,&(png_time){2020,2,2,2,2,2}); }
	if(png_extra & 4) { png_set_sBIT(png,info,&sb); if(k->color != PNG_COLOR_TYPE_PALETTE) png_set_bKGD(png,info,&(png_color_16){0,1,1,1,1}); }
	if(png_extra & 16) png_set_compression_buffer_size(png,7);
	if(png_extra & 32) { png_set_compression_level(png,0); png_set_filter(png,0,PNG_FILTER_PAETH); }
	png_write_info(png,info);
	if(png_extra & 8) { png_write_chunk(png,(png_const_bytep)"prVt",(png_const_bytep)"hello",5); png_write_chunk(png,(png_const_bytep)"vpAg",(png_const_bytep)"\0\0\0\2\0\0\0\2",9); }
	int ch = k->color == PNG_COLOR_TYPE_RGB ? 3 : k->color == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : k->color == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : 1, cc = k->color & PNG_COLOR_MASK_COLOR && k->color != PNG_COLOR_TYPE_PALETTE ? 3 : 1;
	unsigned max = (1u << k->depth)-1; size_t rb = (w*ch*k->depth+7)/8;
	unsigned char* data = calloc(h,rb); png_bytep* rows = malloc(h*sizeof *rows); pic_want(p,0);
	for(size_t y = 0; y < h; y++) {
		rows[y] = data+y*rb;
		for(size_t x = 0; x < w; x++) {
			double s = 0;
			for(int c = 0; c < ch; c++) {
				unsigned v = fmt_sample((y*w+x)*ch+c,0,salt,max); size_t i = x*ch+c;
				if(k->depth == 16) rows[y][i*2] = v >> 8, rows[y][i*2+1] = v;
				else if(k->depth == 8) rows[y][i] = v;
				else { size_t bit = i*k->depth; rows[y][bit/8] |= v << (8-k->depth-bit%8); }
				if(k->color == PNG_COLOR_TYPE_PALETTE) s += (pal[v].red+pal[v].green+pal[v].blue)/765.;
				else if(c < cc) s += (double)v/max;
			}
			p->want[0][y*w+x] = s/cc;
		}
	}
	p->hdr = p->b.n;
	png_write_image(png,rows);
	if(png_extra & 8) png_write_chunk(png,(png_const_bytep)"prVt",(png_const_bytep)"again",5);
	png_write_end(png,info);
	png_destroy_write_struct(&png,&info); free(data); free(rows);
	p->end[1] = p->b.n;
}
/* JPEG: mode bit 0 colour, 1 progressive, 2 restart markers, 3 chroma subsampling, 4 arithmetic */
/* and: 1 long comments and application data, 2 stored as RGB, 4 an Adobe marker and no JFIF, 8 components in scans of their own, 16 other subsampling, 32 other tables */
static int jpeg_extra;
static void mk_jpeg(struct pic* p, size_t w, size_t h, int mode, int salt) {
	memset(p,0,sizeof *p); p->ext = "jpg"; p->reader = "libjpeg"; p->w = w; p->h = h; p->n = 1; p->still = true; p->tol = 7/255.;
	struct jpeg_compress_struct c; struct jpeg_error_mgr e; unsigned char* out = NULL; unsigned long n = 0;
	c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_mem_dest(&c,&out,&n);
	c.image_width = w; c.image_height = h; c.input_components = mode & 1 ? 3 : 1; c.in_color_space = mode & 1 ? JCS_RGB : JCS_GRAYSCALE;
	jpeg_set_defaults(&c); jpeg_set_quality(&c,100,TRUE);
	if(mode & 1 && jpeg_extra & 2) jpeg_set_colorspace(&c,JCS_RGB);
	if(jpeg_extra & 4) { c.write_JFIF_header = FALSE; c.write_Adobe_marker = mode & 1 || jpeg_extra & 1; }
	if(jpeg_extra & 32) { c.optimize_coding = TRUE; c.dct_method = JDCT_FLOAT; c.X_density = 7; c.Y_density = 100; c.density_unit = 1; }
	if(mode & 1) for(int i = 0; i < 3; i++) c.comp_info[i].h_samp_factor = c.comp_info[i].v_samp_factor = i == 0 && mode & 8 ? 2 : 1;
	if(mode & 1 && jpeg_extra & 16) { c.comp_info[0].h_samp_factor = 4; c.comp_info[0].v_samp_factor = 1; c.comp_info[1].h_samp_factor = 2; }
	if(mode & 2) jpeg_simple_progression(&c);
	static jpeg_scan_info scans[3]; for(int i = 0; i < 3; i++) scans[i] = (jpeg_scan_info){.comps_in_scan = 1,.component_index = {i},.Ss = 0,.Se = 63};
	if(!(mode & 2) && mode & 1 && jpeg_extra & 8) { c.scan_info = scans; c.num_scans = 3; }
	if(mode & 4) c.restart_interval = 1;
	if(mode & 16) c.arith_code = TRUE;
	jpeg_start_compress(&c,TRUE);
	if(jpeg_extra & 1) {
		static unsigned char z[65533]; for(int i = 0; i < 65533; i++) z[i] = i*7 % 5 ? i*7 : 0xff;
		jpeg_write_marker(&c,JPEG_COM,(void*)"\xff\xd8\xff\xd9 end",8); jpeg_write_marker(&c,JPEG_APP0+1,z,65533); jpeg_write_marker(&c,JPEG_APP0+2,z,0); jpeg_write_marker(&c,JPEG_APP0+13,z,4097); jpeg_write_marker(&c,JPEG_COM,z,65533);
	}
	unsigned char* row = malloc(3*w); JSAMPROW r = row; pic_want(p,0);
	for(size_t y = 0; y < h; y++) {
		for(size_t x = 0; x < w; x++) {
			/* smooth, so that compression changes it little */
			int v = 128+60*sin((x*0.35+salt)+y*0.2)+40*cos(y*0.4);
			int R = v, G = v, B = v;
			if(mode & 1) { R = v/2+30; B = 255-v/2; row[x*3] = R; row[x*3+1] = G; row[x*3+2] = B; } else row[x] = v;
			p->want[0][y*w+x] = (0.299*R+0.587*G+0.114*B)/255;
		}
		jpeg_write_scanlines(&c,&r,1);
	}
	jpeg_finish_compress(&c); jpeg_destroy_compress(&c);
	buf_raw(&p->b,out,n); free(out); free(row);
	p->end[1] = p->b.n;
}
#endif
