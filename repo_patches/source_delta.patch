From 8b194414786c145e588848ac49ad630ef93b30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 01/51] fix: Y4M 4:1:1 chroma planes have a quarter of the
 width and the full height

---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..abbc11c 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strncmp(csp,"444",3))
-- 
2.43.0


From ad6b95ab59fbe2491433f7457d8f1ef293c01e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 02/51] fix: Y4M 444alpha was taken for 444, leaving the alpha
 plane unread

---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index abbc11c..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -92,10 +92,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 14b10ff39d486ff1520a1466dd473b7d7a2077ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 03/51] fix: seeking by no frames in a PFM forgot the already
 parsed header

---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From 8bb941611f78480e3dcc860d271f692956dfab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 04/51] fix: seeking in a PFM took the size of every frame from
 the first header's channel count

---
 lib/image/pfm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..240b12f 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,11 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	size_t planesize = width*height*sizeof(float);
 
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = planesize <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(planesize))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,7 +185,10 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
-		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
+		// the number of channels may change with every header
+		for(int c = 0; c < (ctx->format == 'F' ? 3 : 1) && !*error; c++)
+			*error = resdet_fskip(ctx->f,planesize,buf);
+		if(*error) {
 			ret = false;
 			break;
 		}
-- 
2.43.0


From 0a22620f269292c2c9221111f90b0737eb06819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 05/51] fix: skipping over truncated data went unnoticed on
 seekable files

---
 lib/image.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..f25205c 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -18,8 +18,13 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 		if(fread(buf,1,offset,f) != offset)
 			return RDEINVAL;
 	}
-	else if(fseek(f,offset,SEEK_CUR) < 0)
-		return -errno;
+	else if(offset) {
+		// seeking beyond the end of a file succeeds, so read the last byte
+		if(fseek(f,offset-1,SEEK_CUR) < 0)
+			return -errno;
+		if(fgetc(f) == EOF)
+			return RDEINVAL;
+	}
 	return RDEOK;
 }
 
-- 
2.43.0


From 82319599e77f30f4bde851fa1e73288757db82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 06/51] fix: PGM reader accepted files without the P5 magic
 number

---
 lib/image/pgm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..cb9f5d6 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -50,8 +50,10 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char magic[2];
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fread(magic,1,2,ctx->f) < 2 || memcmp(magic,"P5",2) ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From 0fcd6ef3ff06fb2d7c7263c388d07c29bf6aca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 07/51] fix: PGM reader accepted maximum values of 0 and those
 that overflow 16 bits

---
 lib/image/pgm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index cb9f5d6..95df58d 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -5,13 +5,12 @@
 
 #include "image.h"
 
-#include <inttypes.h>
 #include <ctype.h>
 
 struct pgm_context {
 	FILE* f;
 	bool eof;
-	uint16_t depth;
+	size_t depth;
 };
 
 static void pgm_reader_close(void* reader_ctx) {
@@ -55,9 +54,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   fread(magic,1,2,ctx->f) < 2 || memcmp(magic,"P5",2) ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   ctx->depth < 1 || ctx->depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
-- 
2.43.0


From 78f83cfb36f2503bbea998c5db86c1f03003729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 08/51] fix: KISS FFT plan leaked its second dimension if it
 could not be completed

---
 lib/transform/kiss_fft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..478c105 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -83,12 +83,12 @@ void resdet_transform(resdet_plan* p) {
 
 void resdet_free_plan(resdet_plan* p) {
 	if(p) {
-		free(p->cfg[0]);
-		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
+		free(p->cfg[0]);
+		free(p->shift[0]);
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From ec9d73bf011eff4e4a5110c7d57545ec2bd1c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 09/51] fix: interlaced PNGs were decoded wrongly

png_set_interlace_handling has to be called before png_read_update_info,
which sets up the rows of the first pass.
---
 lib/image/libpng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..bca599b 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,8 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	// must precede png_read_update_info, which sets up the rows of the first pass
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +125,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From 80ec79586184377a6de229bdcf8699f8ca3e4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 10/51] fix: libjpeg reader jumped through error state left on
 the stack of its open function

The error manager and jump buffer were compound literals whose lifetime ended
with the function that set them up, while the decompressor kept using them.
---
 lib/image/libjpeg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..02505cd 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -11,13 +11,15 @@
 #include <jpeglib.h>
 
 static void jerr_emit_message(j_common_ptr cinfo, int msg_level) {}
-static void jerr_error_exit(j_common_ptr cinfo) { longjmp(cinfo->client_data,1); }
+static void jerr_error_exit(j_common_ptr cinfo) { longjmp(*(jmp_buf*)cinfo->client_data,1); }
 static void jerr_reset_error_mgr(j_common_ptr cinfo) {}
 
 struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
+	jmp_buf jmp;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,13 +49,15 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
+	ctx->cinfo.client_data = &ctx->jmp;
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto error;
 	}
@@ -86,7 +90,7 @@ static bool libjpeg_reader_read_frame(void* reader_ctx, float* image, size_t wid
 		goto end;
 	}
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto end;
 	}
-- 
2.43.0


From f69a41ec1554f3bcfdc7c184201ce05a6db7edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 11/51] fix: resdet_read_image refused images of more than half
 the size limit

---
 lib/image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index f25205c..b65166b 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -233,7 +233,9 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 		(*nimages)++;
 
 		if(resdet_dims_exceed_limit(*width,*height,*nimages+1,float)) {
-			error = RDETOOBIG;
+			// no room for another image, which is only an error if there is one
+			if(resdet_seek_frame(image,1,NULL,NULL,&error))
+				error = RDETOOBIG;
 			break;
 		}
 
-- 
2.43.0


From 3177e2af4ba9fa5b2eebc2e40bede538ac8c00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 12/51] fix: Y4M reader refused images of more than a quarter
 of the size limit

---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index fd2c85e..0387207 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -72,7 +72,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 
 	if(!(*width && *height))
 		goto invalid;
-	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
+	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
 		goto error;
 	}
-- 
2.43.0


From 881ff4d4afb1ab5c2d2c83a31b5d7267f6aa51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 13/51] fix: python: ImageBuffer.with_dimensions allocated one
 image regardless of nimages, and did not notice if it could not

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..7b40988 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,10 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        data = libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float))
+        if not data:
+            raise MemoryError()
+        imagebuffer = cls(ctypes.cast(data, ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
-- 
2.43.0


From ac1a4c976f3e254303238124a136a82fc34357ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 14/51] fix: python: the shape of an ImageBuffer had its
 dimensions in the reverse of the order of its data and indices

In resdet_numpy and resdet_PIL this returned non-square images with their lines broken at the wrong width.
---
 bindings/python/resdet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 7b40988..8664323 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -111,9 +111,9 @@ class ImageBuffer:
         return imagebuffer
 
     def shape(self):
-        shape = (self.width, self.height)
+        shape = (self.height, self.width)
         if self.nimages > 1:
-            shape += (self.nimages,)
+            shape = (self.nimages,) + shape
         return shape
 
     def __getitem__(self, index):
-- 
2.43.0


From 0ed2520cb5b0f161f7e2acad0793b259537e4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 15/51] fix: python: numpy arrays were taken for contiguous
 floats, and their height for their width

The memory of arrays of any other type or of views was read as it is, out of bounds for types smaller than float.
---
 bindings/python/resdet_numpy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..737f175 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -25,9 +25,14 @@ class Image(resdet.Image):
 
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
+    image = numpy.ascontiguousarray(image, dtype=numpy.float32)
     self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
-    nimages = image.shape[2] if len(image.shape) > 2 else 1
-    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
+    if image.ndim not in (2, 3):
+        raise ValueError(f"Expected an array of shape (height, width) or (nimages, height, width), got {image.shape}")
+    nimages = image.shape[0] if image.ndim > 2 else 1
+    height, width = image.shape[-2:]
+    image = numpy.ascontiguousarray(image, dtype=numpy.float32)
+    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, width, height, method, parameters)
-- 
2.43.0


From 3b5001f7446f6ba94065b4062d16e3be1713d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 16/51] fix: python: negative indices read memory before an
 ImageBuffer

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 8664323..4d91abc 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -122,16 +122,16 @@ class ImageBuffer:
                 raise Exception("Too many coordinates for image: {index}")
             if len(index) < 3:
                 index = (0,) + index
-            if index[0] >= self.nimages:
+            if not 0 <= index[0] < self.nimages:
                 raise IndexError(f"Frame index {index[0]} is out of range for {self.nimages} images")
-            if index[1] >= self.height:
+            if not 0 <= index[1] < self.height:
                 raise IndexError(f"y index {index[1]} is out of range for height {self.height}")
-            if index[2] >= self.width:
+            if not 0 <= index[2] < self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if not 0 <= index < self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From 62ab5397704f018996ed5c33551c32b615ae041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 17/51] fix: python: a closed ImageBuffer was still passed to
 the library

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4d91abc..c1e7f61 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -97,7 +97,10 @@ class ImageBuffer:
 
     def __init__(self, buffer: Optional[c_float_ptr] = None) -> None:
         self.data = buffer if buffer else ctypes.POINTER(ctypes.c_float)()
-        self._as_parameter_ = self.data
+
+    @property
+    def _as_parameter_(self) -> c_float_ptr:
+        return self.data
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-- 
2.43.0


From 99cd27be99b608180c85aa7bb40f489cdffc7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 18/51] fix: python: opening an image into a buffer in use
 leaked the buffer's memory

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index c1e7f61..8004104 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -161,7 +161,8 @@ class Image:
         width = ctypes.c_size_t()
         height = ctypes.c_size_t()
         err = ctypes.c_int()
-        buf = ctypes.byref(buffer.data) if buffer else None
+        data = ctypes.POINTER(ctypes.c_float)()
+        buf = ctypes.byref(data) if buffer else None
         if image_reader:
             self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
         else:
@@ -172,6 +173,8 @@ class Image:
         self.width = width.value
         self.height = height.value
         if buffer:
+            buffer.close()
+            buffer.data = data
             buffer.width = self.width
             buffer.height = self.height
             buffer.nimages = 1
-- 
2.43.0


From 15e372958d74bf221532a1832f0d858821487462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 19/51] fix: python: invalid detection parameters were silently
 replaced by the default, or by their low bits

---
 bindings/python/resdet.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 8004104..5bc4fda 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -307,13 +307,28 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
     if extra_keys:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
+    # ctypes would only keep the low bits of these
+    for key, ctype in (("range", ctypes.c_size_t), ("compression_filter", ctypes.c_uint8)):
+        if key in parameters and ctype(parameters[key]).value != parameters[key]:
+            raise _rderror_to_exception(Error.PARAM)
+
     rdparameters = libresdet.resdet_alloc_default_parameters()
-    if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
-    if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
-    if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+    if not rdparameters:
+        raise _rderror_to_exception(Error.NOMEM)
+
+    try:
+        err = Error.OK
+        if not err and "range" in parameters:
+            err = libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        if not err and "threshold" in parameters:
+            err = libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        if not err and "compression_filter" in parameters:
+            err = libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        if err:
+            raise _rderror_to_exception(err)
+    except:
+        libc.free(rdparameters)
+        raise
 
     return rdparameters
 
-- 
2.43.0


From 0ddf3b91bf24f51e43c8cd3aeb963f31555fd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 20/51] fix: python: paths were taken from str() instead of
 their PathLike protocol, and could not hold undecodable names

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 5bc4fda..309a4f7 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -164,9 +164,9 @@ class Image:
         data = ctypes.POINTER(ctypes.c_float)()
         buf = ctypes.byref(data) if buffer else None
         if image_reader:
-            self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
         else:
-            self._rdimage = libresdet.resdet_open_image(str(filename).encode("utf-8"), type_arg, width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image(os.fsencode(filename), type_arg, width, height, buf, err)
         if not self._rdimage:
             raise _rderror_to_exception(err)
 
@@ -369,7 +369,7 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
     height = ctypes.c_size_t()
     nimages = ctypes.c_size_t()
     buf = ImageBuffer()
-    err = libresdet.resdet_read_image(str(filename).encode("utf-8"), type_arg, buf.data, nimages, width, height)
+    err = libresdet.resdet_read_image(os.fsencode(filename), type_arg, buf.data, nimages, width, height)
     if err:
         raise _rderror_to_exception(err)
     buf.width = width.value
@@ -424,7 +424,7 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+    err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
 
     libc.free(params_arg)
 
-- 
2.43.0


From ead8ad5c651808ab583d6a3842288193f99153c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 21/51] fix: python: resdetect did not take paths as its
 documentation has it

---
 bindings/python/resdet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 309a4f7..0aebe51 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -437,3 +437,8 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     libc.free(resh)
 
     return {"widths": widths, "heights": heights}
+
+@resdetect.register(str)
+@resdetect.register(os.PathLike)
+def _(image: str | os.PathLike, type: Optional[str] = None, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    return resdetect_file(image, type, method, parameters)
-- 
2.43.0


From e508517e70c72a4881de2fd1a719dc271d0b306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 22/51] fix: python: destructors of an Image or Analysis raised
 if its constructor had

---
 bindings/python/resdet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 0aebe51..09da01b 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -155,6 +155,7 @@ class ImageBuffer:
 class Image:
     width: int
     height: int
+    _rdimage = None
 
     def __init__(self, filename: str | os.PathLike, type: Optional[str] = None, image_reader: Optional[str] = None, buffer: Optional[ImageBuffer] = None) -> None:
         type_arg = type.encode("utf-8") if type else None
@@ -214,6 +215,8 @@ class Image:
         self.close_image()
 
 class Analysis:
+    _rdanalysis = None
+
     def __init__(self, width: int, height: int, method: Optional[Method] = None, parameters: dict = {}) -> None:
         params_arg = _dict_to_rdparameters(parameters)
         err = ctypes.c_int()
-- 
2.43.0


From 0b849a34ed9eb43879f6ebdbb89f22e848f261ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 23/51] fix: python: frames of a PIL image smaller than the
 first were read out of bounds

---
 bindings/python/resdet_PIL.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..5b4b7ec 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,4 +1,5 @@
 import resdet_numpy
+from resdet import InvalidImageError
 from resdet_numpy import resdetect, Analysis, Method, Image
 
 import PIL.Image
@@ -24,15 +25,20 @@ def _(self, image: PIL.Image.Image) -> None:
 
 @resdetect.register
 def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    size = image.size
     analysis = Analysis(image.width, image.height, method, parameters)
     frameno = prev_frame = image.tell()
-    while True:
-        try:
-            image.seek(frameno)
-            frameno += 1
-        except EOFError:
-            break;
-        analysis.analyze_image(image)
+    try:
+        while True:
+            try:
+                image.seek(frameno)
+                frameno += 1
+            except EOFError:
+                break;
+            if image.size != size:
+                raise InvalidImageError(f"Frame size {image.size} differs from {size}")
+            analysis.analyze_image(image)
+    finally:
+        image.seek(prev_frame)
 
-    image.seek(prev_frame)
     return analysis.analysis_results()
-- 
2.43.0


From dbae4b2225502910eec53e535705e71906124ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 24/51] fix: magickwand: reading after the last image returned
 it again

---
 lib/image/magickwand.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..182a2ac 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool end;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->end = false;
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,10 +78,17 @@ error:
 	return NULL;
 }
 
+// MagickNextImage succeeds again on the last image after having failed
+static bool next_frame(struct magickwand_context* ctx) {
+	if(!ctx->end)
+		ctx->end = MagickNextImage(ctx->wand) == MagickFalse;
+	return !ctx->end;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_frame(ctx))
 		return false;
 
 	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
@@ -89,7 +98,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_frame(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From bcc7d14cf54fbc4be648d76bd159dd878e2d97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 25/51] fix: magickwand: images of another size than the first,
 and failed exports, were read as if they were frames

---
 lib/image/magickwand.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 182a2ac..73bfea2 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -91,7 +91,16 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(!next_frame(ctx))
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickGetImageWidth(ctx->wand) != width || MagickGetImageHeight(ctx->wand) != height) {
+		*error = RDEINVAL;
+		return false;
+	}
+
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 438359ff77ca7e04553db2f37539e132fe9b5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 26/51] fix: ffmpeg: allocation failures while opening were
 reported as other errors

---
 lib/image/ffmpeg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..848aa9a 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -76,7 +76,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 		*error = RDENOMEM;
 		goto error;
 	}
-	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar) < 0))
+	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar)) < 0)
 		goto error;
 
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
@@ -109,7 +109,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	return ctx;
 
 error:
-	if(averr)
+	if(averr < 0)
 		*error = rderror_from_averror(averr);
 
 	ffmpeg_reader_close(ctx);
-- 
2.43.0


From fdbf427ab3fb9db8bb2f303ad81f20dd66e2111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 27/51] fix: ffmpeg: errors reading the file were taken for its
 end

---
 lib/image/ffmpeg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 848aa9a..cfa25f7 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -116,13 +116,23 @@ error:
 	return NULL;
 }
 
+// some demuxers take errors for the end of the file, or the end of the file for an error
+static int read_error(AVIOContext* pb, int averr) {
+	if(pb && pb->error < 0)
+		return pb->error;
+	return averr == AVERROR_EOF || (averr == AVERROR(EIO) && pb && pb->eof_reached) ? 0 : averr;
+}
+
 static int read_frame(struct ffmpeg_context* ctx) {
 	int averr;
 	while((averr = avcodec_receive_frame(ctx->codec, ctx->swsframe)) == AVERROR(EAGAIN)) {
 		while(!(averr = av_read_frame(ctx->fmt,ctx->packet)) && ctx->packet->stream_index != ctx->stream_index)
 			av_packet_unref(ctx->packet);
-		if(averr)
+		if(averr) {
+			if((averr = read_error(ctx->fmt->pb,averr)))
+				break;
 			averr = avcodec_send_packet(ctx->codec, NULL);
+		}
 		else {
 			averr = avcodec_send_packet(ctx->codec, ctx->packet);
 			av_packet_unref(ctx->packet);
-- 
2.43.0


From f9a945c07b61a25a6c515b638a84a7d612c12228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 28/51] fix: ffmpeg: frames of another size or format than
 announced were converted as if they were not

---
 lib/image/ffmpeg.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index cfa25f7..93a0bb6 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -16,6 +16,7 @@ struct ffmpeg_context {
 	AVCodecContext* codec;
 	int stream_index;
 	struct SwsContext* sws;
+	int sws_format;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
 };
@@ -47,6 +48,26 @@ static void ffmpeg_reader_close(void* reader_ctx) {
 
 #define little_endian() (union { int i; char c; }){1}.c
 
+static int init_sws(struct ffmpeg_context* ctx, int width, int height, int format) {
+	sws_freeContext(ctx->sws);
+	ctx->sws_format = AV_PIX_FMT_NONE;
+	if(!(ctx->sws = sws_alloc_context()))
+		return AVERROR(ENOMEM);
+
+	av_opt_set_int(ctx->sws, "srcw", width, 0);
+	av_opt_set_int(ctx->sws, "srch", height, 0);
+	av_opt_set_int(ctx->sws, "src_format", format, 0);
+	av_opt_set_int(ctx->sws, "dstw", width, 0);
+	av_opt_set_int(ctx->sws, "dsth", height, 0);
+	av_opt_set_int(ctx->sws, "dst_format", little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE, 0);
+	int averr = sws_init_context(ctx->sws,NULL,NULL);
+	if(averr < 0)
+		return averr;
+
+	ctx->sws_format = format;
+	return 0;
+}
+
 static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
 	struct ffmpeg_context* ctx = malloc(sizeof(*ctx));
 	if(!ctx) {
@@ -82,21 +103,14 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
 		goto error;
 
-	if(!(ctx->sws = sws_alloc_context()) ||
-	   !(ctx->frame = av_frame_alloc()) ||
+	if(!(ctx->frame = av_frame_alloc()) ||
 	   !(ctx->swsframe = av_frame_alloc()) ||
 	   !(ctx->packet = av_packet_alloc())) {
 		*error = RDENOMEM;
 		goto error;
 	}
 
-	av_opt_set_int(ctx->sws, "srcw", ctx->codec->width, 0);
-	av_opt_set_int(ctx->sws, "srch", ctx->codec->height, 0);
-	av_opt_set_int(ctx->sws, "src_format", ctx->codec->pix_fmt, 0);
-	av_opt_set_int(ctx->sws, "dstw", ctx->codec->width, 0);
-	av_opt_set_int(ctx->sws, "dsth", ctx->codec->height, 0);
-	av_opt_set_int(ctx->sws, "dst_format", little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE, 0);
-	if((averr = sws_init_context(ctx->sws,NULL,NULL)) < 0)
+	if((averr = init_sws(ctx,ctx->codec->width,ctx->codec->height,ctx->codec->pix_fmt)) < 0)
 		goto error;
 
 	ctx->frame->width = ctx->codec->width;
@@ -147,7 +161,16 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
-	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
+	if(averr)
+		goto averror;
+
+	if((size_t)ctx->swsframe->width != width || (size_t)ctx->swsframe->height != height) {
+		averr = AVERROR_INVALIDDATA;
+		goto averror;
+	}
+
+	if((ctx->swsframe->format != ctx->sws_format && (averr = init_sws(ctx,width,height,ctx->swsframe->format)) < 0) ||
+	   (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
 	for(size_t y = 0; y < height; y++)
-- 
2.43.0


From 1066edc39f67fe14bd0570a9caf53d093f805138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 29/51] fix: magickwand: a file was given the size of its last
 image

---
 lib/image/magickwand.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 73bfea2..f4b7217 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -66,11 +66,12 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	// reading leaves the last image current
+	MagickResetIterator(ctx->wand);
+
 	*width = MagickGetImageWidth(ctx->wand);
 	*height = MagickGetImageHeight(ctx->wand);
 
-	MagickResetIterator(ctx->wand);
-
 	return ctx;
 
 error:
-- 
2.43.0


From 348a4a95402ca57ab78c4b10e880c161a3b3b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 30/51] fix: imgread: without an output name a null pointer was
 opened

---
 src/imgread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imgread.c b/src/imgread.c
index bfdfe63..f5d8cc5 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -8,7 +8,7 @@
 #include "resdet.h"
 
 int main(int argc, char** argv) {
-	if(argc < 2) {
+	if(argc < 3) {
 		fprintf(stderr,"Usage: %s input_image output.pfm\n", argv[0]);
 		return 1;
 	}
-- 
2.43.0


From 41bf6334a336d39bddc0fffeee2d6428cb8d7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 31/51] fix: imgread: errors reading the image or writing the
 output ended in success

---
 src/imgread.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index f5d8cc5..e1b0159 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -14,6 +14,7 @@ int main(int argc, char** argv) {
 	}
 
 	FILE* out = NULL;
+	int ret = 1;
 
 	float* image;
 	size_t width, height;
@@ -30,20 +31,26 @@ int main(int argc, char** argv) {
 	}
 
 	while(resdet_read_image_frame(rdimage,image,&e)) {
-		if(e)
-			goto end;
-
 		fprintf(out, "Pf\n%zu %zu\n-1.0\n", width, height);
 		for(size_t i = height; i > 0; i--)
 			fwrite(image+(i-1)*width,sizeof(*image),width,out);
 	}
 
+	ret = e != RDEOK;
+	if(ferror(out)) {
+		fprintf(stderr,"error writing output\n");
+		ret = 1;
+	}
+
 end:
 	if(e)
 		fprintf(stderr,"%s\n",resdet_error_str(e));
 
 	resdet_close_image(rdimage);
-	if(out)
-		fclose(out);
+	if(out && fclose(out)) {
+		perror("error writing output");
+		ret = 1;
+	}
 	free(image);
+	return ret;
 }
-- 
2.43.0


From de9dc213f54b7f835c6afeb001917e4e3249a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 32/51] fix: profile: results were compared as if they were in
 the order of their sizes

---
 src/profile.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 5898e8f..dc2ad9a 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -26,23 +26,17 @@ struct timeval diffts(struct timeval start, struct timeval end) {
 
 
 void diffres(size_t* left, size_t leftlen, RDResolution* right, size_t rightlen, size_t* plus, size_t* minus) {
-	size_t l = 0, r = 0;
-	while(l < leftlen && r < rightlen)
-		if(left[l] > right[r].index) {
-			(*plus)++;
-			r++;
-		}
-		else if(left[l] < right[r].index) {
-			(*minus)++;
-			l++;
-		}
-		else {
-			l++;
-			r++;
-		}
+	// results are ordered by confidence
+	size_t common = 0;
+	for(size_t r = 0; r < rightlen; r++)
+		for(size_t l = 0; l < leftlen; l++)
+			if(left[l] == right[r].index) {
+				common++;
+				break;
+			}
 
-	*plus += rightlen - r;
-	*minus += leftlen - l;
+	*plus += rightlen - common;
+	*minus += leftlen - common;
 }
 
 void readres(char* line, size_t** ar, size_t* ct) {
-- 
2.43.0


From 55d517dd2d8ead403fa47f9224650d8fd88257ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 33/51] fix: profile: microseconds were printed as if they were
 nanoseconds

---
 src/profile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index dc2ad9a..575c27c 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -174,7 +174,7 @@ int main(int argc, char* argv[]) {
 			diffplus[m-methods] += plus;
 			diffminus[m-methods] += minus;
 
-			printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
+			printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
 detect_end:
 			free(rw);
 			free(rh);
@@ -189,6 +189,6 @@ read_end:
 
 	puts("totals");
 	for(RDMethod* m = methods; m->name; m++)
-		printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
+		printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
 	return ret;
 }
-- 
2.43.0


From 55b4359b228129bbac255fe280fc9df43f207868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 34/51] fix: profile: the last character of a dictionary
 without a newline at its end was dropped

---
 src/profile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 575c27c..933dead 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -108,7 +108,7 @@ int main(int argc, char* argv[]) {
 	while(!ret && (len = getline(&line,&len2,dict)) > 0) {
 		if(*line == '\n')
 			continue;
-		line[len-1] = '\0';
+		line[strcspn(line,"\n")] = '\0';
 		puts(line);
 		float* image;
 		size_t w, h, d;
@@ -130,7 +130,7 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		line[strcspn(line,"\n")] = '\0';
 
 		readres(line,&knownw,&knownwct);
 		if(!knownwct) {
@@ -142,7 +142,7 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		line[strcspn(line,"\n")] = '\0';
 
 		readres(line,&knownh,&knownhct);
 		if(!knownhct) {
-- 
2.43.0


From f9064c6d7a25466f347bbe9d092bb6be5b73ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 35/51] fix: stat: results were taken to be in ascending order
 of confidence

---
 src/stat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stat.c b/src/stat.c
index 32bfcf0..d175810 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -8,6 +8,13 @@
 #include "resdet.h"
 
 void statres(RDResolution* rw, size_t cw) {
+	// results are in descending order of confidence
+	for(size_t i = 0; i < cw/2; i++) {
+		RDResolution tmp = rw[i];
+		rw[i] = rw[cw-1-i];
+		rw[cw-1-i] = tmp;
+	}
+
 	float median = (rw[cw/2].confidence + rw[(cw+1)/2].confidence) / 2;
 	float lq = rw[cw/4].confidence*(cw/4.0-cw/4) + rw[(cw+1)/4].confidence*(1-(cw/4.0-cw/4));
 	float hq = rw[cw*3/4].confidence*(cw*3/4.0-cw*3/4) + rw[(cw+1)*3/4].confidence*(1-(cw*3/4.0-cw*3/4));
-- 
2.43.0


From 26234274af5e022f974461b13469429314e2bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 36/51] fix: stat: the original size was counted among the
 results, and quartiles were taken from the wrong ones

---
 src/stat.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/stat.c b/src/stat.c
index d175810..855fbec 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -7,6 +7,14 @@
 
 #include "resdet.h"
 
+static float quantile(RDResolution* rw, size_t cw, double q) {
+	double pos = q*(cw-1);
+	size_t i = pos;
+	if(i+1 >= cw)
+		return rw[i].confidence;
+	return rw[i].confidence*(1-(pos-i)) + rw[i+1].confidence*(pos-i);
+}
+
 void statres(RDResolution* rw, size_t cw) {
 	// results are in descending order of confidence
 	for(size_t i = 0; i < cw/2; i++) {
@@ -15,9 +23,14 @@ void statres(RDResolution* rw, size_t cw) {
 		rw[cw-1-i] = tmp;
 	}
 
-	float median = (rw[cw/2].confidence + rw[(cw+1)/2].confidence) / 2;
-	float lq = rw[cw/4].confidence*(cw/4.0-cw/4) + rw[(cw+1)/4].confidence*(1-(cw/4.0-cw/4));
-	float hq = rw[cw*3/4].confidence*(cw*3/4.0-cw*3/4) + rw[(cw+1)*3/4].confidence*(1-(cw*3/4.0-cw*3/4));
+	if(!cw) {
+		puts("no results");
+		return;
+	}
+
+	float median = quantile(rw,cw,0.5);
+	float lq = quantile(rw,cw,0.25);
+	float hq = quantile(rw,cw,0.75);
 	float iq = hq-lq;
 	float inner = 3*iq+hq;
 	float outer = 6*iq+hq;
-- 
2.43.0


From 49558b4c43184c632cc8cf66b6951a451bd2918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 37/51] fix: stat: an unknown method was silently replaced by
 the default

---
 src/stat.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stat.c b/src/stat.c
index 855fbec..b6dccf4 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -56,9 +56,15 @@ int main(int argc, char* argv[]) {
 		return 1;
 	}
 
+	RDMethod* method = resdet_get_method(argv[2]);
+	if(!method) {
+		fprintf(stderr,"Method \"%s\" not found.\n",argv[2]);
+		return 1;
+	}
+
 	RDResolution* rw,* rh;
 	size_t cw, ch;
-	RDError e = resdetect_file(argv[1],NULL,&rw,&cw,&rh,&ch,resdet_get_method(argv[2]),NULL);
+	RDError e = resdetect_file(argv[1],NULL,&rw,&cw,&rh,&ch,method,NULL);
 	if(e) goto end;
 	puts("width:");
 	statres(rw,cw-1);
-- 
2.43.0


From 442d8844f0c3cae80765c282d5c6d3aa75aa47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 38/51] fix: js: an invalid parameter followed by a valid one
 was silently replaced by the default

---
 bindings/emscripten/resdet.mts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 7f201a7..6993dfa 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -184,9 +184,9 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	let err;
 	if('range' in parameters)
 		err = resdet_parameters_set_range(params,parameters['range']);
-	if('threshold' in parameters)
+	if(!err && 'threshold' in parameters)
 		err = resdet_parameters_set_threshold(params,parameters['threshold']);
-	if('compression_filter' in parameters)
+	if(!err && 'compression_filter' in parameters)
 		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
 	if(err)
 		throw new RDError(err);
-- 
2.43.0


From 017ad6010588ed570a0df3811db00511f11730ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 39/51] fix: js: memory leaked when a parameter was invalid or
 an allocation failed

---
 bindings/emscripten/resdet.mts | 42 +++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 6993dfa..76b6c57 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -32,6 +32,15 @@ class RDError extends Error {
 	}
 }
 
+function allocate(...sizes: number[]): number[] {
+	const ptrs = sizes.map(size => Module._malloc(size));
+	if(ptrs.includes(0)) {
+		ptrs.forEach(ptr => Module._free(ptr));
+		throw new OutOfMemoryError();
+	}
+	return ptrs;
+}
+
 class Method {
 	name: string
 	threshold: number
@@ -97,8 +106,10 @@ class Analysis {
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
 		const params = parametersFromObj(parameters)
 		const errp = Module._malloc(4);
-		if(!errp)
+		if(!errp) {
+			Module._free(params);
 			throw new OutOfMemoryError();
+		}
 
 		this.rdanalysis = resdet_create_analysis(method?.rdmethod, width, height, params, errp);
 
@@ -125,12 +136,7 @@ class Analysis {
 	}
 
 	analysisResults(): Resolutions {
-		const countwp = Module._malloc(4);
-		const counthp = Module._malloc(4);
-		const reswp = Module._malloc(4);
-		const reshp = Module._malloc(4);
-		if(!(countwp && counthp && reswp && reshp))
-			throw new OutOfMemoryError();
+		const [countwp, counthp, reswp, reshp] = allocate(4,4,4,4);
 
 		const err = resdet_analysis_results(this.rdanalysis,reswp,countwp,reshp,counthp);
 
@@ -188,8 +194,10 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 		err = resdet_parameters_set_threshold(params,parameters['threshold']);
 	if(!err && 'compression_filter' in parameters)
 		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
-	if(err)
+	if(err) {
+		Module._free(params);
 		throw new RDError(err);
+	}
 
 	return params;
 }
@@ -197,18 +205,16 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 function resDetect(float32Array: Float32Array, nimages: number, width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
 	const params = parametersFromObj(parameters)
 
-	const buf = Module._malloc(float32Array.length*4);
-	if(!buf)
-		throw new OutOfMemoryError();
+	let ptrs;
+	try {
+		ptrs = allocate(float32Array.length*4,4,4,4,4);
+	} catch(e) {
+		Module._free(params);
+		throw e;
+	}
+	const [buf, countwp, counthp, reswp, reshp] = ptrs as [number, number, number, number, number];
 	Module.HEAPF32.set(float32Array,buf/4);
 
-	const countwp = Module._malloc(4);
-	const counthp = Module._malloc(4);
-	const reswp = Module._malloc(4);
-	const reshp = Module._malloc(4);
-	if(!(countwp && counthp && reswp && reshp))
-		throw new OutOfMemoryError();
-
 	const err = resdetect(buf, nimages, width, height, reswp, countwp, reshp, counthp, method?.rdmethod, params);
 	Module._free(params);
 	Module._free(buf);
-- 
2.43.0


From 57ab0c590ffecba5ff11d55db733c7cc84b8362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 40/51] fix: js: images smaller than their dimensions were read
 out of bounds

---
 bindings/emscripten/resdet.mts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 76b6c57..343c7e8 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -32,6 +32,8 @@ class RDError extends Error {
 	}
 }
 
+const RDEPARAM = 6;
+
 function allocate(...sizes: number[]): number[] {
 	const ptrs = sizes.map(size => Module._malloc(size));
 	if(ptrs.includes(0)) {
@@ -102,6 +104,7 @@ const analysisFinalizationRegistry = new FinalizationRegistry((rdanalysis: numbe
 
 class Analysis {
 	rdanalysis: number
+	npixels: number
 
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
 		const params = parametersFromObj(parameters)
@@ -119,10 +122,14 @@ class Analysis {
 		if(err)
 			throw new RDError(err);
 
+		this.npixels = width*height;
 		analysisFinalizationRegistry.register(this,this.rdanalysis)
 	}
 
 	analyzeImage(float32Array: Float32Array) {
+		if(float32Array.length < this.npixels)
+			throw new RDError(RDEPARAM);
+
 		const buf = Module._malloc(float32Array.length*4);
 		if(!buf)
 			throw new OutOfMemoryError();
@@ -203,6 +210,9 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 }
 
 function resDetect(float32Array: Float32Array, nimages: number, width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
+	if(float32Array.length < nimages*width*height)
+		throw new RDError(RDEPARAM);
+
 	const params = parametersFromObj(parameters)
 
 	let ptrs;
-- 
2.43.0


From f95ae0d6a1bcac6a427b39dc0ad927a40694ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 41/51] fix: js: fractions and numbers out of range were
 silently taken modulo 2^32

---
 bindings/emscripten/resdet.mts | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 343c7e8..00666b3 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -34,6 +34,14 @@ class RDError extends Error {
 
 const RDEPARAM = 6;
 
+// numbers passed to the library as they are would be taken modulo 2^32
+function checkedInteger(value: number) {
+	value = Number(value);
+	if(!Number.isInteger(value) || value < 0 || value > 0xFFFFFFFF)
+		throw new RDError(RDEPARAM);
+	return value;
+}
+
 function allocate(...sizes: number[]): number[] {
 	const ptrs = sizes.map(size => Module._malloc(size));
 	if(ptrs.includes(0)) {
@@ -107,6 +115,9 @@ class Analysis {
 	npixels: number
 
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
+		width = checkedInteger(width);
+		height = checkedInteger(height);
+
 		const params = parametersFromObj(parameters)
 		const errp = Module._malloc(4);
 		if(!errp) {
@@ -190,17 +201,22 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(unrecognized.length)
 		throw new Error(`Unrecognized parameters: ${unrecognized}`);
 
+	const range = 'range' in parameters ? checkedInteger(parameters['range']) : 0;
+	const compression_filter = 'compression_filter' in parameters ? checkedInteger(parameters['compression_filter']) : 0;
+	if(compression_filter > 0xFF)
+		throw new RDError(RDEPARAM);
+
 	const params = resdet_alloc_default_parameters();
 	if(!params)
 		throw new OutOfMemoryError();
 
 	let err;
 	if('range' in parameters)
-		err = resdet_parameters_set_range(params,parameters['range']);
+		err = resdet_parameters_set_range(params,range);
 	if(!err && 'threshold' in parameters)
 		err = resdet_parameters_set_threshold(params,parameters['threshold']);
 	if(!err && 'compression_filter' in parameters)
-		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+		err = resdet_parameters_set_compression_filter(params,compression_filter);
 	if(err) {
 		Module._free(params);
 		throw new RDError(err);
@@ -210,6 +226,9 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 }
 
 function resDetect(float32Array: Float32Array, nimages: number, width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
+	nimages = checkedInteger(nimages);
+	width = checkedInteger(width);
+	height = checkedInteger(height);
 	if(float32Array.length < nimages*width*height)
 		throw new RDError(RDEPARAM);
 
-- 
2.43.0


From 9726ec8640e65b6dd0caff8744fab9e84d51be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 42/51] fix: an image that failed in the height still counted
 in the width

---
 lib/analysis.c        | 17 ++++++++++++++++-
 lib/resdet_internal.h |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/analysis.c b/lib/analysis.c
index 7317ffc..561663a 100644
--- a/lib/analysis.c
+++ b/lib/analysis.c
@@ -49,6 +49,7 @@ RESDET_API RDAnalysis* resdet_create_analysis(RDMethod* method, size_t width, si
 	analysis->params = params ? *params : default_params;
 	analysis->nimages = 0;
 	analysis->xresult = analysis->yresult = NULL;
+	analysis->xprevious = NULL;
 	analysis->p = NULL;
 	analysis->f = NULL;
 
@@ -81,6 +82,11 @@ RESDET_API RDAnalysis* resdet_create_analysis(RDMethod* method, size_t width, si
 		goto error;
 	if((e = setup_dimension(height,analysis->params.range,&analysis->yresult,analysis->ybound)) != RDEOK)
 		goto error;
+	if(analysis->xresult && analysis->yresult &&
+	  !(analysis->xprevious = malloc((width-analysis->params.range*2)*sizeof(*analysis->xprevious)))) {
+		e = RDENOMEM;
+		goto error;
+	}
 
 	if(error)
 		*error = RDEOK;
@@ -113,12 +119,20 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 
 	resdet_transform(analysis->p);
 
+	size_t xsize = (width-analysis->params.range*2)*sizeof(*analysis->xresult);
+	if(analysis->xprevious)
+		memcpy(analysis->xprevious,analysis->xresult,xsize);
+
 	if(analysis->xresult &&
 	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,width,height,width,1,analysis->params.range,analysis->xresult,analysis->xbound,analysis->xbound+1)) != RDEOK)
 		goto end;
 	if(analysis->yresult &&
-	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK)
+	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK) {
+		// the image must not count in one dimension only
+		if(analysis->xprevious)
+			memcpy(analysis->xresult,analysis->xprevious,xsize);
 		goto end;
+	}
 
 	analysis->nimages++;
 
@@ -199,6 +213,7 @@ RESDET_API void resdet_destroy_analysis(RDAnalysis* analysis) {
 
 	free(analysis->xresult);
 	free(analysis->yresult);
+	free(analysis->xprevious);
 	resdet_free_plan(analysis->p);
 	resdet_free_coeffs(analysis->f);
 	free(analysis);
diff --git a/lib/resdet_internal.h b/lib/resdet_internal.h
index a7095ed..0ec9b67 100644
--- a/lib/resdet_internal.h
+++ b/lib/resdet_internal.h
@@ -73,6 +73,7 @@ struct RDAnalysis {
 	coeff* f;
 	resdet_plan* p;
 	intermediate* xresult,* yresult;
+	intermediate* xprevious; // to restore xresult if an image fails in the other dimension
 	rdint_index xbound[2], ybound[2];
 };
 
-- 
2.43.0


From c42cd2f97bb76a78f7176f2e8be1fd2ff41de2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 43/51] fix: profile took a dictionary it could not read for
 the end of it

---
 src/profile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index 933dead..4412dd2 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -185,6 +185,10 @@ read_end:
 		free(image);
 	}
 	free(line);
+	if(ferror(dict)) {
+		fprintf(stderr,"Error reading dictionary file\n");
+		ret = 1;
+	}
 	fclose(dict);
 
 	puts("totals");
-- 
2.43.0


From b88d2b741a3f1436c5f07b1b2283bb6b41776b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 44/51] fix: resdet.pc named the default directories whatever
 --libprefix and --incprefix were

---
 configure        | 5 +++++
 lib/resdet.pc.in | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/configure b/configure
index 48e5eff..1daa6b8 100755
--- a/configure
+++ b/configure
@@ -260,6 +260,11 @@ rm -f -- "$cctmp"
 
 echo
 
+# Relative to the prefix where they are under it
+pcvar='${prefix}'
+PCINCDIR="${INCPREFIX/#$PREFIX/$pcvar}"
+pcvar='${exec_prefix}'
+PCLIBDIR="${LIBPREFIX/#$PREFIX/$pcvar}"
 expand lib/resdet.pc.in lib/resdet.pc
 
 if [ -n "$PCDEPS" ]; then
diff --git a/lib/resdet.pc.in b/lib/resdet.pc.in
index 8047433..b9fa602 100644
--- a/lib/resdet.pc.in
+++ b/lib/resdet.pc.in
@@ -1,7 +1,7 @@
 prefix=$PREFIX
 exec_prefix=\\${prefix}
-includedir=\\${prefix}/include
-libdir=\\${exec_prefix}/lib
+includedir=$PCINCDIR
+libdir=$PCLIBDIR
 libname=resdet
 
 Name: resdet
-- 
2.43.0


From 4b51c0c87d6a01d3685a5838af7ac1c895940f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 45/51] fix: grey images in floating point came out of the
 FFmpeg reader with three quarters of each row unset

---
 lib/image/ffmpeg.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 93a0bb6..3a88fb9 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -169,12 +169,17 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto averror;
 	}
 
-	if((ctx->swsframe->format != ctx->sws_format && (averr = init_sws(ctx,width,height,ctx->swsframe->format)) < 0) ||
-	   (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
-		goto averror;
+	// frames that are already in the output format don't need conversion, and libswscale doesn't copy the whole of them
+	AVFrame* frame = ctx->swsframe;
+	if(frame->format != ctx->frame->format) {
+		if((frame->format != ctx->sws_format && (averr = init_sws(ctx,width,height,frame->format)) < 0) ||
+		   (averr = sws_scale_frame(ctx->sws,ctx->frame,frame)) < 0)
+			goto averror;
+		frame = ctx->frame;
+	}
 
 	for(size_t y = 0; y < height; y++)
-		memcpy(image+y*width,ctx->frame->data[0]+y*ctx->frame->linesize[0],width*sizeof(float));
+		memcpy(image+y*width,frame->data[0]+(ptrdiff_t)y*frame->linesize[0],width*sizeof(float));
 
 	return true;
 
-- 
2.43.0


From 212e8fd430552e35e616b70f79ca47c8ff7d0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 46/51] fix: visualize.sh drew whatever resdet printed even if
 it had failed

---
 src/visualize.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/visualize.sh b/src/visualize.sh
index 095b048..c316d5c 100755
--- a/src/visualize.sh
+++ b/src/visualize.sh
@@ -56,7 +56,8 @@ output=$2
 [ -z "$output" ] && usage
 
 read full_width full_height < <(identify -ping -format '%w %h\n' "$image")
-read detected_width detected_height < <(resdet $resdet_opts -v 1 -- "$image")
+detected=$(resdet $resdet_opts -v 1 -- "$image")
+read detected_width detected_height <<< "$detected"
 
 spec $spec_opts -- "$image" - | magick - -stroke "$line_color" -strokewidth "$line_thickness" -draw \
 	"line $((full_width-line_length)),$detected_height $full_width,$detected_height \
-- 
2.43.0


From d979dfe18025cf27ceba0ab87171a5a872c11bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 47/51] fix: resdet took negative ranges, offsets and numbers
 of frames for huge ones

---
 src/resdet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resdet.c b/src/resdet.c
index cd6cf31..93a20fc 100644
--- a/src/resdet.c
+++ b/src/resdet.c
@@ -92,14 +92,14 @@ int main(int argc, char* argv[]) {
 			case 'f': filter_opt = optarg; break;
 			case 'o':
 				offset = strtoull(optarg,&endptr,10);
-				if(optarg == endptr) {
+				if(optarg == endptr || strchr(optarg,'-')) {
 					fprintf(stderr,"Invalid offset %s\n",optarg);
 					return 1;
 				}
 				break;
 			case 'n':
 				nframes = strtoull(optarg,&endptr,10);
-				if(!nframes || optarg == endptr) {
+				if(!nframes || optarg == endptr || strchr(optarg,'-')) {
 					fprintf(stderr,"Invalid nframes %s\n",optarg);
 					return 1;
 				}
@@ -143,7 +143,7 @@ int main(int argc, char* argv[]) {
 	}
 	if(range_opt) {
 		size_t range = strtoull(range_opt,&endptr,10);
-		if(range_opt == endptr || resdet_parameters_set_range(params,range)) {
+		if(range_opt == endptr || strchr(range_opt,'-') || resdet_parameters_set_range(params,range)) {
 			fprintf(stderr,"Invalid range value %s\n",range_opt);
 			free(params);
 			return 1;
-- 
2.43.0


From 8296806c89b6601aa025a43cee6541e5e6d45f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 48/51] fix: resdet took a verbosity that is not a number for
 silence

---
 src/resdet.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resdet.c b/src/resdet.c
index 93a20fc..a839000 100644
--- a/src/resdet.c
+++ b/src/resdet.c
@@ -69,7 +69,13 @@ int main(int argc, char* argv[]) {
 	char* endptr;
 	while((c = getopt(argc,argv,"v:m:t:x:r:pn:o:R:f:hV")) != -1) {
 		switch(c) {
-			case 'v': verbosity = strtol(optarg,NULL,10); break;
+			case 'v':
+				verbosity = strtol(optarg,&endptr,10);
+				if(optarg == endptr) {
+					fprintf(stderr,"Invalid verbosity %s\n",optarg);
+					return 1;
+				}
+				break;
 			case 'm': method = optarg; break;
 			case 't': type = optarg; break;
 			case 'R':
-- 
2.43.0


From 84b8c276b61fe63a7ea016babe8f27731e4b50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 49/51] fix: resdet took some negative filter values for
 positive ones

---
 src/resdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resdet.c b/src/resdet.c
index a839000..d5a9a9f 100644
--- a/src/resdet.c
+++ b/src/resdet.c
@@ -157,7 +157,7 @@ int main(int argc, char* argv[]) {
 	}
 	if(filter_opt && strcmp(filter_opt,"auto")) {
 		unsigned long value = strtoul(filter_opt,&endptr,10);
-		if(filter_opt == endptr || value > UINT8_MAX || resdet_parameters_set_compression_filter(params,value)) {
+		if(filter_opt == endptr || strchr(filter_opt,'-') || value > UINT8_MAX || resdet_parameters_set_compression_filter(params,value)) {
 			fprintf(stderr,"Invalid filter value %s\n",filter_opt);
 			free(params);
 			return 1;
-- 
2.43.0


From c48c6cd662c1c9a296ca84e3c0892e81ebfa0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 50/51] fix: PFM files were refused in programs whose locale
 has a decimal comma

---
 lib/image/pfm.c | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 240b12f..15ff8ea 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -85,6 +85,44 @@ static inline bool skip_comments(FILE* f) {
 	return c != EOF && ungetc(c,f) == c;
 }
 
+// the scale and the space after it, whose decimal point is a full stop in every locale
+static bool read_scale(FILE* f, float* scale) {
+	if(fscanf(f," ") == EOF)
+		return false;
+
+	int c = fgetc(f);
+	float sign = c == '-' ? -1 : 1;
+	if(c == '-' || c == '+')
+		c = fgetc(f);
+
+	// only the sign of the scale matters
+	*scale = 0;
+	bool digits = false, point = false;
+	for(; isdigit(c) || (c == '.' && !point); c = fgetc(f)) {
+		if(c == '.')
+			point = true;
+		else {
+			digits = true;
+			if(c != '0')
+				*scale = sign;
+		}
+	}
+	if(!digits)
+		return false;
+
+	if(c == 'e' || c == 'E') {
+		c = fgetc(f);
+		if(c == '-' || c == '+')
+			c = fgetc(f);
+		if(!isdigit(c))
+			return false;
+		while(isdigit(c))
+			c = fgetc(f);
+	}
+
+	return isspace(c);
+}
+
 static void* pfm_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
 	struct pfm_context* ctx = malloc(sizeof(*ctx));
 	if(!ctx) {
@@ -103,8 +141,8 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 	   !(ctx->format == 'f' || ctx->format == 'F') ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
-	   !isspace(fgetc(ctx->f))
+	   fscanf(ctx->f,"%zu %zu",width,height) != 2 ||
+	   !read_scale(ctx->f,&ctx->endianness_scale)
 	) {
 		*error = RDEINVAL;
 		goto error;
@@ -137,8 +175,8 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 	    !(next_format == 'f' || next_format == 'F') ||
 	    fscanf(ctx->f," ") == EOF ||
 		!skip_comments(ctx->f) ||
-	    fscanf(ctx->f,"%zu %zu %f",&next_width,&next_height,&next_endianness_scale) != 3 ||
-	    !isspace(fgetc(ctx->f)) ||
+	    fscanf(ctx->f,"%zu %zu",&next_width,&next_height) != 2 ||
+	    !read_scale(ctx->f,&next_endianness_scale) ||
 	    next_width != width ||
 		next_height != height
 	) {
-- 
2.43.0


From 7a494a92fa961b38e44ea8d268f26125d5906486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 51/51] fix: reader names were not found regardless of case in
 Turkish locales

---
 lib/image.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index b65166b..80927bc 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -5,8 +5,6 @@
 
 #include "image.h"
 
-#include <ctype.h>
-
 #ifdef _WIN32
 #include <fcntl.h>
 #include <io.h>
@@ -28,9 +26,14 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 	return RDEOK;
 }
 
+// tolower depends on the locale
+static inline char lower(char c) {
+	return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+}
+
 bool resdet_strieq(const char* left, const char* right) {
 	while(*left && *right)
-		if(tolower(*left++) != tolower(*right++))
+		if(lower(*left++) != lower(*right++))
 			return false;
 	return *left == *right;
 }
-- 
2.43.0

