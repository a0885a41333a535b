/*
 * ref.h - reference model of detection, written from the documentation and not from the library's code:
 * the 2D DCT-II of the image, and for each candidate position of a dimension the method's score, as an interval
 * [lo,hi] that allows for the rounding of a single precision transform (a coefficient whose sign or size rounding
 * could change counts both ways).
 */
#ifndef REF_H
#define REF_H
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "resdet.h"

enum { M_SIGN, M_MAG, M_ORIG, M_ZEROX };
static const char* const ref_method_name[] = {"sign","mag","orig","zerox"};
static const float ref_method_threshold[] = {0.55f,0.40f,0.64f,0.5f};

static double* ref_costab(size_t n) {
	/* cos(pi*j/(2n)), j = 0..4n-1 */
	static double* tab[4]; static size_t tn[4]; static int next;
	for(int i = 0; i < 4; i++) if(tn[i] == n) return tab[i];
	double* t = malloc(sizeof(*t)*4*n);
	for(size_t j = 0; j < 4*n; j++) t[j] = cos(M_PI*j/(2.0*n));
	free(tab[next]); tab[next] = t; tn[next] = n;
	next = (next+1)%4;
	return t;
}
/* F[k] = 2 sum_i f[i] cos(pi (i+1/2) k / n) for each of m vectors; zero entries are skipped */
static void ref_dct1(const double* f, double* F, size_t n, size_t stride) {
	double* t = ref_costab(n);
	for(size_t k = 0; k < n; k++) F[k*stride] = 0;
	for(size_t i = 0; i < n; i++) {
		double v = f[i*stride]*2;
		if(v == 0) continue;
		size_t step = 2*i+1, a = 0, mod = 4*n; /* angle index (2i+1)k mod 4n */
		for(size_t k = 0; k < n; k++) { F[k*stride] += v*t[a]; a += step; if(a >= mod) a -= mod; }
	}
}
static void ref_idct1(const double* F, double* f, size_t n, size_t stride) {
	double* t = ref_costab(n);
	for(size_t i = 0; i < n; i++) {
		double s = F[0]/2; size_t step = 2*i+1, a = 0, mod = 4*n;
		for(size_t k = 0; k < n; k++) { if(k) s += F[k*stride]*t[a]; a += step; if(a >= mod) a -= mod; }
		f[i*stride] = s/n;
	}
}
static void ref_dct2(const float* img, double* F, size_t w, size_t h) {
	double* tmp = malloc(sizeof(*tmp)*w*h);
	for(size_t i = 0; i < w*h; i++) tmp[i] = img[i];
	for(size_t y = 0; y < h; y++) ref_dct1(tmp+y*w,F+y*w,w,1);
	/* columns: accumulate row by row, which keeps memory access regular and skips empty rows */
	double* t = ref_costab(h);
	for(size_t i = 0; i < w*h; i++) tmp[i] = 0;
	for(size_t i = 0; i < h; i++) {
		bool empty = true;
		for(size_t x = 0; x < w && empty; x++) empty = F[i*w+x] == 0;
		if(empty) continue;
		size_t step = 2*i+1, a = 0, mod = 4*h;
		for(size_t k = 0; k < h; k++) {
			double c = 2*t[a];
			for(size_t x = 0; x < w; x++) tmp[k*w+x] += c*F[i*w+x];
			a += step; if(a >= mod) a -= mod;
		}
	}
	memcpy(F,tmp,sizeof(*F)*w*h);
	free(tmp);
}
static void ref_idct2(const double* F, float* img, size_t w, size_t h) {
	double* tmp = malloc(sizeof(*tmp)*w*h),* out = malloc(sizeof(*out)*w*h);
	for(size_t y = 0; y < h; y++) ref_idct1(F+y*w,tmp+y*w,w,1);
	for(size_t x = 0; x < w; x++) ref_idct1(tmp+x,out+x,h,w);
	for(size_t i = 0; i < w*h; i++) img[i] = out[i];
	free(tmp); free(out);
}
static size_t ref_maxprime(size_t n) {
	size_t m = 1;
	for(size_t p = 2; p*p <= n; p++) while(n%p == 0) { m = p; n /= p; }
	return n > m ? n : m;
}
/* what the precision of the build makes of the bounds below */
#ifndef REF_COEFF
#define REF_COEFF 1
#endif
#ifndef REF_HUGE
#define REF_HUGE 0 /* coefficients and sums of them may leave the range of single precision */
#endif
#ifndef REF_INTER
#define REF_INTER 1
#endif
/* bound on the absolute error of one single precision coefficient */
static double ref_tol(const float* img, size_t w, size_t h) {
	double e = 0;
	for(size_t i = 0; i < w*h; i++) e += (double)img[i]*img[i];
	double pw = ref_maxprime(w), ph = ref_maxprime(h), p = sqrt(pw > ph ? pw : ph);
	return 2*sqrt(e) * (5.97e-8*REF_COEFF) * 8 * (log2((double)w)+log2((double)h)+4+p) + 1e-43;
}

static inline int ref_sgn(double v, double tol) { return v > tol ? 1 : (v < -tol ? -1 : 0); }
/* one sign pair: does it invert?  lo/hi */
static inline void ref_signpair(double a, double b, double tol, int* lo, int* hi) {
	int sa = ref_sgn(a,tol), sb = ref_sgn(b,tol);
	if(!sa || !sb) { *hi += 1; return; }
	if(sa != sb) { *lo += 1; *hi += 1; }
}
static uint64_t ref_certain, ref_uncertain;

/* candidates are range..length-range-1; lo/hi indexed from 0; returns their number */
static size_t ref_candidates(size_t length, size_t range, int method, size_t* first) {
	if(method == M_ZEROX) range = 1;
	*first = range;
	if(length < 3 || range > (length-1)/2) return 0; /* at least one position with `range` neighbours on both sides */
	return length-2*range;
}
/* F addressed as f[y*stride + x*dist], x along the dimension, y over the n lines across it */
static size_t ref_scores(const double* f, size_t length, size_t n, size_t stride, size_t dist, int method, size_t range, double tol, double* lo, double* hi) {
	size_t first, cnt = ref_candidates(length,range,method,&first);
	if(!cnt) return 0;
	if(method == M_ZEROX) range = 1;
	double* sum = NULL;
	if(method == M_ORIG) {
		sum = calloc(length,sizeof(*sum));
		for(size_t y = 0; y < n; y++) for(size_t x = 0; x < length; x++) sum[x] += fabs(f[y*stride+x*dist]);
		for(size_t x = 0; x < length; x++) sum[x] /= n;
	}
	for(size_t c = 0; c < cnt; c++) {
		size_t x = c+first;
		double l = 0, h = 0;
		for(size_t y = 0; y < n; y++) {
			const double* r = f+y*stride;
			int li = 0, hi_ = 0;
			if(method == M_ZEROX) {
				double a = r[(x-1)*dist], m = r[x*dist], b = r[(x+1)*dist];
				int sa = ref_sgn(a,tol), sb = ref_sgn(b,tol);
				int up = (m-a > 2*tol && b-m > 2*tol) || (m-a < -2*tol && b-m < -2*tol);
				int notmono = (m-a > 2*tol && b-m < -2*tol) || (m-a < -2*tol && b-m > 2*tol);
				if(sa && sb && sa != sb && up) { li = hi_ = 1; }
				else if((sa && sb && sa == sb) || notmono) ;
				else hi_ = 1;
			}
			else for(size_t i = 1; i <= range; i++) {
				double a = r[(x-i)*dist], b = r[(x+i)*dist];
				if(method == M_MAG) {
					/* "similar magnitude with inverted sign": |a/b + 1| < 1, i.e. -2 < a/b < 0 */
					int sa = ref_sgn(a,tol), sb = ref_sgn(b,tol);
					double fa = fabs(a), fb = fabs(b);
					if(sa && sb && sa == sb) continue;
					if(sb && fa-tol > 2.0001*(fb+tol)) continue;
					if(sa && sb && fa+tol < 1.9999*(fb-tol) && fa-tol > 1e-5*(fb+tol)) { li++; hi_++; }
					else hi_++;
				}
				else ref_signpair(a,b,tol,&li,&hi_);
			}
			l += li; h += hi_;
		}
		l /= (double)n*range; h /= (double)n*range;
		if(method == M_ORIG) {
			/* low magnitude in the middle, similar magnitude on both sides */
			double left = 0, right = 0, mid = sum[x]*range, e = tol*range*2+1e-12*range*(sum[x]+1);
			for(size_t i = 1; i <= range; i++) { left += sum[x-i]; right += sum[x+i]; }
			e += 1e-9*REF_INTER*(left+right+mid);
			double d = fabs(left-right), m1 = (left < right ? left : right)-mid, m2 = fabs(left-mid)-d, m3 = fabs(right-mid)-d;
			bool yes = m1 > 2*e && m2 > 4*e && m3 > 4*e, no = m1 < -2*e || m2 < -4*e || m3 < -4*e;
			if(no) l = h = 0;
			else if(!yes) l = 0;
		}
		if(h-l < 1e-9) ref_certain++; else ref_uncertain++;
		lo[c] = l; hi[c] = h;
	}
	free(sum);
	return cnt;
}

/*
 * compare one dimension's result list with the score intervals; returns NULL or what is wrong.
 * Only the content is judged here: which positions are listed and with which confidence.
 */
#define REF_EPS 2e-6
static const char* ref_compare(const RDResolution* r, size_t count, size_t length, size_t first, size_t cnt, const double* lo, const double* hi, double thr, char* why, size_t whylen) {
	char* seen = calloc(cnt+1,1);
	const char* ret = NULL;
	if(!r || !count || r[count-1].index != length || r[count-1].confidence != -1) {
		snprintf(why,whylen,"list does not end with the full size and confidence -1 (count %zu)",count);
		ret = why; goto end;
	}
	for(size_t i = 0; i+1 < count; i++) {
		size_t x = r[i].index;
		if(x < first || x >= first+cnt || seen[x-first]) {
			snprintf(why,whylen,"entry %zu: index %zu is %s (candidates %zu..%zu of length %zu)",i,x,x >= first && x < first+cnt ? "listed twice" : "not a candidate",first,first+cnt-1,length);
			ret = why; goto end;
		}
		seen[x-first] = 1;
		double c = r[i].confidence, l = lo[x-first], h = hi[x-first];
		if(!(c >= l-REF_EPS && c <= h+REF_EPS)) {
			snprintf(why,whylen,"index %zu of length %zu has confidence %.9g, the definition gives %s%.9g..%.9g",x,length,c,l == h ? "" : "between ",l,h);
			ret = why; goto end;
		}
		if(h < thr-REF_EPS) {
			snprintf(why,whylen,"index %zu of length %zu is listed although its score %.9g is below the threshold %.9g",x,length,h,thr);
			ret = why; goto end;
		}
	}
	for(size_t c = 0; c < cnt; c++)
		if(!seen[c] && lo[c] >= thr+REF_EPS) {
			snprintf(why,whylen,"index %zu of length %zu is missing although its score is at least %.9g (threshold %.9g)",c+first,length,lo[c],thr);
			ret = why; goto end;
		}
end:
	free(seen);
	return ret;
}
static uint64_t res_hash(const RDResolution* r, size_t n, uint64_t h) {
	for(size_t i = 0; i < n; i++) { h = mc_hashi(r[i].index,h); h = mc_hash(&r[i].confidence,4,h); }
	return h;
}
static bool res_equal(const RDResolution* a, size_t na, const RDResolution* b, size_t nb) {
	if(na != nb) return false;
	for(size_t i = 0; i < na; i++) if(a[i].index != b[i].index || memcmp(&a[i].confidence,&b[i].confidence,4)) return false;
	return true;
}
/* deterministic generic content: a fixed integer mixing function, not a random source */
static inline double ref_noise(uint64_t a, uint64_t b, uint64_t c) {
	uint64_t z = a*0x9e3779b97f4a7c15ull ^ (b+1)*0xbf58476d1ce4e5b9ull ^ (c+1)*0x94d049bb133111ebull;
	z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; z ^= z >> 31;
	return (z >> 11)*(1.0/9007199254740992.0);
}
#endif
