#pragma once
#include <stddef.h>
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*); void* aligned_alloc(size_t, size_t);
void qsort(void*, size_t, size_t, int(*)(const void*, const void*)); void exit(int); void abort(void); int abs(int); double atof(const char*); int atoi(const char*);
unsigned long strtoul(const char*, char**, int); unsigned long long strtoull(const char*, char**, int); long strtol(const char*, char**, int);
