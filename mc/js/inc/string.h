#pragma once
#include <stddef.h>
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
size_t strlen(const char*); int strcmp(const char*, const char*); int strncmp(const char*, const char*, size_t); char* strchr(const char*, int); char* strrchr(const char*, int); char* strdup(const char*); char* strerror(int); char* strstr(const char*, const char*);
