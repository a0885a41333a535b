#pragma once
#include <stddef.h>
#include <stdarg.h>
typedef struct FILE FILE;
extern FILE* stdin,* stdout,* stderr;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
FILE* fopen(const char*, const char*); int fclose(FILE*); size_t fread(void*, size_t, size_t, FILE*); size_t fwrite(const void*, size_t, size_t, FILE*); int fgetc(FILE*); int getc(FILE*); int ungetc(int, FILE*);
int fseek(FILE*, long, int); long ftell(FILE*); void rewind(FILE*); int fscanf(FILE*, const char*, ...); int sscanf(const char*, const char*, ...); int fprintf(FILE*, const char*, ...); int printf(const char*, ...); int ferror(FILE*); int feof(FILE*); char* fgets(char*, int, FILE*);
