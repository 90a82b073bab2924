#ifndef M32_STDIO
#define M32_STDIO
#include "stddefs.h"
typedef struct M32File FILE;
extern FILE *stdin, *stdout, *stderr;
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define EOF (-1)
FILE *fopen(const char *, const char *);
int fclose(FILE *);
int fseek(FILE *, long, int);
long ftell(FILE *);
void rewind(FILE *);
size_t fread(void *, size_t, size_t, FILE *);
size_t fwrite(const void *, size_t, size_t, FILE *);
int feof(FILE *);
int ferror(FILE *);
int fgetc(FILE *);
int printf(const char *, ...);
int fprintf(FILE *, const char *, ...);
int snprintf(char *, size_t, const char *, ...);
int sprintf(char *, const char *, ...);
int puts(const char *);
int putchar(int);
int fflush(FILE *);
int fputs(const char *, FILE *);
#endif
