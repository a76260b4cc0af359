#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct vf_file FILE; extern FILE *stderr, *stdout, *stdin;
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int sprintf(char *, const char *, ...); int snprintf(char *, size_t, const char *, ...); int sscanf(const char *, const char *, ...);
int puts(const char *); int vsnprintf(char *, size_t, const char *, va_list);
FILE *fopen(const char *, const char *); int fclose(FILE *); size_t fread(void *, size_t, size_t, FILE *); size_t fwrite(const void *, size_t, size_t, FILE *);
#define EOF (-1)
int fgetc(FILE *); int getc(FILE *); int ungetc(int, FILE *); int fputc(int, FILE *); int fputs(const char *, FILE *); int putchar(int); char *fgets(char *, int, FILE *); int feof(FILE *); int ferror(FILE *); int fseek(FILE *, long, int); long ftell(FILE *); int fflush(FILE *); void perror(const char *); int fscanf(FILE *, const char *, ...); void rewind(FILE *); int vsprintf(char *, const char *, va_list); char *tmpnam(char *);
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#endif
