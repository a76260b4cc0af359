#ifndef VF_CTYPE_H
#define VF_CTYPE_H
int isalpha(int); int isdigit(int); int isspace(int); int isalnum(int); int isupper(int); int islower(int); int toupper(int); int tolower(int); int isprint(int); int isxdigit(int);
#endif
