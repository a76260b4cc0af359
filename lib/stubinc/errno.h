#define errno vf_errno
extern int vf_errno;
#define ERANGE 34
