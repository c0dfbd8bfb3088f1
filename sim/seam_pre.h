/* -fno-builtin (needed so that no allocation or stdio call is optimised past the seam) makes clang forget that setjmp returns twice. */
#include <setjmp.h>
extern int _setjmp(struct __jmp_buf_tag *) __attribute__((returns_twice));
extern int setjmp(struct __jmp_buf_tag *) __attribute__((returns_twice));
