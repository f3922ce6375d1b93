/* Model of the parts of libc which the command line uses. */
#pragma once
#include <stddef.h>

#define RT_OUT 4096
extern int rt_capture;      /* 1: keep what is written to the standard output */
extern char rt_out[RT_OUT];
extern size_t rt_nout;
extern const char *rt_in;   /* the standard input */
extern size_t rt_nin, rt_inpos;
extern void (*rt_exit_hook)(int status);
size_t rt_format(char *b, size_t n, const char *f, ...);
