/*
 * Threads, locks and clocks for the harnesses.
 *
 * The threads of the code under test are coroutines.  At each yield point
 * (locks, condition variables, atomic operations, watched memory accesses in
 * a build with -fsanitize=thread) the scheduler makes a symbolic choice, so
 * that the schedules within the bounds below are all explored.
 */
#pragma once
#include <stdint.h>

extern int rt_preempt;      /* remaining involuntary switches */
extern int rt_quantum;      /* a thread runs at most this many yield points */
extern int rt_spurious;     /* remaining spurious wakeups */
extern int rt_create_fail;  /* pthread_create may fail this many times */
extern int rt_idle;         /* timeouts since anything else happened */
extern int rt_idle_max;     /* more of these: rt_stuck is called */
extern void (*rt_stuck)(void);
extern uint64_t rt_now;     /* virtual time, ns */
extern uint64_t rt_tick;    /* each reading of CLOCK_MONOTONIC takes this */
extern uint64_t rt_clock_base; /* CLOCK_REALTIME - CLOCK_MONOTONIC, ns */
extern int rt_threads;      /* threads created so far, with the main thread */
extern int rt_switches;

int rt_thr_self(void);
int rt_thr_spawn(void (*fn)(void *), void *arg);
int rt_thr_done(int t);
/* run the others until thread t has ended */
void rt_thr_join(int t);
void rt_yield(void);
/* accesses for which this returns nonzero are yield points */
extern int (*rt_watch)(const void *p);
/* called for each watched access, before it happens */
extern void (*rt_access)(const void *p, int size, int write, int atomic);
