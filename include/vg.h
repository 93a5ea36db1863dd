/* Common part of every proof unit. */
#ifndef VG_H
#define VG_H
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>
#include <string.h>
#include <stdio.h>

/* Named obligation: the text is what the check reports when it fails. */
#define VG_ASSERT(cond, name) __CPROVER_assert(cond, name)
#define VG_ASSUME(cond) __CPROVER_assume(cond)
/* Reachability guard: must FAIL (be reachable), the driver checks that. */
#ifdef VG_COVERS
#define VG_COVER(name) __CPROVER_assert(0, "COVER " name)
#else
#define VG_COVER(name)
#endif

#define VG_MAX27 0x7ffffff

#endif
