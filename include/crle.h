/* Contract of delivering repeated bytes, proved in unit crle_run. */
#ifndef CRLE_H
#define CRLE_H

static size_t g_wit;        /* any index into what is delivered */

#define CRLE_LEFT (__CPROVER_old(crle_p->kind.repeated.number_of_bytes_left))
#define CRLE_RUN_CONTRACT                                                \
__CPROVER_requires(*size_p >= 1 && *size_p <= 128)                       \
__CPROVER_requires(__CPROVER_w_ok(buf_p, *size_p))                       \
__CPROVER_requires(crle_p->state == detools_crle_state_repeated_data_read_t) \
__CPROVER_requires(crle_p->kind.repeated.number_of_bytes_left > 0)       \
__CPROVER_assigns(*size_p, crle_p->state,                                \
                  crle_p->kind.repeated.number_of_bytes_left,            \
                  __CPROVER_object_whole(buf_p))                         \
__CPROVER_ensures(__CPROVER_return_value == 0)                           \
__CPROVER_ensures(*size_p == (__CPROVER_old(*size_p) < CRLE_LEFT         \
                              ? __CPROVER_old(*size_p) : CRLE_LEFT))     \
__CPROVER_ensures(crle_p->kind.repeated.number_of_bytes_left             \
                  == CRLE_LEFT - *size_p)                                \
__CPROVER_ensures(crle_p->state                                          \
                  == (crle_p->kind.repeated.number_of_bytes_left == 0    \
                      ? detools_crle_state_idle_t                        \
                      : detools_crle_state_repeated_data_read_t))        \
__CPROVER_ensures(g_wit >= *size_p                                       \
                  || buf_p[g_wit] == crle_p->kind.repeated.value)

#endif
