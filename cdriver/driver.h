/* Descriptor tables emitted per schema (table.c) and used by driver.c. */
#ifndef PBV_DRIVER_H
#define PBV_DRIVER_H

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

enum { K_I32, K_I64, K_U32, K_U64, K_F32, K_F64, K_BOOL, K_STRING, K_BYTES,
       K_ENUM, K_MSG };
enum { L_PLAIN, L_OPTIONAL, L_REPEATED, L_ONEOF };

typedef int (*alloc_fn)(void *);
typedef int (*alloc_n_fn)(void *, int);
typedef void (*select_fn)(void *);
typedef void *(*new_fn)(void *, size_t);
typedef int (*encode_fn)(void *, uint8_t *, size_t);
typedef int (*decode_fn)(void *, const uint8_t *, size_t);

struct fld {
    uint8_t kind;
    uint8_t label;
    uint32_t number;
    int32_t choice;             /* L_ONEOF: value of the choice enum. */
    int32_t sub;                /* K_MSG: message index. */
    size_t off;                 /* Member (L_OPTIONAL: the value). */
    size_t off2;                /* L_OPTIONAL: is_present, L_ONEOF: choice. */
    size_t esize;               /* Size of one element/value. */
    alloc_fn alloc;             /* K_MSG, not repeated. */
    alloc_n_fn alloc_n;         /* L_REPEATED. */
    select_fn select;           /* L_ONEOF, not K_MSG. */
};

struct msg {
    const char *name;
    size_t size;
    int nfields;
    const struct fld *fields;
    int noneofs;
    const size_t *oneof_offs;
    new_fn new_;
    encode_fn encode;
    decode_fn decode;
};

extern const struct msg pbv_msgs[];
extern const int pbv_nmsgs;

#endif
