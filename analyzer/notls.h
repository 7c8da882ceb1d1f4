/* Force-included. The opentls package is not available here, so the TLS module
 * (include/async_tls.h, src/async_tls.c) is left out: this switches its header off by
 * its own include guard and declares the few non-TLS things the rest takes from it. */
#ifndef VP_NOTLS_H
#define VP_NOTLS_H
#define _ASYNC_TLS_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
/* Members of events_fd_t, pointers only, never set in this build. */
typedef struct tls_config tls_config_t;
typedef struct tls tls_s;

#ifndef MAXHOSTNAMELEN
#	define MAXHOSTNAMELEN 256
#endif

#include <stddef.h>
#define in ,
#include <arrays.h>

/* There is no TLS library to start. */
#define events_ssl_init() ((void)0)

/* Only closes the socket, see sysinfo.py. */
void tls_closer(int);

/* Bodies are taken from src/async_tls.c at build time, see sysinfo.py. */
const char *events_uname(void);
const char *events_hostname(void);
const char *events_sysname(void);
#endif
