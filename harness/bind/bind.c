/* The examples listen on a fixed port; several of them are to run at once, so a preloaded bind listens on
   the port in VERIF_PORT instead. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    int (*real)(int, const struct sockaddr *, socklen_t) = (int (*)(int, const struct sockaddr *, socklen_t))dlsym(RTLD_NEXT, "bind");
    const char *port = getenv("VERIF_PORT");
    struct sockaddr_storage s;
    if (port && a && n <= sizeof s) {
        memcpy(&s, a, n);
        if (s.ss_family == AF_INET && ((struct sockaddr_in *)&s)->sin_port)
            ((struct sockaddr_in *)&s)->sin_port = htons(atoi(port));
        if (s.ss_family == AF_INET6 && ((struct sockaddr_in6 *)&s)->sin6_port)
            ((struct sockaddr_in6 *)&s)->sin6_port = htons(atoi(port));
        return real(fd, (struct sockaddr *)&s, n);
    }
    return real(fd, a, n);
}
