// Preloaded into the real programs: sends what they send to port 53 to an upstream of the check instead,
// and records binds, upstream queries, sleeps and the time limits of the sockets they use.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
#define NFD 65536
static unsigned to_ip[NFD]; // where a descriptor meant to send, 0: nowhere
static int log_fd = -1;
static struct sockaddr_in up;

__attribute__((constructor)) static void init(void) {
    const char *l = getenv("MON_LOG"), *u = getenv("MON_UP");
    if (l) log_fd = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (u) {
        char ip[64];
        int port = 0;
        if (sscanf(u, "%63[^:]:%d", ip, &port) == 2) {
            up.sin_family = AF_INET;
            up.sin_port = htons(port);
            inet_pton(AF_INET, ip, &up.sin_addr);
        }
    }
}

static void say(const char *f, ...) {
    if (log_fd < 0) return;
    int e = errno;
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    char b[300];
    int n = snprintf(b, sizeof b, "%lld ", (long long)t.tv_sec * 1000000 + t.tv_nsec / 1000);
    va_list a;
    va_start(a, f);
    n += vsnprintf(b + n, sizeof b - n - 1, f, a);
    va_end(a);
    b[n++] = '\n';
    syscall(SYS_write, log_fd, b, n);
    errno = e;
}

static int is_up(const struct sockaddr *a) {
    const struct sockaddr_in *i = (const struct sockaddr_in *)a;
    return a && a->sa_family == AF_INET && ntohs(i->sin_port) == 53 && up.sin_port;
}

static const char *ip(unsigned v, char *b) {
    struct in_addr a = {v};
    return inet_ntop(AF_INET, &a, b, 64);
}

// The kind of a socket and its time limit, in microseconds (-1: none).
static void use(const char *what, int fd, int opt) {
    int ty = 0;
    socklen_t n = sizeof ty;
    if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &n)) return;
    struct timeval tv = {0};
    n = sizeof tv;
    getsockopt(fd, SOL_SOCKET, opt, &tv, &n);
    long long us = tv.tv_sec > 1000000000000LL ? 1000000000000000000LL : (long long)tv.tv_sec * 1000000 + tv.tv_usec;
    say("%s %s %s %lld", what, fd >= 0 && fd < NFD && to_ip[fd] ? "upstream" : "server", ty == SOCK_STREAM ? "tcp" : "udp", us ? us : -1);
}

int connect(int fd, const struct sockaddr *a, socklen_t n) {
    if (is_up(a) && fd >= 0 && fd < NFD) {
        int ty = 0;
        socklen_t m = sizeof ty;
        getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &m);
        char b[64];
        to_ip[fd] = ((struct sockaddr_in *)a)->sin_addr.s_addr;
        say("ask %s %s", ty == SOCK_STREAM ? "tcp" : "udp", ip(to_ip[fd], b));
        return REAL(connect)(fd, (struct sockaddr *)&up, sizeof up);
    }
    return REAL(connect)(fd, a, n);
}

int close(int fd) {
    if (fd >= 0 && fd < NFD) to_ip[fd] = 0;
    return REAL(close)(fd);
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    int r = REAL(bind)(fd, a, n);
    int e = errno, ty = 0;
    socklen_t m = sizeof ty;
    getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &m);
    int port = a->sa_family == AF_INET ? ntohs(((struct sockaddr_in *)a)->sin_port) : a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *)a)->sin6_port) : -1;
    say("bind %s %d %d", ty == SOCK_STREAM ? "tcp" : "udp", port, r);
    errno = e;
    return r;
}

ssize_t sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
    if (is_up(a) && fd >= 0 && fd < NFD) {
        char b[64];
        to_ip[fd] = ((struct sockaddr_in *)a)->sin_addr.s_addr;
        say("ask udp %s", ip(to_ip[fd], b));
        a = (struct sockaddr *)&up;
        al = sizeof up;
    }
    use("send", fd, SO_SNDTIMEO);
    return REAL(sendto)(fd, p, n, fl, a, al);
}

ssize_t send(int fd, const void *p, size_t n, int fl) {
    use("send", fd, SO_SNDTIMEO);
    return REAL(send)(fd, p, n, fl);
}

ssize_t recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    use("recv", fd, SO_RCVTIMEO);
    ssize_t r = REAL(recvfrom)(fd, p, n, fl, a, al);
    if (r >= 0 && a && fd >= 0 && fd < NFD && to_ip[fd] && a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_port == up.sin_port) {
        ((struct sockaddr_in *)a)->sin_addr.s_addr = to_ip[fd];
        ((struct sockaddr_in *)a)->sin_port = htons(53);
    }
    return r;
}

ssize_t recv(int fd, void *p, size_t n, int fl) {
    use("recv", fd, SO_RCVTIMEO);
    return REAL(recv)(fd, p, n, fl);
}

int getpeername(int fd, struct sockaddr *a, socklen_t *n) {
    int r = REAL(getpeername)(fd, a, n);
    if (r == 0 && fd >= 0 && fd < NFD && to_ip[fd] && a->sa_family == AF_INET) {
        ((struct sockaddr_in *)a)->sin_addr.s_addr = to_ip[fd];
        ((struct sockaddr_in *)a)->sin_port = htons(53);
    }
    return r;
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    say("sleep %lld %ld", (long long)t->tv_sec, t->tv_nsec);
    return REAL(nanosleep)(t, rem);
}

int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (!(fl & TIMER_ABSTIME)) say("sleep %lld %ld", (long long)t->tv_sec, t->tv_nsec);
    else {
        struct timespec now;
        syscall(SYS_clock_gettime, c, &now);
        say("sleep %lld %ld", (long long)(t->tv_sec - now.tv_sec), t->tv_nsec - now.tv_nsec);
    }
    return REAL(clock_nanosleep)(c, fl, t, rem);
}
