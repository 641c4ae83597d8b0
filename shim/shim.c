/* Preloaded into the servers under test. It moves the fixed port to a free one and, if asked to,
 * shortens reads and writes, shifts the wall clock, shortens long sleeps and injects delays.
 *
 *   VP_PORTFILE   where to write the port a listener got instead of 7878
 *   VP_RECVMAX    most bytes a read from a socket returns (blocking servers only); a random amount up to it
 *   VP_SENDMAX    most bytes a write to a socket takes (blocking servers only)
 *   VP_CLOCK      file holding a 64 bit offset in nanoseconds for the wall clock
 *   VP_SLEEPDIV   divides sleeps of half a second and more
 *   VP_DELAY      per mille chance of a delay at synchronisation, thread and socket calls
 *   VP_DELAYMAX   longest injected delay in microseconds
 *   VP_SENDDELAY  delay in microseconds before every socket write
 *   VP_SENDBUF    send buffer size of accepted connections
 *   VP_SEED       seed for the choices
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static long recv_max, send_max, sleep_div = 1, delay_pm, delay_max = 1000, send_delay, send_buf;
static uint64_t seed = 1;
static volatile int64_t *clock_off;
static const char *port_file;
static int moved_fd = -1;
static __thread uint64_t rng_state;
static uint64_t thread_counter;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static long num(const char *name, long d) {
    const char *s = getenv(name);
    return s && *s ? atol(s) : d;
}

__attribute__((constructor)) static void init(void) {
    recv_max = num("VP_RECVMAX", 0);
    send_max = num("VP_SENDMAX", 0);
    sleep_div = num("VP_SLEEPDIV", 1);
    delay_pm = num("VP_DELAY", 0);
    delay_max = num("VP_DELAYMAX", 1000);
    send_delay = num("VP_SENDDELAY", 0);
    send_buf = num("VP_SENDBUF", 0);
    seed = (uint64_t)num("VP_SEED", 1);
    port_file = getenv("VP_PORTFILE");
    const char *c = getenv("VP_CLOCK");
    if (c && *c) {
        int fd = open(c, O_RDWR);
        if (fd >= 0) {
            void *p = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) clock_off = p;
            close(fd);
        }
    }
}

static uint64_t rnd(void) {
    if (!rng_state) {
        uint64_t t = __atomic_add_fetch(&thread_counter, 1, __ATOMIC_RELAXED);
        rng_state = seed * 0x9E3779B97F4A7C15ull + t * 0xD6E8FEB86659FD93ull + 1;
    }
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    return rng_state;
}

static void nap(long us) {
    int e = errno;
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
    errno = e;
}

static void maybe_delay(void) {
    if (delay_pm && (long)(rnd() % 1000) < delay_pm) {
        if (rnd() % 3 == 0)
            raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        else
            nap((long)(rnd() % (uint64_t)(delay_max + 1)));
    }
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in in;
    if (port_file && a->sa_family == AF_INET && n >= sizeof in) {
        memcpy(&in, a, sizeof in);
        if (ntohs(in.sin_port) == 7878) {
            in.sin_port = 0;
            long r = raw(SYS_bind, fd, (long)&in, sizeof in, 0, 0, 0);
            if (r == 0) moved_fd = fd;
            return (int)ret(r);
        }
    }
    return (int)ret(raw(SYS_bind, fd, (long)a, n, 0, 0, 0));
}

int listen(int fd, int backlog) {
    if (backlog < 1024) backlog = 1024;
    if (send_buf && fd == moved_fd) {
        int b = (int)send_buf;
        raw(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, (long)&b, sizeof b, 0);
    }
    long r = raw(SYS_listen, fd, backlog, 0, 0, 0, 0);
    if (r == 0 && fd == moved_fd && port_file) {
        struct sockaddr_in in;
        socklen_t n = sizeof in;
        if (raw(SYS_getsockname, fd, (long)&in, (long)&n, 0, 0, 0) == 0) {
            char tmp[4096];
            snprintf(tmp, sizeof tmp, "%s.tmp", port_file);
            int o = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (o >= 0) {
                char b[16];
                int k = snprintf(b, sizeof b, "%d", ntohs(in.sin_port));
                raw(SYS_write, o, (long)b, k, 0, 0, 0);
                close(o);
                rename(tmp, port_file);
            }
        }
    }
    return (int)ret(r);
}

static size_t shorten(size_t n, long max) {
    if (max <= 0 || n == 0) return n;
    size_t k = 1 + rnd() % (uint64_t)max;
    return k < n ? k : n;
}

static int is_socket(int fd) {
    struct stat st;
    int e = errno;
    int r = fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
    errno = e;
    return r;
}

ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) {
    maybe_delay();
    if (!(flags & MSG_PEEK)) n = shorten(n, recv_max);
    return ret(raw(SYS_recvfrom, fd, (long)b, n, flags, (long)a, (long)l));
}

ssize_t recv(int fd, void *b, size_t n, int flags) { return recvfrom(fd, b, n, flags, 0, 0); }

ssize_t read(int fd, void *b, size_t n) {
    if (recv_max && is_socket(fd)) {
        maybe_delay();
        n = shorten(n, recv_max);
    }
    return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
}

ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) {
    maybe_delay();
    if (send_delay) nap(send_delay);
    return ret(raw(SYS_sendto, fd, (long)b, shorten(n, send_max), flags, (long)a, l));
}

ssize_t send(int fd, const void *b, size_t n, int flags) { return sendto(fd, b, n, flags, 0, 0); }

ssize_t write(int fd, const void *b, size_t n) {
    if ((send_max || send_delay) && is_socket(fd)) {
        maybe_delay();
        if (send_delay) nap(send_delay);
        n = shorten(n, send_max);
    }
    return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    if (send_max && n > 0 && is_socket(fd)) {
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return ret(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
}

int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    long r = raw(SYS_accept4, fd, (long)a, (long)l, flags, 0, 0);
    maybe_delay();
    return (int)ret(r);
}

int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }

int clock_gettime(clockid_t id, struct timespec *t) {
    long r = raw(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0);
    if (r == 0 && clock_off && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t off = *clock_off;
        int64_t ns = t->tv_nsec + off % 1000000000;
        t->tv_sec += off / 1000000000 + ns / 1000000000;
        t->tv_nsec = ns % 1000000000;
    }
    return (int)ret(r);
}

static void scale(struct timespec *t) {
    if (sleep_div > 1) {
        int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
        if (ns >= 500000000ll) {
            ns /= sleep_div;
            t->tv_sec = ns / 1000000000;
            t->tv_nsec = ns % 1000000000;
        }
    }
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    struct timespec s = *t;
    scale(&s);
    return (int)ret(raw(SYS_nanosleep, (long)&s, (long)rem, 0, 0, 0, 0));
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    struct timespec s = *t;
    if (!(flags & TIMER_ABSTIME)) {
        scale(&s);
    } else if (sleep_div > 1) {
        /* newer standard libraries sleep until an absolute time */
        struct timespec now;
        raw(SYS_clock_gettime, id, (long)&now, 0, 0, 0, 0);
        int64_t left = (s.tv_sec - now.tv_sec) * 1000000000ll + (s.tv_nsec - now.tv_nsec);
        if (left >= 500000000ll) {
            left /= sleep_div;
            struct timespec d = {left / 1000000000, left % 1000000000};
            long r = raw(SYS_clock_nanosleep, id, 0, (long)&d, 0, 0, 0);
            return r == 0 ? 0 : (int)-r;
        }
    }
    return (int)-raw(SYS_clock_nanosleep, id, flags, (long)&s, (long)rem, 0, 0);
}

/* The Rust standard library blocks and wakes threads with futex calls made through this function */
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex) maybe_delay();
    return ret(raw(n, a, b, c, d, e, f));
}
