/* Basic-block coverage of the workload, for bin/cov.py only (never linked into a check). */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
enum { N = 1 << 25 };
static unsigned char* map;
__attribute__((constructor)) static void covInit(void) {
    const char* f = getenv("SIM_COV");
    if (!f) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, f, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || syscall(SYS_ftruncate, fd, (long)N)) return;
    map = (unsigned char*)syscall(SYS_mmap, 0L, (long)N, (long)(PROT_READ | PROT_WRITE), (long)MAP_SHARED, (long)fd, 0L);
}
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    if (map && pc < N) map[pc] = 1;
}
