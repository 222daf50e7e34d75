#include "internal.h"
#include "shm.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <sys/ipc.h>
#include <sys/shm.h>
using namespace sim;
namespace simshm {
std::map<int, Seg> segs; uint32_t get_den = 0, at_den = 0, ctl_den = 0; uint64_t get_failed = 0, at_failed = 0; static int nextId = 7;
static void reap(int id) { Seg &s = segs[id]; if (s.gone && !s.attached) { free(s.p); segs.erase(id); log("shm: segment %d is freed", id); } }
}
using namespace simshm;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define ON (sim::active && sim::fiber_ctx())
extern "C" {
int shmget(key_t key, size_t size, int fl)
{
    if (!ON) { REAL(int, shmget, key_t, size_t, int); return real(key, size, fl); }
    Harness h; sync_point("shmget");
    if (get_den && chance(F, 1, get_den)) { static const int er[] = {ENOMEM, ENOSPC, EACCES}; get_failed++; fault("shmget_fails"); log("shm: get %d fails", (int)key); errno = er[choose(F, 3)]; return -1; }
    for (auto &s : segs) if (key != IPC_PRIVATE && s.second.key == key && !s.second.gone) { if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; } if (size > s.second.size) { errno = EINVAL; return -1; } return s.first; }
    if (!(fl & IPC_CREAT) && key != IPC_PRIVATE) { errno = ENOENT; return -1; }
    int id = nextId; nextId += 32769; Seg &s = segs[id]; s.key = key; s.id = id; s.size = size; s.p = (char *)malloc(size); memset(s.p, 0, size); log("shm: segment %d for key %d, %zu bytes", id, (int)key, size); return id;
}
void *shmat(int id, const void *, int)
{
    if (!ON) { REAL(void *, shmat, int, const void *, int); return real(id, nullptr, 0); }
    Harness h; sync_point("shmat");
    if (!segs.count(id)) { errno = EINVAL; return (void *)-1; }
    if (at_den && chance(F, 1, at_den)) { at_failed++; fault("shmat_fails"); log("shm: attaching %d fails", id); errno = ENOMEM; return (void *)-1; }
    segs[id].attached++; return segs[id].p;
}
int shmdt(const void *p)
{
    if (!ON) { REAL(int, shmdt, const void *); return real(p); }
    Harness h; sync_point("shmdt");
    for (auto &s : segs) if (s.second.p == p && s.second.attached) { s.second.attached--; reap(s.first); return 0; }
    errno = EINVAL; return -1;
}
int shmctl(int id, int cmd, struct shmid_ds *)
{
    if (!ON) { REAL(int, shmctl, int, int, struct shmid_ds *); return real(id, cmd, nullptr); }
    Harness h; sync_point("shmctl");
    if (!segs.count(id)) { errno = EINVAL; return -1; }
    if (cmd == IPC_RMID) { segs[id].gone = true; reap(id); return 0; }
    return 0;
}
}
