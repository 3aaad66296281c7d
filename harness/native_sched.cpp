// Cooperative scheduler for the native replay: takes over pthread locks,
// condition variables, thread creation and join, and lets exactly one thread
// run at a time.  At the points where the symbolic executor chose a thread the
// choice is read from $VP_SCHED; past its end (or without it) it is random.
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <vector>
#include <random>
namespace {
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Th { St s = RUN; void *mtx = nullptr, *obj = nullptr; int jt = 0; sem_t sem; pthread_t real; void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; bool joined = false; };
std::vector<Th *> th;
std::map<void *, int> owner;
int cur = 0;
__thread int me = -1;
std::vector<int> sched; size_t at = 0; bool diverged = false, given = false, inited = false;
std::mt19937 rng;
void init() {
    if (inited) return;
    inited = true;
    const char *e = getenv("VP_SEED"); rng.seed(e ? atoi(e) : 1);
    if (const char *s = getenv("VP_SCHED")) { given = true; for (const char *p = s; *p;) { sched.push_back(atoi(p)); p = strchr(p, ','); if (!p) break; p++; } }
    th.reserve(4096);
    Th *t = new Th; sem_init(&t->sem, 0, 0); th.push_back(t); me = 0;
}
int self() { init(); return me < 0 ? 0 : me; }
std::vector<int> enabled() {
    std::vector<int> e;
    for (size_t i = 0; i < th.size(); i++) { Th &t = *th[i]; if (t.s == RUN || (t.s == MUTEX && !owner.count(t.mtx)) || (t.s == JOIN && th[t.jt]->s == DONE)) e.push_back(i); }
    return e;
}
void deadlock() { fprintf(stderr, "VPFAIL every schedule terminates deadlock\n"); fflush(stderr); _exit(77); }
void resched() {
    const int m = self();
    if (th.size() == 1) { if (th[0]->s != RUN && enabled().empty()) deadlock(); th[0]->s = RUN; return; }
    auto e = enabled();
    // the schedule may ask for a spurious wake-up
    if (given && !diverged && at < sched.size()) { const int p = sched[at]; if (p >= 0 && p < (int)th.size() && th[p]->s == COND && !owner.count(th[p]->mtx)) e.push_back(p); }
    if (e.empty()) deadlock();
    int pick = -1;
    if (given && !diverged) {
        if (at < sched.size()) { pick = sched[at++]; bool ok = false; for (int x : e) ok = ok || x == pick; if (!ok) { diverged = true; pick = -1; } }
        else pick = th[m]->s == RUN ? m : e[0];
    }
    if (pick < 0) pick = th[m]->s == RUN && rng() % 3 ? m : e[rng() % e.size()];
    Th &t = *th[pick];
    t.s = RUN;
    cur = pick;
    if (pick == m) return;
    const bool done = th[m]->s == DONE;
    sem_post(&t.sem);
    if (done) return;
    while (sem_wait(&th[m]->sem) != 0) {}
}
void handover(int pick) {               // without a choice: to the next thread that can run
    const int m = self();
    th[pick]->s = RUN; cur = pick;
    sem_post(&th[pick]->sem);
    while (sem_wait(&th[m]->sem) != 0) {}
}
void yieldNow() {
    const int m = self(); int best = -1;
    for (int x : enabled()) if (x != m) { const int n = th.size(); if (best < 0 || (x - m + n) % n < (best - m + n) % n) best = x; }
    if (best >= 0) handover(best);
}
std::map<void *, int> depth;            // of recursive mutexes, beyond the first lock
bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == 1; }
void *tramp(void *p) {
    me = (int)(long)p;
    Th *t = th[me];
    while (sem_wait(&t->sem) != 0) {}
    t->ret = t->fn(t->arg);
    t->s = DONE;
    resched();
    return t->ret;
}
}
extern "C" {
void vp_yield() { resched(); }
int vp_tid() { return self(); }
int pthread_mutex_lock(pthread_mutex_t *m) {
    const int s = self();
    resched();
    while (owner.count(m)) { if (owner[m] == s && recursive(m)) { depth[m]++; return 0; } if (owner[m] == s) deadlock(); th[s]->s = MUTEX; th[s]->mtx = m; resched(); }
    owner[m] = s;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) { const int s = self(); resched(); if (owner.count(m) && owner[m] == s && recursive(m)) { depth[m]++; return 0; } if (owner.count(m)) return EBUSY; owner[m] = s; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    auto it = owner.find(m);
    if (it == owner.end() || it->second != self()) { fprintf(stderr, "VPFAIL mutex discipline\n"); fflush(stderr); _exit(77); }
    if (depth.count(m) && depth[m] > 0) { depth[m]--; return 0; }
    owner.erase(it);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    const int s = self();
    if (!owner.count(m) || owner[m] != s) { fprintf(stderr, "VPFAIL mutex discipline\n"); fflush(stderr); _exit(77); }
    owner.erase(m);
    th[s]->s = COND; th[s]->obj = c; th[s]->mtx = m;
    resched();
    while (owner.count(m)) { th[s]->s = MUTEX; th[s]->mtx = m; resched(); }
    owner[m] = s;
    return 0;
}
// a timed wait that is over at once, and sleeping: legal, and everybody else gets a turn
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) {
    const int s = self();
    owner.erase(m);
    yieldNow();
    while (owner.count(m)) { th[s]->s = MUTEX; th[s]->mtx = m; resched(); }
    owner[m] = s;
    return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return pthread_cond_clockwait(c, m, 0, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int sched_yield() noexcept { yieldNow(); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { yieldNow(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { yieldNow(); return 0; }
static int notify(pthread_cond_t *c, bool all) {
    resched();
    std::vector<int> ws;
    for (size_t i = 0; i < th.size(); i++) if (th[i]->s == COND && th[i]->obj == c) ws.push_back(i);
    if (ws.empty()) return 0;
    if (all) { for (int w : ws) th[w]->s = MUTEX; return 0; }
    int w = ws[0];
    if (ws.size() > 1) { if (given && !diverged && at < sched.size() && sched[at] >= 1000) w = sched[at++] - 1000; else w = ws[rng() % ws.size()]; }
    th[w]->s = MUTEX;
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return notify(c, true); }
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    init();
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    Th *t = new Th; sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg;
    th.push_back(t);
    const int r = real(&t->real, a, tramp, (void *)(long)(th.size() - 1));
    *out = t->real;
    return r;
}
int pthread_join(pthread_t p, void **ret) {
    const int s = self();
    static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    for (size_t i = 1; i < th.size(); i++) if (!th[i]->joined && pthread_equal(th[i]->real, p)) {
        while (th[i]->s != DONE) { th[s]->s = JOIN; th[s]->jt = i; resched(); }
        th[i]->joined = true;
        break;
    }
    return real(p, ret);
}
}
