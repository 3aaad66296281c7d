// Event dispatchers: every sequence of operations; every schedule of dispatching threads.
#include "vp.hpp"
#include <thread>
#include <string>
#include "ldaplusplus/events/Events.hpp"
using namespace ldaplusplus::events;
#ifndef LEN_
#define LEN_ 4
#endif
#ifndef NL_
#define NL_ 2
#endif
#ifndef T_
#define T_ 2
#endif
#ifndef E_
#define E_ 2
#endif
struct Ev : Event { int n; Ev(int n) : Event("ev"), n(n) {} };
struct L : EventListenerInterface, std::enable_shared_from_this<L> {
    std::vector<int> got; std::thread::id home; EventDispatcherInterface *once;
    L() : home(std::this_thread::get_id()), once(nullptr) {}
    void on_event(std::shared_ptr<Event> e) override {
        vp_assert(std::this_thread::get_id() == home, "events are delivered by the thread that processes them");
        vp_assert(e->id() == "ev", "the event arrives unchanged");
        got.push_back(std::static_pointer_cast<Ev>(e)->n);
        if (once) once->remove_listener(shared_from_this());
    }
};
extern "C" void vp_main() {
#if MODE_ <= 2
#if MODE_ == 0
    auto dd = std::make_shared<EventDispatcher>();
#elif MODE_ == 1
    auto dd = std::make_shared<ThreadSafeEventDispatcher>();
#else
    auto dd = std::make_shared<SameThreadEventDispatcher>();
#endif
    std::shared_ptr<EventDispatcherInterface> d = dd;
    std::shared_ptr<L> l[NL_];
    std::vector<int> want[NL_], queue;
    const int base = vp_int("base", -1000000, 1000000);
    bool on[NL_];
    for (int i = 0; i < NL_; i++) { l[i] = std::make_shared<L>(); on[i] = false; }
    int n = base;
    auto deliver = [&]() { for (int e : queue) for (int i = 0; i < NL_; i++) if (on[i]) { want[i].push_back(e); if (l[i]->once) on[i] = false; } queue.clear(); };
#ifdef ONCE_
    // a listener that leaves as soon as it has heard something
    l[vp_int("once", 0, NL_ - 1)]->once = d.get();
#endif
#ifdef START_
    for (int i = 0; i < NL_; i++) { d->add_listener(l[i]); on[i] = true; }      // all present from the start
#endif
    for (int s = 0; s < LEN_; s++) {
        const int ops = 2 + 2 * NL_;
#ifdef KNOWN_
        const int op = vp::choice("op", 3) ? (vp::choice("op", 12) || MODE_ == 0 ? 0 : ops - 1) : 1 + vp::choice("op", 2 * NL_);      // mostly events; processed every now and then
#elif defined(START_)
        const int op = vp_choice("op", MODE_ == 0 ? ops - 1 : ops);
#else
        const int op = vp_int("op", 0, (MODE_ == 0 ? ops - 1 : ops) - 1);
#endif
        if (op == 0) {
            queue.push_back(n);
            if (s % 2) d->dispatch(std::make_shared<Ev>(n)); else d->dispatch<Ev>(n);
            n++;
            if (MODE_ != 1) deliver();
        } else if (op <= 2 * NL_) {
            const int i = (op - 1) / 2;
            if (op % 2) { if (on[i]) continue; d->add_listener(l[i]); on[i] = true; }
            else { if (!on[i]) continue; d->remove_listener(l[i]); on[i] = false; }
        } else {
#if MODE_ >= 1
            dd->process_events(); deliver();
#endif
        }
        if (vp::Known && s % 64 != 63) continue;
        for (int i = 0; i < NL_; i++) {
            vp_assert(l[i]->got.size() == want[i].size(), "every event reaches every listener exactly once");
            for (size_t k = 0; k < want[i].size(); k++) vp_assert(l[i]->got[k] == want[i][k], "events arrive in order");
        }
    }
#else
    // threads dispatch while the owner processes
    enum { ST = E_ + 1 };
#if MODE_ == 3
    auto dd = std::make_shared<SameThreadEventDispatcher>();
#else
    auto dd = std::make_shared<ThreadSafeEventDispatcher>();
#endif
    std::shared_ptr<EventDispatcherInterface> d = dd;
    auto a = std::make_shared<L>(), b = std::make_shared<L>();
    d->add_listener(a);
    d->add_listener(b);
    const int base = vp_int("base", -1000000, 1000000);
    std::vector<std::thread> ts;
    for (int t = 0; t < T_; t++) ts.push_back(std::thread([d, t, base]() { for (int e = 0; e < E_; e++) d->dispatch(std::make_shared<Ev>(base + ST * t + e)); }));
    dd->process_events();
#if MODE_ == 3
    d->dispatch<Ev>(base + ST * T_);
    bool has = false; for (int e : a->got) has = has || e == base + ST * T_;
    vp_assert(has, "an event of the owning thread is delivered at once");
#endif
    for (auto &t : ts) t.join();
    dd->process_events();
    const size_t total = T_ * E_ + (MODE_ == 3);
    vp_assert(a->got.size() == total && b->got.size() == total, "every event reaches every listener exactly once");
    for (auto &l : {a, b}) {
        int next[T_ + 1] = {0};
        for (int n : l->got) { const int e = n - base; vp_assert(e >= 0 && e < ST * (T_ + 1), "no event is made up"); vp_assert(e % ST == next[e / ST], "events arrive in order"); next[e / ST]++; }
    }
    for (size_t i = 0; i < total; i++) vp_assert(a->got[i] == b->got[i], "listeners see the same order");
#endif
}
