// The happens-before relation, for the detection of data races (MC_RACE).
// Elsewhere all of this is empty.
#pragma once

#include <cstddef>

namespace mc::race {

#ifdef MC_RACE
void acquire(const void *obj);  // what was released to `obj` happens before what follows
void release(const void *obj);
inline void acq_rel(const void *obj)
{
    acquire(obj);
    release(obj);
}
void exempt(const void *p, std::size_t n);  // memory of the harness
extern int ignoring;  // of the running fiber
// The compiler puts its calls to the detector in late, and would drop what it
// takes for dead stores.
inline void set_ignoring(int v)
{
    __asm__ volatile("" ::: "memory");
    ignoring = v;
    __asm__ volatile("" ::: "memory");
}

// Accesses in this scope are not those of the code under test.
struct Ignore {
    Ignore() { set_ignoring(ignoring + 1); }
    ~Ignore() { set_ignoring(ignoring - 1); }
    Ignore(const Ignore &) = delete;
};
// The contrary, for calls back into it.
struct User {
    User() : saved_{ignoring} { set_ignoring(0); }
    ~User() { set_ignoring(saved_); }
    User(const User &) = delete;
    int saved_;
};
#else
inline void acquire(const void *) {}
inline void release(const void *) {}
inline void acq_rel(const void *) {}
inline void exempt(const void *, std::size_t) {}
struct Ignore {
    Ignore() {}
};
struct User {
    User() {}
};
#endif

}  // namespace mc::race
