//! property: R14
//! target: pm::Arena
// The bulk memory owner: live objects never share memory, released slots are reused before new memory is taken, and
// at the end exactly the live objects are destroyed and every block is freed exactly once.
#include "wit.h"
#include "pymatching/sparse_blossom/arena.h"
using namespace pm;
namespace {
struct Probe {
    uint64_t id;
    static int destroyed[8];
    static int built;
    Probe() : id(0) {
        built++;
    }
    ~Probe() {
        destroyed[this - slots()]++;
    }
    static Probe* slots() {
        static Raw<Probe> mem[8];
        return (Probe*)&mem[0];
    }
};
int Probe::destroyed[8];
int Probe::built;
int taken;
int freed[8];
}
extern "C" void* malloc(size_t n) {
    CHECK(n >= sizeof(Probe));
    return Probe::slots() + taken++;
}
extern "C" void free(void* p) {
    freed[(Probe*)p - Probe::slots()]++;
}
inline void start() {
    taken = 0;
    Probe::built = 0;
    for (int i = 0; i < 8; i++)
        Probe::destroyed[i] = freed[i] = 0;
}
//@ two live objects are distinct; nothing is built or destroyed behind the caller's back
WITNESS(ar_distinct) {
    start();
    OBJ(Arena<Probe>, a);
    Probe* p = a.alloc_unconstructed();
    Probe* q = a.alloc_unconstructed();
    CHECK(p != q && Probe::built == 0);
    Probe* r = a.alloc_default_constructed();
    CHECK(r != p && r != q && Probe::built == 1);
    CHECK(Probe::destroyed[0] == 0 && Probe::destroyed[1] == 0 && Probe::destroyed[2] == 0);
    REACH();
}
//@ a released slot is destroyed once and handed out again before new memory is taken
WITNESS(ar_reuse) {
    start();
    OBJ(Arena<Probe>, a);
    Probe* p = a.alloc_default_constructed();
    Probe* q = a.alloc_default_constructed();
    a.del(p);
    CHECK(Probe::destroyed[0] == 1 && Probe::destroyed[1] == 0 && freed[0] == 0);
    Probe* r = a.alloc_default_constructed();
    CHECK(r == p && taken == 2);
    Probe* s = a.alloc_default_constructed();
    CHECK(s != q && s != r && taken == 3);
    REACH();
}
//@ both released: handed out once each
WITNESS(ar_reuse_two) {
    start();
    OBJ(Arena<Probe>, a);
    Probe* p = a.alloc_default_constructed();
    Probe* q = a.alloc_default_constructed();
    a.del(p);
    a.del(q);
    Probe* r = a.alloc_default_constructed();
    Probe* s = a.alloc_default_constructed();
    CHECK(r != s && taken == 2);
    CHECK((r == p && s == q) || (r == q && s == p));
    REACH();
}
// N objects, those in DEAD (bit set) released in ascending or descending order, then the arena ends
template <int N, int DEAD, bool DOWN>
inline void lifetime() {
    start();
    Probe* p[N];
    {
        Raw<Arena<Probe>> raw;
        Arena<Probe>& a = *new (raw.b) Arena<Probe>();
        for (int i = 0; i < N; i++)
            p[i] = a.alloc_default_constructed();
        for (int j = 0; j < N; j++) {
            int i = DOWN ? N - 1 - j : j;
            if (DEAD >> i & 1)
                a.del(p[i]);
        }
        a.~Arena();
    }
    for (int i = 0; i < N; i++)
        CHECK(Probe::destroyed[i] == 1 && freed[i] == 1);
    REACH();
}
//@ end of an arena, all live
WITNESS(ar_end_live) { lifetime<3, 0, false>(); }
//@ end of an arena, first released
WITNESS(ar_end_first) { lifetime<3, 1, false>(); }
//@ end of an arena, middle released
WITNESS(ar_end_middle) { lifetime<3, 2, false>(); }
//@ end of an arena, last released
WITNESS(ar_end_last) { lifetime<3, 4, false>(); }
//@ end of an arena, two released
WITNESS(ar_end_outer) { lifetime<3, 5, true>(); }
//@ end of an arena, two released in descending order
WITNESS(ar_end_two_down) { lifetime<4, 6, true>(); }
//@ end of an arena, all released
WITNESS(ar_end_all) { lifetime<3, 7, false>(); }
//@ an arena that is moved from owns nothing any more
WITNESS(ar_moved) {
    start();
    Raw<Arena<Probe>> ra, rb;
    Arena<Probe>& a = *new (ra.b) Arena<Probe>();
    Probe* p = a.alloc_default_constructed();
    Probe* q = a.alloc_default_constructed();
    a.del(p);
    Arena<Probe>& b = *new (rb.b) Arena<Probe>(std::move(a));
    a.~Arena();
    CHECK(Probe::destroyed[0] == 1 && Probe::destroyed[1] == 0 && freed[0] == 0 && freed[1] == 0);
    Probe* r = b.alloc_default_constructed();
    CHECK(r == p && taken == 2);
    b.~Arena();
    CHECK(Probe::destroyed[0] == 2 && Probe::destroyed[1] == 1 && freed[0] == 1 && freed[1] == 1);
    REACH();
}
