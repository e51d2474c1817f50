// NewThread: the new thread names itself, then makes exactly one call with its own copies of the arguments.
#include <amtl/am-thread.h>
#include "sa.h"
using namespace ke;
extern "C" { void sa_thread(int n); bool sa_named(int thread, const char* name); void ev_call(); }
#define CALLS sa_event("call")
#define NAMES sa_event("setname")

// the standard library's side: the state is handed over, the thread runs later
static std::thread::_State* pending;
static int started;
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { pending = s.release(); started++; _M_id = id(7002); }
void thread::join() { _M_id = id(); }
}
static void begin() { pending = nullptr; started = 0; }
static void run() {
    sa_assert(started == 1, "starts-one-thread");
    sa_assert(CALLS == 0 && NAMES == 0, "runs-on-the-new-thread");
    sa_thread(2);
    { std::unique_ptr<std::thread::_State> s(pending); s->_M_run(); }
    sa_thread(1);
    sa_assert(CALLS == 1, "runs-callback-exactly-once");
    sa_assert(NAMES == 1, "names-itself-once");
}
static void is_named(const char* n) { sa_assert(NAMES == 1 && sa_named(2, n), "named-before-callback"); }

struct Plain { void operator()() const { is_named("worker"); sa_assert(CALLS == 0, "runs-callback-exactly-once"); ev_call(); } };
extern "C" void w_plain() {
    begin();
    {
        char name[8] = "worker";
        std::unique_ptr<std::thread> t = NewThread(name, Plain());
        sa_assert(t && t->joinable(), "returns-the-thread");
        for (size_t i = 0; i < 7; i++) name[i] = 'x';
        run();
        t->join();
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct LongName { void operator()() const { is_named("a name that is longer than fits in place"); ev_call(); } };
extern "C" void w_long_name() {
    begin();
    {
        std::unique_ptr<std::thread> t;
        {
            char name[] = "a name that is longer than fits in place";
            t = NewThread(name, LongName());
            name[0] = 'z';
        }
        run();
        t->join();
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct Empty { void operator()() const { is_named(""); ev_call(); } };
extern "C" void w_empty_name() {
    begin();
    {
        std::unique_ptr<std::thread> t = NewThread("", Empty());
        run();
        t->join();
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct Args {
    Obj held;
    explicit Args(uint64_t t) : held(t) {}
    void operator()(const Obj& a, const Obj& b, uint64_t c, uint8_t d) {
        is_named("n");
        sa_assert(sa_tok(&held) == 5 && sa_tok(&a) == 1 && sa_tok(&b) == 2 && c == 3 && d == 4, "arguments-in-position");
        ev_call();
    }
};
extern "C" void w_arguments() {
    begin();
    {
        std::unique_ptr<std::thread> t;
        {
            Obj a(1);
            Args f(5);
            uint64_t c = 3;
            if (sa_bool()) t = NewThread("n", f, a, Obj(2), c, uint8_t(4));
            else t = NewThread("n", std::move(f), std::move(a), Obj(2), 3, uint8_t(4));
            c = 9;
        }   // the caller's objects are gone before the thread runs
        run();
        t->join();
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct MoveOnly { MObj held; void operator()() { is_named("n"); sa_assert(sa_mtok(&held) == 5, "arguments-in-position"); ev_call(); } };
extern "C" void w_move_only() {
    begin();
    {
        std::unique_ptr<std::thread> t = NewThread("n", MoveOnly{MObj(5)});
        run();
        t->join();
        sa_reach("end");
    }
    sa_clean("no-leak");
}
static uint64_t got;
static void plain_function(uint64_t a, uint64_t b) { is_named("n"); got = a * 10 + b; ev_call(); }
extern "C" void w_function() {
    begin();
    got = 0;
    {
        std::unique_ptr<std::thread> t = NewThread("n", plain_function, 1, 2);
        run();
        t->join();
        sa_assert(got == 12, "arguments-in-position");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct Member { uint64_t a; void go(uint64_t b) { is_named("n"); a = b; ev_call(); } };
extern "C" void w_member() {
    begin();
    {
        Member m = {1};
        std::unique_ptr<std::thread> t = NewThread("n", &Member::go, &m, 8);
        run();
        t->join();
        sa_assert(m.a == 8, "arguments-in-position");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_set_name() {
    char name[8] = "self";
    sa_thread(3);
    SetThreadName(name);
    sa_assert(NAMES == 1 && sa_named(3, "self"), "names-itself-once");
    sa_reach("end");
}
extern "C" void w_set_other_name() {
    begin();
    {
        std::unique_ptr<std::thread> t = NewThread("n", Empty());
        SetThreadName(t.get(), "other");
        sa_assert(NAMES == 1 && sa_named(2, "other"), "names-that-thread");
        t->join();
        std::unique_ptr<std::thread::_State> s(pending);
        sa_reach("end");
    }
    sa_clean("no-leak");
}
