#include <amtl/am-thread.h>   // first, and alone

struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); void operator ()(); };
static void plain(int, const char*) {}
struct Obj { void run(int) {} };
void use(std::thread* t, Obj* o) {
    ke::SetThreadName("x");
    ke::SetThreadName(t, "x");
    std::unique_ptr<std::thread> a = ke::NewThread("a", &plain, 1, "x");
    int k = 0;
    a = ke::NewThread("b", [&k] { k++; });
    a = ke::NewThread("c", &Obj::run, o, 3);
    auto named = [k]() mutable { k++; };
    a = ke::NewThread("d", named);
    a = ke::NewThread("e", MoveOnly());
    const char* nm = "f";
    a = ke::NewThread(nm, [](std::unique_ptr<int>& p) { p.reset(); }, std::unique_ptr<int>());
    a->join();
}
