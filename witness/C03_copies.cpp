// Forbidden copies, permitted moves: decided by the compiler's own overload resolution.
#include <memory>
#include <type_traits>
#include <utility>
#include <amtl/am-deque.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-mutex.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-vector.h>
#include <amtl/os/am-shared-library.h>

struct IntPolicy { static uint32_t hash(int k) { return ke::HashInt32(k); } static bool matches(int a, int b) { return a == b; } };
struct TablePolicy { typedef int Payload; static uint32_t hash(int k) { return ke::HashInt32(k); } static bool matches(int a, int b) { return a == b; } };
struct Less { bool operator ()(int a, int b) const { return a < b; } };
struct TS : public ke::RefcountedThreadsafe<TS> {};
struct RC : public ke::Refcounted<RC> {};
struct Node : public ke::InlineListNode<Node> {};
struct Call { Call(); Call(Call&&); Call(const Call&); void operator ()(); };

#define NO_COPY(what, ...) \
    static_assert(!std::is_copy_constructible<__VA_ARGS__>::value, what " must not be copyable"); \
    static_assert(!std::is_copy_assignable<__VA_ARGS__>::value, what " must not be copy-assignable"); \
    static_assert(!std::is_constructible<__VA_ARGS__, __VA_ARGS__&>::value, what " must not be copyable from an lvalue"); \
    static_assert(!std::is_assignable<__VA_ARGS__&, __VA_ARGS__&>::value, what " must not be assignable from an lvalue");
#define MOVES(what, ...) \
    static_assert(std::is_move_constructible<__VA_ARGS__>::value, what " must be movable");
#define NO_MOVE(what, ...) \
    static_assert(!std::is_move_constructible<__VA_ARGS__>::value, what " must not be movable"); \
    static_assert(!std::is_move_assignable<__VA_ARGS__>::value, what " must not be move-assignable");

NO_COPY("HashTable", ke::HashTable<TablePolicy>)
MOVES("HashTable", ke::HashTable<TablePolicy>)
NO_COPY("HashMap", ke::HashMap<int, int, IntPolicy>)
MOVES("HashMap", ke::HashMap<int, int, IntPolicy>)
NO_COPY("HashMap of move-only values", ke::HashMap<int, std::unique_ptr<int>, IntPolicy>)
MOVES("HashMap of move-only values", ke::HashMap<int, std::unique_ptr<int>, IntPolicy>)
NO_COPY("HashSet", ke::HashSet<int, IntPolicy>)
MOVES("HashSet", ke::HashSet<int, IntPolicy>)
NO_COPY("PriorityQueue", ke::PriorityQueue<int, Less>)
MOVES("PriorityQueue", ke::PriorityQueue<int, Less>)
MOVES("PriorityQueue of move-only elements", ke::PriorityQueue<std::unique_ptr<int>>)
NO_COPY("AtomicRef", ke::AtomicRef<TS>)
NO_MOVE("AtomicRef", ke::AtomicRef<TS>)
NO_COPY("ThreadLocal", ke::ThreadLocal<int*>)
NO_MOVE("ThreadLocal", ke::ThreadLocal<int*>)
NO_COPY("ScopeGuard", ke::ScopeGuard<Call>)
MOVES("ScopeGuard", ke::ScopeGuard<Call>)
static_assert(!std::is_default_constructible<ke::ScopeGuard<Call>>::value, "ScopeGuard must have a callback");
static_assert(!std::is_move_assignable<ke::ScopeGuard<Call>>::value, "ScopeGuard must not be move-assignable");
NO_COPY("InlineList", ke::InlineList<Node>)
NO_COPY("SharedLib", ke::SharedLib)
NO_MOVE("SharedLib", ke::SharedLib)
NO_COPY("Mutex", ke::Mutex)
NO_MOVE("Mutex", ke::Mutex)
MOVES("RefPtr", ke::RefPtr<RC>)
MOVES("Function", ke::Function<int(int)>)
MOVES("Maybe of a move-only type", ke::Maybe<std::unique_ptr<int>>)
static_assert(std::is_move_assignable<ke::Maybe<std::unique_ptr<int>>>::value, "Maybe of a move-only type must be move-assignable");
MOVES("FixedArray", ke::FixedArray<std::unique_ptr<int>>)
static_assert(std::is_move_assignable<ke::FixedArray<int>>::value, "FixedArray must be move-assignable");
static_assert(std::is_move_assignable<ke::Function<int(int)>>::value, "Function must be move-assignable");
static_assert(std::is_move_assignable<ke::RefPtr<RC>>::value, "RefPtr must be move-assignable");

// helpers that only need to move accept move-only elements
typedef std::unique_ptr<int> MO;
void use(std::vector<MO>* v, std::vector<MO>* w, std::deque<MO>* d, ke::PriorityQueue<MO>* q, ke::Maybe<MO>* m, ke::Maybe<MO>* n, ke::FixedArray<MO>* a) {
    MO x = ke::PopBack(v);
    x = ke::PopBack(d);
    x = ke::PopFront(d);
    ke::MoveExtend(v, w);
    ke::RemoveAt(v, 0);
    ke::InsertAt(v, 0, std::move(x));
    ke::EmplaceAt(v, 0, nullptr);
    ke::EraseIf(v, [](const MO& p) { return !p; });
    q->add(MO());
    q->emplace(nullptr);
    x = q->pop();
    m->init(std::move(x));
    *m = std::move(*n);
    ke::Maybe<MO> s(std::move(*m)), t = ke::Some(MO());
    ke::HashMap<int, MO, IntPolicy> map;
    auto i = map.findForAdd(1);
    map.add(i, 1, std::move(x));
    map.add(i, 2);
    ke::HashMap<int, MO, IntPolicy> moved(std::move(map));
    ke::FixedArray<MO> b(std::move(*a)), c(3);
    b = std::move(c);
    ke::Function<MO(MO)> f([](MO p) { return p; });
    x = f(std::move(x));
}
