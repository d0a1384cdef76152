#pragma once
// A zoo of awaitables with a common plan: n suspensions on an event, then a value or a throw.
// Include after macoro headers, with the vsched names switched on or off.
struct Plan
{
    int nSusp = 0; bool throws = false; int value = 0; int* ref = nullptr; XEv* ev = nullptr; int ek = 0; // ek: kind of exception (exk)
    int starts = 0, ends = 0;
    void (*hook)(void*) = nullptr; void* hookArg = nullptr; // called when the work starts
    void start() { vs::Quiet q; ++starts; if (hook) hook(hookArg); }
    Mark mark; // written last, seen by whoever is told of the outcome
    void end() { mark.set(value + 1); vs::Quiet q; ++ends; }
    void seen(const char* what) { mark.see(what, value + 1); }
};
template<class T> macoro::task<T> zNatTask(Plan& b)
{
    b.start();
    for (int i = 0; i < b.nSusp; ++i) co_await *b.ev;
    b.end();
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (std::is_void_v<T>) co_return; else co_return Mk<T>::mk(b.value, b.ref);
}
template<class T> macoro::task<T> zMacTask(Plan& b)
{
    MC_BEGIN(macoro::task<T>, &b, i = 0);
    b.start();
    for (i = 0; i < b.nSusp; ++i) MC_AWAIT(*b.ev);
    b.end();
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (!std::is_void_v<T>) MC_RETURN((Mk<T>::mk(b.value, b.ref)));
    MC_END();
}
template<class T> macoro::eager_task<T> zNatEager(Plan& b)
{
    b.start();
    for (int i = 0; i < b.nSusp; ++i) co_await *b.ev;
    b.end();
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (std::is_void_v<T>) co_return; else co_return Mk<T>::mk(b.value, b.ref);
}
template<class T> macoro::eager_task<T> zMacEager(Plan& b)
{
    MC_BEGIN(macoro::eager_task<T>, &b, i = 0);
    b.start();
    for (i = 0; i < b.nSusp; ++i) MC_AWAIT(*b.ev);
    b.end();
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (!std::is_void_v<T>) MC_RETURN((Mk<T>::mk(b.value, b.ref)));
    MC_END();
}
// a plain awaiter; S selects the return type of await_suspend
template<class T, int S = 0> struct Custom
{
    Plan* p; int canary = 0x5a5a;
    explicit Custom(Plan& x) : p(&x) {}
    bool await_ready() { if (canary != 0x5a5a) pbt::gen().fail("awaiter used after destruction"); p->start(); if (p->nSusp == 0) { p->end(); return true; } return false; }
    template<class H> auto await_suspend(H h)
    {
        if constexpr (S == 1) { if (p->throws && p->value % 2) { p->end(); return false; } } // decides not to suspend
        // park last: the coroutine may be resumed before this returns
        Plan* pp = p;
        park(h, pp, pp->nSusp);
        if constexpr (S == 1) return true;
        else if constexpr (S == 2) { if constexpr (std::is_convertible_v<H, std::coroutine_handle<>>) return std::coroutine_handle<>(std::noop_coroutine()); else return macoro::coroutine_handle<>(macoro::noop_coroutine()); }
    }
    template<class H> static void park(H h, Plan* p, int left)
    {
        XEv* e = p->ev;
        { vs::Quiet q; e->k = [h, p, left]() mutable { if (left > 1) park(h, p, left - 1); else { p->end(); h.resume(); } }; e->parked = true; }
        vs::tsanRelease(e); vs::wakeAll(e); vs::point("parked");
    }
    T await_resume()
    {
        if (canary != 0x5a5a) pbt::gen().fail("awaiter used after destruction");
        vs::tsanAcquire(p->ev);
        if (p->throws) exk::raise(p->ek, p->value);
        if constexpr (!std::is_void_v<T>) return Mk<T>::mk(p->value, p->ref);
    }
    ~Custom() { canary = 0; }
};
template<class T> struct MemberAw { Plan* p; Custom<T> operator co_await() const { return Custom<T>(*p); } };
template<class T> struct FreeAw { Plan* p; };
template<class T> Custom<T, 2> operator co_await(const FreeAw<T>& a) { return Custom<T, 2>(*a.p); }
template<class T> Custom<T, 2> operator_co_await(const FreeAw<T>& a) { return Custom<T, 2>(*a.p); }

// fails before it can suspend: 0 in await_ready, 1 in await_suspend, 2 while the awaiter is made
template<class T, int W> struct FailAw
{
    Plan* p; explicit FailAw(Plan& x) : p(&x) {}
    void boom() { p->start(); p->end(); exk::raise(p->ek, p->value); }
    bool await_ready() { if (W == 0) boom(); return false; }
    template<class H> void await_suspend(H) { if (W == 1) boom(); }
    T await_resume() { pbt::gen().fail("an awaiter that failed was resumed"); throw 1; }
};
template<class T> struct FailMake { Plan* p; FailAw<T, 0> operator co_await() const { FailAw<T, 0>(*p).boom(); return FailAw<T, 0>(*p); } };
// delivers its result, then fails while it is destroyed
template<class T> struct LateAw : Custom<T>
{
    bool resumed = false; using Custom<T>::Custom;
    T await_resume()
    {
        if (this->canary != 0x5a5a) pbt::gen().fail("awaiter used after destruction");
        vs::tsanAcquire(this->p->ev); resumed = true;
        if constexpr (!std::is_void_v<T>) return Mk<T>::mk(this->p->value, this->p->ref);
    }
    ~LateAw() noexcept(false) { if (resumed && this->p->throws) exk::raise(this->p->ek, this->p->value); }
};
template<class T> struct LateMake { Plan* p; LateAw<T> operator co_await() const { return LateAw<T>(*p); } };
static const char* failNames[] = { "awaiter failing in await_ready", "awaiter failing in await_suspend", "failing operator co_await" };
template<class T, class F> decltype(auto) withFailing(int k, Plan& p, F&& f)
{
    switch (k) { case 0: return f([&] { return FailAw<T, 0>(p); }); case 1: return f([&] { return FailAw<T, 1>(p); }); default: return f([&] { return FailMake<T>{ &p }; }); }
}
static const char* zooNames[] = { "native task", "macro task", "native eager", "macro eager", "custom awaiter", "bool awaiter", "handle awaiter", "member co_await" };
static const int nZoo = 8;
// f receives a factory returning a fresh awaitable (prvalue)
template<class T, class F> decltype(auto) withZoo(int k, Plan& p, F&& f)
{
    if (std::is_reference_v<T> && k == 1) k = 0;
    if (std::is_reference_v<T> && k == 3) k = 2;
    switch (k)
    {
    case 0: return f([&] { return zNatTask<T>(p); });
    case 1: if constexpr (!std::is_reference_v<T>) return f([&] { return zMacTask<T>(p); });
    case 2: return f([&] { return zNatEager<T>(p); });
    case 3: if constexpr (!std::is_reference_v<T>) return f([&] { return zMacEager<T>(p); });
    case 4: return f([&] { return Custom<T, 0>(p); });
    case 5: return f([&] { return Custom<T, 1>(p); });
    case 6: return f([&] { return Custom<T, 2>(p); });
    default: return f([&] { return MemberAw<T>{ &p }; });
    }
}
// the outcome of one evaluation
struct Out
{
    int kind = 0; int v = 0; bool wrongRef = false; int ek = 0; // 1 value 2 exception of kind ek
    template<class T, class G> void run(Plan& p, G&& get)
    {
        try
        {
            if constexpr (std::is_void_v<T>) { get(); p.seen("the outcome"); vs::Quiet q; kind = 1; v = p.value; }
            else { decltype(auto) x = get(); p.seen("the outcome"); vs::Quiet q; kind = 1; v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) wrongRef = &x != p.ref; }
        }
        catch (...) { p.seen("the exception"); caught(); }
    }
    void caught() { vs::Quiet q; auto e = exk::current(); kind = 2; ek = e.kind; v = e.v; } // in a handler
    void check(const Plan& p, const char* what)
    {
        REQUIRE(kind == (p.throws ? 2 : 1), "%s: outcome kind %d (1 value, 2 exception), expected %d", what, kind, p.throws ? 2 : 1);
        if (kind == 2) REQUIRE(ek == p.ek, "%s: an exception of kind %d, thrown was one of kind %d", what, ek, p.ek);
        REQUIRE(v == p.value, "%s: value %d, expected %d", what, v, p.value);
        REQUIRE(!wrongRef, "%s: refers to a different object", what);
        REQUIRE(p.starts == 1, "%s: started %d times", what, p.starts);
        REQUIRE(p.ends == 1, "%s: ended %d times", what, p.ends);
    }
};
