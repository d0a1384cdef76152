#pragma once
// Copyable awaitables that are used again after having been handed over as an lvalue. Awaited as an rvalue, they give their payload away.
namespace lv
{
struct World { std::vector<std::function<void()>>* parked; long starts = 0, ends = 0, badStarts = 0; };
template<class T> struct Core
{
    World* w; Val pay; int value; bool throws; bool susp; int ek = 0;
    T finish()
    {
        ++w->ends; int got = pay.get(); if (got != value) ++w->badStarts;
        if (throws) exk::raise(ek, got);
        if constexpr (!std::is_void_v<T>) return T(got);
    }
    template<class H> bool suspend(H h) { ++w->starts; if (!susp) return false; w->parked->push_back([h]() mutable { h.resume(); }); return true; }
};
// itself an awaiter
template<class T> struct Plain : Core<T>
{
    bool await_ready() { return false; }
    template<class H> bool await_suspend(H h) { return this->suspend(h); }
    T await_resume() { return this->finish(); }
};
template<class T> struct AwL : Core<T> { bool await_ready() { return false; } template<class H> bool await_suspend(H h) { return this->suspend(h); } T await_resume() { return this->finish(); } };
template<class T> struct AwR : Core<T> { int other = 0; bool await_ready() { return false; } template<class H> bool await_suspend(H h) { return this->suspend(h); } T await_resume() { return this->finish(); } };
// another awaiter for lvalues than for rvalues
template<class T> struct Member : Core<T>
{
    AwL<T> operator co_await()& { return AwL<T>{ *this }; }
    AwR<T> operator co_await()&& { return AwR<T>{ std::move(*(Core<T>*)this) }; }
};
// the same awaiter for both
template<class T> struct Same : Core<T>
{
    AwL<T> operator co_await()& { return AwL<T>{ *this }; }
    AwL<T> operator co_await()&& { return AwL<T>{ std::move(*(Core<T>*)this) }; }
};
// by free functions
template<class T> struct Free : Core<T> {};
template<class T> AwL<T> operator co_await(Free<T>& a) { return AwL<T>{ a }; }
template<class T> AwR<T> operator co_await(Free<T>&& a) { return AwR<T>{ std::move((Core<T>&)a) }; }
static const char* kindName[] = { "awaiter", "member operators", "member operators, one awaiter", "free operators" };
template<class T, class F> static void with(int kind, Core<T> c, F&& f)
{
    switch (kind) { case 0: { Plain<T> a{ std::move(c) }; f(a); break; } case 1: { Member<T> a{ std::move(c) }; f(a); break; } case 2: { Same<T> a{ std::move(c) }; f(a); break; } default: { Free<T> a{ std::move(c) }; f(a); } }
}
static int rd(int v) { return v; }
static int rd(const Val& v) { return v.get(); }
static int rd(const MVal& v) { return v.get(); }
struct Seen { int kind = 0, v = 0, ek = 0; void err() { auto e = exk::current(); kind = 2; v = e.v; ek = e.kind; } };
}
