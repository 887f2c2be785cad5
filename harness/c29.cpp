// asio operations started with rf_task. The operations are made here: asio::async_initiate hands over the completion
// handler, which is kept and run by whoever completes the operation.
#define ASIO_STANDALONE 1
#define ASIO_DISABLE_CO_AWAIT 1
#define ASIO_HEADER_ONLY 1
#include "hx.h"
#include <future>
#include <asio/version.hpp>
#include <asio/async_result.hpp>
#include <asio/error.hpp>
#include <asio/error_code.hpp>
#include <asio/system_error.hpp>
#include <asio/executor.hpp>
#include "../asio/asio_task.h"
#if !MC_FALLBACK && __has_include("../asio/asio_task_1.12.0.inl")	// the adapter for operations with an initiation object, beside the other one
#define rf_task_t rf_task0_t
#define rf_task rf_task0
#define promise_handler promise_handler0
#define promise_handler_base promise_handler_base0
#include "../asio/asio_task_1.12.0.inl"
#undef rf_task_t
#undef rf_task
#undef promise_handler
#undef promise_handler_base
#define BOTH 1
#else
#define BOTH 0
namespace asio { constexpr const auto& rf_task0 = rf_task; }
#endif
enum { RESUMED = 20, SETC = 40 };
typedef asio::error_code EC; typedef std::exception_ptr EP;
struct Err { Probe p; Err(int v) : p(v) {} };
// an operation under way: the handler
template<class... A> struct Op
{
	struct B { virtual ~B() {} virtual void call(A...) = 0; }; template<class H> struct I : B { H h; I(H&& x) : h(std::move(x)) {} void call(A... a) override { h(std::move(a)...); } };
	std::unique_ptr<B> b; bool now = false, copy = false; std::function<void(Op&)> complete;
	template<class H> void take(H&& h)
	{
		typedef std::decay_t<H> D; if (copy) { D c(h); D e(std::move(h)); { D gone(e); } b.reset(new I<D>(std::move(c))); } else b.reset(new I<D>(std::move(h)));
		if (now) complete(*this);
	}
	template<class T> auto start(T&& token) { return asio::async_initiate<T, void(A...)>([this](auto&& h) { take(std::move(h)); }, token); }
};
// what an operation hands over: value number v, or the failure; and what must arrive
static int g_code;
static EC code(int v)
{
	switch (g_code) { default: return EC(v, asio::system_category()); case 1: return asio::error::operation_aborted; case 2: return asio::error::eof; case 3: return asio::error::would_block; case 4: return asio::error::not_found;
		case 5: return asio::error::host_not_found; case 6: return std::make_error_code(std::errc::interrupted); case 7: return EC(-v, std::generic_category()); case 8: return std::make_error_code(std::future_errc::broken_promise); case 9: return asio::error::already_open; }
}
template<class T> T make(int v) { return T(v); }
template<class... A> struct Sig
{
	static constexpr bool fails = sizeof...(A) > 0 && (std::is_same_v<std::tuple_element_t<0, std::tuple<A..., int>>, EC> || std::is_same_v<std::tuple_element_t<0, std::tuple<A..., int>>, EP>);
	static void complete(Op<A...>& o, int v, bool err)
	{
		mc_cell_set(SETC + v, 1); auto b = std::move(o.b); REQUIRE((bool)b, "the handler is gone"); int k = 0;
		auto arg = [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T;
			if constexpr (std::is_same_v<T, EC>) return err ? code(v) : EC();
			else if constexpr (std::is_same_v<T, EP>) return err ? std::make_exception_ptr(Err(v)) : EP();
			else return make<T>(v + 100 * k++); };
		if constexpr (sizeof...(A) == 0) b->call();
		else { std::tuple<A...> t { arg((A*)nullptr)... }; std::apply([&](auto&... x) { b->call(std::move(x)...); }, t); }
	}
	static int value(int x) { return x; } static int value(const Probe& p) { REQUIRE(p.magic == Probe::MAGIC, "a destroyed value arrived"); return p.v; }
	static void part(int x, int v, int k) { REQUIRE(x == v + 100 * k, "component %d of the result is %d instead of %d", k, x, v + 100 * k); }
	template<class F> static future_t<> consume(F f, int v, bool err, int delay)
	{
		while (delay-- > 0) co_await yield();
		bool failed = false;
		try
		{
			typedef typename F::value_type R;
			if constexpr (std::is_void_v<R>) co_await f;
			else
			{
				R r = co_await f;
				if constexpr (requires { std::tuple_size<R>::value; }) std::apply([&](auto&... x) { int k = 0; (part(value(x), v, k++), ...); }, r);
				else REQUIRE(value(r) == v, "result %d arrived instead of %d", value(r), v);
			}
		}
		catch (asio::system_error& e) { failed = true; REQUIRE(e.code() == code(v), "error code %d arrived instead of %d", e.code().value(), v); }
		catch (Err& e) { failed = true; REQUIRE(value(e.p) == v, "exception %d arrived instead of %d", e.p.v, v); }
		REQUIRE(mc_cell_add(RESUMED + v, 1) == 1, "the awaiting coroutine was resumed twice");
		REQUIRE(mc_cell_get(SETC + v) == 1, "the coroutine was resumed before the operation completed");
		REQUIRE(failed == err, failed ? "an exception arrived instead of the value" : "a value arrived instead of the failure");
	}
	static void done(int v) { REQUIRE(mc_cell_get(RESUMED + v) == 1, "the awaiting coroutine was never resumed"); Probe::check("result values"); }
	// one thread: completed by the initiation itself, before the await or after it; the handler is copied on the way or not
	template<class T> static void order(const T& token)
	{
		{
			local_scheduler_t ls; Op<A...> o; bool err = fails && mc_choose(2); g_code = err ? mc_choose(10) : 0; o.copy = mc_choose(2); int when = mc_choose(5); o.now = when == 0; o.complete = [&](Op<A...>& x) { complete(x, 1, err); };
			auto f = o.start(token); if (when == 1) complete(o, 1, err);
			if (mc_choose(4) == 0) { { auto g = std::move(f); } if (when > 1) complete(o, 1, err); mc_cell_set(RESUMED + 1, 1); }	// nobody waits
			else
			{
				go consume(std::move(f), 1, err, mc_choose(3));
				if (when > 1) { batches(when - 2); complete(o, 1, err); }
			}
			drain();
		}
		done(1);
	}
	// completed by another thread
	template<class T> static void race(const T& token)
	{
		{
			Op<A...> o; bool err = fails && mc_choose(2); int d = mc_choose(2); auto f = o.start(token);
			int a = sched_thr([&, d] { go consume(std::move(f), 1, err, d); }), b = thr([&] { complete(o, 1, err); });
			join_all(a, b);
		}
		done(1);
	}
	// started by the coroutine, completed by another thread as soon as it is: a chain of operations, as a session does
	template<class T> static void chain(const T& token, int n)
	{
		{
			std::atomic<int> ready { 0 }; Op<A...> o[3]; std::atomic<int> err { 0 }; if (fails) err = mc_choose(1 << n); bool d = mc_choose(2);
			auto session = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { auto f = o[i].start(token); ready.store(i + 1); if (d) co_await yield(); co_await consume(std::move(f), i + 1, err >> i & 1, 0); } };
			int a = sched_thr([&] { go session(); });
			int b = thr([&] { for (int i = 0; i < n; ++i) { while (ready.load() <= i) mc_point(); complete(o[i], i + 1, err >> i & 1); } });
			join_all(a, b);
		}
		for (int i = 0; i < n; ++i) done(i + 1);
	}
	// two operations at once, completed in any order, by one or two threads
	template<class T> static void both(const T& token)
	{
		{
			Op<A...> o[2]; bool err = fails && mc_choose(2); auto f = o[0].start(token), g = o[1].start(token); bool one = mc_choose(2);
			int a = sched_thr([&] { go consume(std::move(f), 1, err, 0); go consume(std::move(g), 2, false, 0); });
			int b = thr([&] { complete(o[0], 1, err); if (one) complete(o[1], 2, false); }); int c = thr([&] { if (!one) complete(o[1], 2, false); });
			join_all(a, b, c);
		}
		done(1); done(2);
	}
	// awaited together
	template<class T> static void all(const T& token)
	{
		{
			Op<A...> o[2]; int got = 0; bool now = mc_choose(2); o[0].now = now; o[0].complete = [](Op<A...>& x) { complete(x, 1, false); };
			auto w = [&]() -> future_t<> { auto f = o[0].start(token), g = o[1].start(token); co_await when_all(f, g); REQUIRE(mc_cell_get(SETC + 1) && mc_cell_get(SETC + 2), "when_all ended before the operations"); got++; };
			std::atomic<int> up { 0 }; int a = sched_thr([&] { go w(); this_scheduler()->run_one_batch(); up.store(1); });
			int b = thr([&] { while (!up.load()) mc_point(); if (!now) complete(o[0], 1, false); complete(o[1], 2, false); }); join_all(a, b); REQUIRE(got == 1, "when_all of two operations resumed %d times", got);
		}
		Probe::check("result values");
	}
};
template<class S, bool old> static void order(int) { if constexpr (!old) S::order(asio::rf_task); else if constexpr (BOTH) S::order(asio::rf_task0); }
template<class S, bool old> static void race(int) { if constexpr (!old) S::race(asio::rf_task); else if constexpr (BOTH) S::race(asio::rf_task0); }
template<class S, bool old> static void chain(int n) { if constexpr (!old) S::chain(asio::rf_task, n); else if constexpr (BOTH) S::chain(asio::rf_task0, n); }
template<class S, bool old> static void both(int) { if constexpr (!old) S::both(asio::rf_task); else if constexpr (BOTH) S::both(asio::rf_task0); }
template<class S, bool old> static void all(int) { if constexpr (!old) S::all(asio::rf_task); else if constexpr (BOTH) S::all(asio::rf_task0); }
#define R(n, ...) typedef Sig<__VA_ARGS__> S_##n; \
	MC_REG("C29", "order-" #n, (order<S_##n, false>), 0, 0, 0, 0) MC_REG("C29", "order-" #n "-init", (order<S_##n, true>), 0, 0, 0, 0) \
	MC_REG("C29", "race-" #n, (race<S_##n, false>), 0, 4, 8, MCF_RACE) MC_REG("C29", "race-" #n "-init", (race<S_##n, true>), 0, 3, 8, MCF_RACE)
R(void) R(ec, EC) R(ep, EP) R(int, int) R(probe, Probe) R(ec_int, EC, int) R(ec_probe, EC, Probe) R(ep_moveonly, EP, MoveOnly) R(int_probe, int, Probe) R(ec_int_moveonly, EC, int, MoveOnly) R(ep_probe_int, EP, Probe, int) R(ep_int, EP, int) R(two_int, EC, int, int) R(three, int, Probe, int)
#define T(n) MC_REG("C29", "chain-2-" #n, (chain<S_##n, false>), 2, 2, 4, MCF_RACE) MC_REG("C29", "chain-3-" #n "-init", (chain<S_##n, true>), 3, 1, 3, 0) MC_REG("C29", "both-" #n, (both<S_##n, false>), 0, 1, 2, 0)
#define U(n) MC_REG("C29", "all-" #n, (all<S_##n, false>), 0, 2, 3, 0) MC_REG("C29", "all-" #n "-init", (all<S_##n, true>), 0, 1, 3, 0)
T(ec) T(ec_int) T(ep_probe_int) U(void) U(ec) U(ep_int) U(two_int)
