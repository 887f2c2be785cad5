From cb6bc05d76ef60c09e952ad348ff281e0d5377c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 01/32] fix: wait_all on signalled events freed its state while
 still holding the state's lock

---
 include/librf/src/event_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..b995626 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -489,7 +489,7 @@ namespace librf
 
 			if (_state->_counter == 0)
 			{
-				_state = nullptr;
+				//lock_还持有_state->_lock，故_state只能在awaiter析构时释放
 				_value = true;
 
 				return false;
-- 
2.43.0


From 25cd0a5bb21408033086cd1e573c18ce3c538f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 02/32] fix: wait_all state could be freed by the resumed
 coroutine while the signalling thread held its lock

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..41c6e79 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -78,6 +78,8 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			//add_generator()之后，协程可能立即在别的线程里恢复并释放本对象，而_lock尚未解锁
+			counted_ptr<state_event_all_t> keep_alive{ this };
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
-- 
2.43.0


From de2f37693dbe50766c879664eeb953fd35500b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 03/32] fix: an expiring wait_all_for deadlocked with a
 concurrent signal (lock order)

---
 source/event_v2.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 41c6e79..2d746a6 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -112,24 +112,23 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			std::vector<sub_state_t> values;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+				values = std::move(_values);
+			}
 
-			for (sub_state_t& sub : _values)
+			//signal()先锁event再锁_lock，故此处不能在持有_lock时去锁event
+			for (sub_state_t& sub : values)
 			{
-				if (sub.first != nullptr)
-				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
-				}
+				if (sub.first != nullptr && sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first.get());
 			}
 
 			assert(this->_scheduler != nullptr);
-- 
2.43.0


From 06ac4dbb5fe3df2f7ae4065f3e8bf526205b98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 04/32] fix: event reset() racing a wait could bring a cleared
 signal back

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 2d746a6..1be9f08 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -204,6 +204,8 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
+
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From b6a79b9295d1658713e8593d5780f6a4a1e3bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 05/32] fix: unlock touched the freed root of a lock waiter
 that had timed out

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..c20fb71 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//超时的state还留在队列里，它的根协程可能已经释放，故只取地址，不能通过get_root()访问它
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From 3015d8f1ea6ac4b16978cba0b8104a82d0d9086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 06/32] fix: moving a batch_unlock_t over one that holds its
 mutex left that mutex locked for ever

---
 include/librf/src/mutex_v2.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..98c450f 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,15 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From 6c530f2fb812dbcb1e43de4af44c35a8ecf6aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 07/32] fix: mutex_t::try_lock_until(tp, address) could not be
 compiled

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 98c450f..6664d85 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -438,7 +438,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From c9119252f69f87d906fd219c1cf12616f51d35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 08/32] fix: batch_lock_t could not be move-assigned (did not
 compile, released nothing, returned nothing)

---
 include/librf/src/spinlock.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/librf/src/spinlock.h b/include/librf/src/spinlock.h
index 74939b8..483bb0f 100644
--- a/include/librf/src/spinlock.h
+++ b/include/librf/src/spinlock.h
@@ -111,18 +111,18 @@ namespace librf
 		struct _LockVectorAssembleT
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			_Ty& operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(_Ty& _LkN) const
 			{
@@ -149,18 +149,18 @@ namespace librf
 		struct _LockVectorAssembleT<std::reference_wrapper<_Ty>, _Cont>
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			std::reference_wrapper<_Ty> operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(std::reference_wrapper<_Ty> _LkN) const
 			{
@@ -289,11 +289,14 @@ namespace librf
 		{
 			if (this != &_Right)
 			{
+				unlock();
+
 				_LkN = _Right._LkN;
 				_Right._LkN = nullptr;
 
 				_LA = std::move(_Right._LA);
 			}
+			return *this;
 		}
 	private:
 		_Cont* _LkN;
-- 
2.43.0


From 28b33dc4e99055b05799a95cc5dbafd150f136a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 09/32] fix: an exception set on an awaitable_t<void> before it
 is awaited was lost and the awaiting coroutine hung

---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..873095b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From f6bb71bff80a27d6012d1eff55c9ba221742f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 10/32] fix: launching a future that already has its result
 left the scheduler busy for ever

---
 include/librf/src/state.h |  6 ++++++
 source/scheduler.cpp      | 13 ++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..66faea8 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -163,6 +163,12 @@ namespace librf
 			return _alloc_size;
 		}
 
+		inline bool has_result() const noexcept
+		{
+			//加锁，以便等待正在设置结果的线程离开
+			scoped_lock<lock_type> __guard(this->_mtx);
+			return _has_value.load(std::memory_order_acquire) != result_type::None;
+		}
 		inline bool future_await_ready() const noexcept
 		{
 			//scoped_lock<lock_type> __guard(this->_mtx);
diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..e2d8f81 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -94,20 +94,27 @@ namespace librf
 
 	LIBRF_API task_t* scheduler_t::new_task(task_t * task)
 	{
-		state_base_t* sptr = task->_state.get();
+		//task可能在加入后，随即被其他线程完成并删除
+		counted_ptr<state_base_t> sptr = task->_state;
 		sptr->set_scheduler(this);
 
 		{
 #if !RESUMEF_DISABLE_MULT_THREAD
 			scoped_lock<spinlock> __guard(_lock_ready);
 #endif
-			_ready_task.emplace(sptr, task);
+			_ready_task.emplace(sptr.get(), task);
 		}
 
 		//如果是单独的future，没有被co_await过，则handler是nullptr。
 		if (sptr->has_handler())
 		{
-			add_generator(sptr);
+			add_generator(sptr.get());
+		}
+		else if (static_cast<state_future_t*>(sptr.get())->has_result())
+		{
+			//在加入到_ready_task之前，就已经有结果了，不会再有人来移除它
+			del_final(sptr.get());
+			return nullptr;
 		}
 
 		return task;
-- 
2.43.0


From 7e5d5c622b25bb2e1232b85c43cb763e3cdb9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 11/32] fix: a timer callback that clears the timer manager
 corrupted it

---
 source/timer.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..4ebfab1 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -92,9 +92,15 @@ namespace librf
 					if (sptr->st == timer_target::State::Added)
 					{
 						sptr->st = timer_target::State::Runing;
-						_runing_timers.insert({ sptr->tp, sptr });
+						auto tp = sptr->tp;
+						_runing_timers.emplace(tp, std::move(sptr));
 					}
-					else
+				}
+
+				//全部转移后再回调：回调函数里可能会调用clear()
+				for (auto& sptr : _atimer)
+				{
+					if (sptr)
 					{
 						assert(sptr->st == timer_target::State::Invalid);
 						call_target_(sptr, true);
@@ -107,17 +113,18 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			while (!_runing_timers.empty())
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
+				auto iter = _runing_timers.begin();
+				if (iter->first > now_)
 					break;
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
-			}
+				//先移除再回调：回调函数里可能会调用clear()
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-			_runing_timers.erase(_runing_timers.begin(), iter);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+			}
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 3015cb878bda014dab9b3a14f66156abc895df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 12/32] fix: when_all lost the wakeup of, or used freed state
 with, awaitables that finish on another thread

---
 include/librf/src/when_v2.h | 39 ++++++++++++++++++++-----------------
 source/when_v2.cpp          |  4 +++-
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..dabdc94 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -33,16 +33,21 @@ namespace librf
 
 			//将自己加入到通知链表里
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			scheduler_t* on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
+			bool on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
 			{
 				_PromiseT& promise = handler.promise();
 				auto* parent_state = promise.get_state();
 				scheduler_t* sch = parent_state->get_scheduler();
 
+				scoped_lock<lock_type> lock_(_lock);
+
+				if (_counter.load(std::memory_order_relaxed) == 0)
+					return false;
+
 				this->_scheduler = sch;
 				this->_coro = handler;
 
-				return sch;
+				return true;
 			}
 
 			typedef spinlock lock_type;
@@ -74,9 +79,9 @@ namespace librf
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
-				_state->on_await_suspend(handler);
+				return _state->on_await_suspend(handler);
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
@@ -138,54 +143,52 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(state_when_t* state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<_Ty> value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
 			if constexpr (std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
 			else
-				value = co_await awaitor;
+				*value = co_await awaitor;
 			state->on_notify_one();
 		};
 
-		template<class _FuckBoolean>
-		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
-
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(state_when_t* state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<std::vector<_Ty>> values, intptr_t idx)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
 			else
-				value = co_await awaitor;
+				(*values)[idx] = co_await awaitor;
 			state->on_notify_one();
 		};
 
 		template<class _Tup, size_t _Idx>
-		inline void when_all_one__(scheduler_t& , state_when_t*, _Tup& )
+		inline void when_all_one__(scheduler_t& , const counted_ptr<state_when_t>&, const std::shared_ptr<_Tup>& )
 		{
 		}
 
 		template<class _Tup, size_t _Idx, _WhenTaskT _Awaitable, _WhenTaskT... _Rest>
-		inline void when_all_one__(scheduler_t& sch, state_when_t* state, _Tup& values, _Awaitable&& awaitable, _Rest&&... rest)
+		inline void when_all_one__(scheduler_t& sch, const counted_ptr<state_when_t>& state, const std::shared_ptr<_Tup>& values, _Awaitable&& awaitable, _Rest&&... rest)
 		{
-			sch + when_all_connector_1(state, std::forward<_Awaitable>(awaitable), std::get<_Idx>(values));
+			using value_type = std::tuple_element_t<_Idx, _Tup>;
+			sch + when_all_connector_1(state, std::forward<_Awaitable>(awaitable), std::shared_ptr<value_type>(values, &std::get<_Idx>(*values)));
 
 			when_all_one__<_Tup, _Idx + 1, _Rest...>(sch, state, values, std::forward<_Rest>(rest)...);
 		}
 
 		template<class _Val, _WhenIterT _Iter>
-		inline void when_all_range__(scheduler_t& sch, state_when_t* state, std::vector<_Val> & values, _Iter begin, _Iter end)
+		inline void when_all_range__(scheduler_t& sch, const counted_ptr<state_when_t>& state, const std::shared_ptr<std::vector<_Val>>& values, _Iter begin, _Iter end)
 		{
 			using _Awaitable = std::remove_reference_t<decltype(*begin)>;
 
 			intptr_t _Idx = 0;
 			for (; begin != end; ++begin, ++_Idx)
 			{
-				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx]);
+				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values, _Idx);
 			}
 		}
 
@@ -275,7 +278,7 @@ inline namespace when_v2
 		using tuple_type = std::tuple<detail::awaitor_result_t<_Awaitable>...>;
 
 		detail::when_future_t<tuple_type> awaitor{ sizeof...(_Awaitable) };
-		detail::when_all_one__<tuple_type, 0u, _Awaitable...>(sch, awaitor._state.get(), *awaitor._values, std::forward<_Awaitable>(args)...);
+		detail::when_all_one__<tuple_type, 0u, _Awaitable...>(sch, awaitor._state, awaitor._values, std::forward<_Awaitable>(args)...);
 
 		return awaitor;
 	}
@@ -296,7 +299,7 @@ inline namespace when_v2
 
 		detail::when_future_t<vector_type> awaitor{ std::distance(begin, end) };
 		awaitor._values->resize(end - begin);
-		when_all_range__(sch, awaitor._state.get(), *awaitor._values, begin, end);
+		when_all_range__(sch, awaitor._state, awaitor._values, begin, end);
 
 		return awaitor;
 	}
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..3b77ba6 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -39,9 +39,11 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From 5c40bc5a38b5c04689e9e3ad63c6f712da43d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 13/32] fix: when_all over a container of bool awaitables lost
 results of awaitables on different threads

---
 include/librf/src/when_v2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index dabdc94..37c10c3 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -161,6 +161,14 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr (std::is_same_v<_Ty, bool>)
+			{
+				bool value = co_await awaitor;
+
+				//std::vector<bool>的相邻元素共用内存
+				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+				(*values)[idx] = value;
+			}
 			else
 				(*values)[idx] = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0


From 8072ba63403d5a9d776f61414ad540164f6b6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 14/32] fix: the caller of when_all/when_any waited for ever
 when an awaitable failed

---
 include/librf/src/when_v2.h | 92 ++++++++++++++++++++++++-------------
 source/when_v2.cpp          |  8 ++++
 2 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 37c10c3..2ea80f2 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -29,6 +29,7 @@ namespace librf
 
 			LIBRF_API void on_cancel() noexcept;
 			LIBRF_API bool on_notify_one();
+			LIBRF_API void on_exception(std::exception_ptr e) noexcept;
 			LIBRF_API bool on_timeout();
 
 			//将自己加入到通知链表里
@@ -53,6 +54,7 @@ namespace librf
 			typedef spinlock lock_type;
 			lock_type _lock;
 			std::atomic<intptr_t> _counter;
+			std::exception_ptr _exception;		//第一个失败的可等待对象的异常
 		};
 
 		template<class _Ty>
@@ -84,8 +86,10 @@ namespace librf
 				return _state->on_await_suspend(handler);
 			}
 
-			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
+			value_type await_resume()
 			{
+				if (_state->_exception)
+					std::rethrow_exception(std::move(_state->_exception));
 				return std::move(*_values);
 			}
 		};
@@ -145,32 +149,46 @@ namespace librf
 		template<_WhenTaskT _Awaitable, class _Ty>
 		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<_Ty> value)
 		{
-			decltype(auto) awaitor = when_real_awaitor(task);
+			try
+			{
+				decltype(auto) awaitor = when_real_awaitor(task);
 
-			if constexpr (std::is_same_v<_Ty, ignore_type>)
-				co_await awaitor;
-			else
-				*value = co_await awaitor;
+				if constexpr (std::is_same_v<_Ty, ignore_type>)
+					co_await awaitor;
+				else
+					*value = co_await awaitor;
+			}
+			catch (...)
+			{
+				state->on_exception(std::current_exception());
+			}
 			state->on_notify_one();
 		};
 
 		template<_WhenTaskT _Awaitable, class _Ty>
 		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<std::vector<_Ty>> values, intptr_t idx)
 		{
-			auto&& awaitor = when_real_awaitor(task);
-
-			if constexpr(std::is_same_v<_Ty, ignore_type>)
-				co_await awaitor;
-			else if constexpr (std::is_same_v<_Ty, bool>)
+			try
 			{
-				bool value = co_await awaitor;
+				auto&& awaitor = when_real_awaitor(task);
 
-				//std::vector<bool>的相邻元素共用内存
-				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
-				(*values)[idx] = value;
+				if constexpr(std::is_same_v<_Ty, ignore_type>)
+					co_await awaitor;
+				else if constexpr (std::is_same_v<_Ty, bool>)
+				{
+					bool value = co_await awaitor;
+
+					//std::vector<bool>的相邻元素共用内存
+					scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+					(*values)[idx] = value;
+				}
+				else
+					(*values)[idx] = co_await awaitor;
+			}
+			catch (...)
+			{
+				state->on_exception(std::current_exception());
 			}
-			else
-				(*values)[idx] = co_await awaitor;
 			state->on_notify_one();
 		};
 
@@ -207,29 +225,41 @@ namespace librf
 		{
 			assert(idx >= 0);
 
-			auto awaitor = when_real_awaitor(task);
+			try
+			{
+				auto awaitor = when_real_awaitor(task);
 
-			using value_type = awaitor_result_t<decltype(awaitor)>;
+				using value_type = awaitor_result_t<decltype(awaitor)>;
 
-			if constexpr (std::is_same_v<value_type, ignore_type>)
-			{
-				co_await awaitor;
+				if constexpr (std::is_same_v<value_type, ignore_type>)
+				{
+					co_await awaitor;
 
-				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					intptr_t oldValue = -1;
+					if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					{
+						state->on_notify_one();
+					}
+				}
+				else
 				{
-					state->on_notify_one();
+					decltype(auto) result = co_await awaitor;
+
+					intptr_t oldValue = -1;
+					if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					{
+						value->second = std::move(result);
+
+						state->on_notify_one();
+					}
 				}
 			}
-			else
+			catch (...)
 			{
-				decltype(auto) result = co_await awaitor;
-
 				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx) || oldValue == idx)
 				{
-					value->second = std::move(result);
-
+					state->on_exception(std::current_exception());
 					state->on_notify_one();
 				}
 			}
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 3b77ba6..5a47d50 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -50,6 +50,14 @@ namespace librf
 			return false;
 		}
 
+		LIBRF_API void state_when_t::on_exception(std::exception_ptr e) noexcept
+		{
+			scoped_lock<lock_type> lock_(_lock);
+
+			if (!_exception)
+				_exception = std::move(e);
+		}
+
 		LIBRF_API bool state_when_t::on_timeout()
 		{
 			scoped_lock<lock_type> lock_(_lock);
-- 
2.43.0


From d6048105f3565313749909c9985c60baea09e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 15/32] fix: when_any could not be compiled with an awaitable
 that cannot be copied

---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 2ea80f2..6208624 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -227,7 +227,7 @@ namespace librf
 
 			try
 			{
-				auto awaitor = when_real_awaitor(task);
+				decltype(auto) awaitor = when_real_awaitor(task);
 
 				using value_type = awaitor_result_t<decltype(awaitor)>;
 
-- 
2.43.0


From 158ea78290cc162f5063d7dd91f94c1d3a583d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 16/32] fix: when_any moved from the object an awaitable refers
 to

---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 6208624..67f4785 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -248,7 +248,7 @@ namespace librf
 					intptr_t oldValue = -1;
 					if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
 					{
-						value->second = std::move(result);
+						value->second = std::forward<decltype(result)>(result);
 
 						state->on_notify_one();
 					}
-- 
2.43.0


From db21974c61ca906573bae263da87900703161059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 17/32] fix: the stop state was freed while sources or tokens
 still referred to it

---
 include/librf/src/stop_token.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..46b4ba7 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,8 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kLastTokenRef = kTokenRefIncrement + kTokenRefIncrement;
+    static constexpr uint64_t kLockedAndLastTokenRef = kLockedFlag + kLastTokenRef;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -123,7 +124,7 @@ struct stop_state
 
     void unlock_and_decrement_token_ref_count() noexcept
     {
-        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndZeroRef)
+        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndLastTokenRef)
         {
             delete this;
         }
@@ -138,7 +139,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kLastTokenRef)
         {
             delete this;
         }
-- 
2.43.0


From 84ebb1c757892a644502cedb1e958123cdad7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 18/32] fix: request_stop_all_if_possible ran stop and timer
 callbacks while holding the scheduler's lock (deadlock)

---
 source/scheduler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index e2d8f81..d4ab206 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -140,10 +140,20 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//stop_callback和定时器的回调函数里，可能会使用本调度器，故回调时不能持有锁
+		std::vector<stop_source> sources;
+		{
+			scoped_lock<spinlock> __guard(_lock_ready);
+
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					sources.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		for (auto& source : sources)
+			source.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From 7d335f6b392cb8edcb3be1b76fc988a370493338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 19/32] fix: the callable of a task was destroyed before the
 locals of its coroutine

---
 include/librf/src/state.inl | 8 ++++----
 source/state.cpp            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 23a7376..098c147 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -167,7 +167,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
@@ -183,7 +183,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
@@ -274,7 +274,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
@@ -290,7 +290,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 873095b..8023a40 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -210,7 +210,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
@@ -226,7 +226,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)	//协程的局部变量还没有销毁，要等到promise_final_suspend()才能删除task
 				sch->del_final(this);
 		}
 	}
-- 
2.43.0


From 5d6a3e19e5719c1bc3644d0a49901168f5e51626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 20/32] fix: a channel freed by its last awaiter was still
 locked

---
 include/librf/src/channel_v2.inl | 38 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..85e923a 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,9 +359,8 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
-				scoped_lock<lock_type> lock_(_channel->_lock);
-
-				if (_channel->try_read_nolock(_value))
+				//_channel可能是最后一个引用，只能在解锁后释放
+				if (_channel->try_read(_value))
 				{
 					_channel = nullptr;
 					return true;
@@ -373,18 +372,16 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
-			scoped_lock<lock_type> lock_(_channel->_lock);
+			//_channel可能是最后一个引用，只能在解锁后释放
+			std::shared_ptr<channel_type> channel = std::move(_channel);
+			scoped_lock<lock_type> lock_(channel->_lock);
 
-			if (_channel->try_read_nolock(_value))
-			{
-				_channel = nullptr;
+			if (channel->try_read_nolock(_value))
 				return false;
-			}
 
-			_state = new state_type(_channel, _value);
+			_state = new state_type(channel, _value);
 			_state->on_await_suspend(handler);
-			_channel->add_read_list_nolock(_state.get());
-			_channel = nullptr;
+			channel->add_read_list_nolock(_state.get());
 
 			return true;
 		}
@@ -430,9 +427,8 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
-				scoped_lock<lock_type> lock_(_channel->_lock);
-
-				if (_channel->try_write_nolock(_value))
+				//_channel可能是最后一个引用，只能在解锁后释放
+				if (_channel->try_write(_value))
 				{
 					_channel = nullptr;
 					return true;
@@ -444,18 +440,16 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
-			scoped_lock<lock_type> lock_(_channel->_lock);
+			//_channel可能是最后一个引用，只能在解锁后释放
+			std::shared_ptr<channel_type> channel = std::move(_channel);
+			scoped_lock<lock_type> lock_(channel->_lock);
 
-			if (_channel->try_write_nolock(_value))
-			{
-				_channel = nullptr;
+			if (channel->try_write_nolock(_value))
 				return false;
-			}
 
-			_state = new state_type(_channel, _value);
+			_state = new state_type(channel, _value);
 			_state->on_await_suspend(handler);
-			_channel->add_write_list_nolock(_state.get());
-			_channel = nullptr;
+			channel->add_write_list_nolock(_state.get());
 
 			return true;
 		}
-- 
2.43.0


From 3c453f61224af5579ad7cca688a1b5136e1e0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 21/32] fix: awaiting a future that was launched on its own
 resumed before its result was set

---
 source/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/state.cpp b/source/state.cpp
index 8023a40..dcac763 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -135,7 +135,8 @@ namespace librf
 			return;
 		}
 		
-		if (_coro)
+		//等待者在有了结果后才能恢复。单独启动的协程，被co_await时可能还在运行
+		if (_coro && this->future_await_ready())
 		{
 			coroutine_handle<> handler = _coro;
 			_coro = nullptr;
-- 
2.43.0


From 526046d0d4cccf7ee28410854bf845bc41ff2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 22/32] fix: a coroutine that was never started was leaked when
 its future was dropped

---
 include/librf/src/state.inl |  1 +
 source/state.cpp            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 098c147..6c3e318 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -9,6 +9,7 @@ namespace librf
 
 		this->_initor = handler;
 		this->_is_initor = initor_type::Initial;
+		this->unlock();		//尚未启动的协程，不持有对自己的引用，这样才能随future一起销毁
 	}
 
 	template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
diff --git a/source/state.cpp b/source/state.cpp
index dcac763..1e2be7b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -38,6 +38,15 @@ namespace librf
 #if RESUMEF_DEBUG_COUNTER
 		std::cout << "destroy_deallocate, size=" << _Size << std::endl;
 #endif
+		if (_is_initor == initor_type::Initial)
+		{
+			//协程从未启动，也不再有人能启动它。归还promise的引用后销毁协程，promise随后会再次释放本对象
+			_is_initor = initor_type::None;
+			this->lock();
+			_initor.destroy();
+			return;
+		}
+
 		this->~state_future_t();
 
 		_Alloc_char _Al;
@@ -129,6 +138,7 @@ namespace librf
 
 			coroutine_handle<> handler = _initor;
 			_is_initor = initor_type::None;
+			this->lock();		//从此刻起，运行中的协程(promise)持有一个引用
 			__guard.unlock();
 
 			handler.resume();
-- 
2.43.0


From 1c4bf2653757376b19ee1c8df72187e59ead9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 23/32] fix: a generator referred to the value of co_return
 after it was destroyed

---
 include/librf/src/generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..ae44c89 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -144,10 +144,12 @@ namespace librf
 				return {};
 			}
 
+			//co_return的值，是最后一个值。此值在co_return语句结束后就销毁了，因此需要保存下来
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			template <typename _Uty = _Ty>
+			void return_value(_Uty&& _Value)
 			{
-				_CurrentValue = std::addressof(_Value);
+				_CurrentValue = std::addressof(_ReturnValue.emplace(std::forward<_Uty>(_Value)));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -216,6 +218,7 @@ namespace librf
 			}
 		private:
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
+			std::optional<_Ty> _ReturnValue;
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
 
-- 
2.43.0


From 10b477f1141a6a8a8663f383701fe82cc3ab4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 24/32] fix: move assignment of a generator leaked the
 coroutine it had

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index ae44c89..3ad45cb 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -259,6 +259,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From f05a390446e3d7de8a25113b24748e4cc168e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 25/32] fix: stopping a timer from another thread could be lost
 or succeed twice

---
 include/librf/src/timer.h |  2 +-
 source/timer.cpp          | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..89f21f4 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -27,7 +27,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st{ State::Invalid };	//stop()可能由其他线程调用
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
diff --git a/source/timer.cpp b/source/timer.cpp
index 4ebfab1..1ee4451 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -67,9 +67,8 @@ namespace librf
 #if _DEBUG
 		assert(sptr->_manager == this);
 #endif
-		sptr->st = timer_target::State::Invalid;
-
-		return true;
+		//可能有其他线程正在停止它，或者正在触发它
+		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -89,9 +88,9 @@ namespace librf
 
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto st = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))
 					{
-						sptr->st = timer_target::State::Runing;
 						auto tp = sptr->tp;
 						_runing_timers.emplace(tp, std::move(sptr));
 					}
@@ -123,7 +122,7 @@ namespace librf
 				auto sptr = std::move(iter->second);
 				_runing_timers.erase(iter);
 
-				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+				call_target_(sptr, sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid);
 			}
 		}
 	}
-- 
2.43.0


From 2d77693c84408a780e4d0468580a5c0335720de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 26/32] fix: timer_manager::empty() read the timers being added
 without the lock

---
 include/librf/src/timer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index 89f21f4..698e3db 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -123,6 +123,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __lock(_added_mtx);
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +144,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _added_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
-- 
2.43.0


From 7253e68a4c78cb6beee63c1a85e29d9b5c096562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 27/32] fix: when_all/when_any read the results without
 synchronizing with the thread that stored them

---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 67f4785..d693e34 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -77,7 +77,7 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-- 
2.43.0


From 246f915b37468ab7bf005f2119a9995434293438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 28/32] fix: co_await wrote the scheduler of a future while
 another thread was setting its value

---
 include/librf/src/state.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index 66faea8..065ebc7 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -38,7 +38,7 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
-		void set_scheduler(scheduler_t* sch) noexcept
+		virtual void set_scheduler(scheduler_t* sch) noexcept
 		{
 			_scheduler = sch;
 		}
@@ -138,6 +138,13 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
 
+		//加锁，因为其他线程可能正在设置结果
+		virtual void set_scheduler(scheduler_t* sch) noexcept override
+		{
+			scoped_lock<lock_type> __guard(this->_mtx);
+			_scheduler = sch;
+		}
+
 		inline bool is_ready() const noexcept
 		{
 #pragma warning(disable : 6326)	//warning C6326: Potential comparison of a constant with another constant.
-- 
2.43.0


From 5567bd54cb2886d8f121bb5dc4be3ef0f0298885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 29/32] fix: a stop_source made possible by one thread was read
 without synchronization by another

---
 include/librf/src/stop_token.h | 42 +++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 46b4ba7..f748e53 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -394,7 +394,13 @@ public:
 class stop_source
 {
 private:
-    details::stop_state* state_;
+    //make_sure_possible()可能在其他线程里写入
+    std::atomic<details::stop_state*> state_;
+
+    details::stop_state* get_state() const noexcept
+    {
+        return state_.load(std::memory_order_acquire);
+    }
 
 public:
     stop_source()
@@ -409,23 +415,23 @@ public:
 
     ~stop_source()
     {
-        if (state_)
+        if (auto* st = get_state())
         {
-            state_->remove_source_reference();
+            st->remove_source_reference();
         }
     }
 
     stop_source(const stop_source& other) noexcept
-        : state_(other.state_)
+        : state_(other.get_state())
     {
-        if (state_)
+        if (auto* st = get_state())
         {
-            state_->add_source_reference();
+            st->add_source_reference();
         }
     }
 
     stop_source(stop_source&& other) noexcept
-        : state_(std::exchange(other.state_, nullptr))
+        : state_(other.state_.exchange(nullptr))
     {
     }
 
@@ -438,7 +444,7 @@ public:
 
     stop_source& operator=(const stop_source& other) noexcept
     {
-        if (state_ != other.state_)
+        if (get_state() != other.get_state())
         {
             stop_source tmp{other};
             swap(tmp);
@@ -449,24 +455,24 @@ public:
     [[nodiscard]]
     bool stop_requested() const noexcept
     {
-        return state_ && state_->is_stop_requested();
+        auto* st = get_state();
+        return st && st->is_stop_requested();
     }
 
     [[nodiscard]]
     bool stop_possible() const noexcept
     {
-        return state_ != nullptr;
+        return get_state() != nullptr;
     }
 
 	void make_sure_possible()
 	{
-        if (state_ == nullptr)
+        if (get_state() == nullptr)
         {
             details::stop_state* st = new details::stop_state();
             details::stop_state* tmp = nullptr;
-            if (!std::atomic_compare_exchange_strong_explicit(
-                reinterpret_cast<std::atomic<details::stop_state*>*>(&state_),
-                &tmp, 
+            if (!state_.compare_exchange_strong(
+                tmp, 
                 st, 
                 std::memory_order_release, 
                 std::memory_order_acquire))
@@ -478,9 +484,9 @@ public:
 
     bool request_stop() const noexcept
     {
-        if (state_)
+        if (auto* st = get_state())
         {
-            return state_->request_stop();
+            return st->request_stop();
         }
         return false;
     }
@@ -488,12 +494,12 @@ public:
     [[nodiscard]]
     stop_token get_token() const noexcept
     {
-        return stop_token{state_};
+        return stop_token{get_state()};
     }
 
     void swap(stop_source& other) noexcept
     {
-        std::swap(state_, other.state_);
+        state_.store(other.state_.exchange(get_state()));
     }
 
     [[nodiscard]]
-- 
2.43.0


From 1df9115f37dd05e6fbe1dd702fdd1a7bfb54e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 30/32] fix: the asio 1.12.0 adapter could not be compiled
 (librf resolved to asio::librf)

---
 asio/asio_task_1.12.0.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asio/asio_task_1.12.0.inl b/asio/asio_task_1.12.0.inl
index ae57efc..d59e56f 100644
--- a/asio/asio_task_1.12.0.inl
+++ b/asio/asio_task_1.12.0.inl
@@ -25,14 +25,14 @@ namespace asio {
 		{
 		public:
 			typedef T result_type;
-			typedef librf::state_t<result_type> state_type;
+			typedef ::librf::state_t<result_type> state_type;
 
 			promise_handler_base()
-				: state_(librf::state_future_t::_Alloc_state<state_type>(true))
+				: state_(::librf::state_future_t::_Alloc_state<state_type>(true))
 			{
 			}
 
-			librf::counted_ptr<state_type> state_;
+			::librf::counted_ptr<state_type> state_;
 			promise_handler_base(promise_handler_base &&) = default;
 			promise_handler_base(const promise_handler_base &) = default;
 			promise_handler_base & operator = (promise_handler_base &&) = default;
@@ -177,7 +177,7 @@ namespace asio {
 	public:
 		typedef librf::promise_handler<Executor, Args...> handler_type;
 		typedef typename handler_type::result_type result_type;
-		typedef librf::future_t<result_type> return_type;
+		typedef ::librf::future_t<result_type> return_type;
 
 		template <typename Initiation, typename... InitArgs>
 		static return_type initiate(ASIO_MOVE_ARG(Initiation) initiation,
-- 
2.43.0


From 3ea446a5f75488b6ce229f85d76ea4fd606c3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 31/32] fix: the build without multithreading
 (LIBRF_DISABLE_MULT_THREAD) did not compile: request_stop_all_if_possible
 used the lock that does not exist there

---
 source/scheduler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index d4ab206..4eef7b0 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -143,7 +143,9 @@ namespace librf
 		//stop_callback和定时器的回调函数里，可能会使用本调度器，故回调时不能持有锁
 		std::vector<stop_source> sources;
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
 			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
 
 			for (auto& kv : this->_ready_task)
 			{
-- 
2.43.0


From 864484a2491180e5dde8966b945ef99564733fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 32/32] fix: in debug builds stop() racing with the firing of a
 timer failed an assertion (the timer's manager had been cleared)

---
 source/timer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index 1ee4451..015de06 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -16,9 +16,6 @@ namespace librf
 	{
 		auto cb = std::move(sptr->cb);
 		sptr->st = timer_target::State::Invalid;
-#if _DEBUG
-		sptr->_manager = nullptr;
-#endif
 
 		if(cb) cb(canceld);
 	}
-- 
2.43.0

