#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,symbols=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=list(files),mechanism=[dict(name=x,where=files[0]) for x in symbols])))
I='include/librf/src/'
SCHED="all interleavings of the participating threads, up to a preemption bound, for small configurations of producers/consumers/capacity"
p('C01','Channel delivers every written value exactly once',
 'Every value whose write on a channel_t completed is received by exactly one read, or is still buffered; every read returns a value that some write put in, never twice, never torn and never default-made. This holds for any mix of coroutine writers and readers on any number of scheduler threads, for every capacity (0 included) and every channel storage variant (plain, optional, multithread-optimised).',
 ['schedules','inputs','configurations'],'Any number of writers/readers on any schedulers and threads, any interleaving, any capacity and element type (trivial, copyable, move-only, throwing on copy).',
 'The tutorials run one schedule per run with sums compared at the end; a lost or duplicated element needs a particular interleaving of two threads inside one channel operation.',
 [I+'channel_v2.h',I+'channel_v2.inl',I+'ring_queue.h',I+'intrusive_link_queue.h',I+'_awaker.h'],['channel_t','channel_impl_v2','ring_queue'])
p('C02','Channel is FIFO and respects its capacity',
 'Values written to a channel_t by completed, ordered writes are received in that order, whether they pass through the buffer, are handed to a waiting reader or come from a blocked writer, and blocked readers and writers are served first come first served. A write completes without blocking exactly when a reader waits or fewer than max(capacity) unread values are buffered; a read completes without blocking exactly when a value is buffered or a writer waits, so at most capacity completed writes are ever unread.',
 ['histories','inputs','configurations'],'Every finite sequence of write/read operations, every capacity from 0 up, every storage variant.',
 'Tests use a few fixed capacities and check only totals; order across buffer wrap-around, blocked writers and blocked readers depends on long operation histories.',
 [I+'channel_v2.inl',I+'ring_queue.h',I+'intrusive_link_queue.h'],['channel_impl_v2::try_read','channel_impl_v2::try_write','ring_queue'])
p('C03','Channel never loses a wakeup, for coroutines and plain threads',
 'No channel_t operation stays blocked while the counterpart it waits for exists: a blocked read resumes once a value is available to it, a blocked write resumes once its value has been taken or buffered. This also holds when either side is a plain thread using read()/write() outside any coroutine, which blocks that thread until the operation is done (the one exception is by design: two plain threads never meet on a channel of capacity 0, because they only poll).',
 ['schedules','configurations'],'Every interleaving of readers and writers, in coroutines on several scheduler threads and in plain threads.',
 'A lost wakeup is a hang in one interleaving out of thousands; the tests stay green on all the others.',
 [I+'channel_v2.inl',I+'channel_v2.h',I+'state.inl','source/scheduler.cpp'],['read_awaiter','write_awaiter'])
p('C04','Event signals are counted: N signals release exactly N waits',
 'An event_t behaves as a counting signal: each signal() either releases the longest-waiting coroutine or is remembered for one later wait, an initially signalled event starts with one, and no signal is lost, duplicated or invented. A wait that finds a remembered signal consumes one and returns without blocking; otherwise it blocks until released.',
 ['schedules','histories'],'All sequences and all thread interleavings of signal() and wait() by any number of signallers (threads or coroutines) and waiters.',
 'The event tutorials use one signaller with sleeps around it; the window between testing the counter and enqueueing the waiter is never hit deterministically.',
 [I+'event_v2.h',I+'event_v2.inl','source/event_v2.cpp'],['event_t','event_v2_impl'])
p('C05','signal_all releases exactly the current waiters; reset forgets signals',
 'signal_all() releases every coroutine waiting on the event at that moment, each once, and releases nobody that starts waiting afterwards; reset() discards all remembered signals so that the next wait blocks until a new signal, and wakes nobody. Neither operation creates a signal that was never sent, whatever runs concurrently.',
 ['schedules','histories'],'All sequences and interleavings of signal_all, reset, signal, wait.',
 'No test runs reset or signal_all concurrently with anything.',
 [I+'event_v2.inl','source/event_v2.cpp'],['event_t::signal_all','event_t::reset'])
p('C06','Timed event wait has exactly one outcome and loses no signal',
 'wait_for/wait_until on an event_t completes exactly once: with true having consumed exactly one signal, or with false having consumed none and not before the deadline. A signal sent around the deadline is never lost: it either makes a wait return true or stays available to another waiter.',
 ['schedules','histories'],'Every relative order of signal, deadline expiry and scheduler batches, on one or two threads.',
 'The signal/timeout race has a window of nanoseconds in real time; tests separate them by hundreds of milliseconds.',
 [I+'event_v2.h',I+'event_v2.inl','source/event_v2.cpp','source/timer.cpp'],['event_t::wait_for','event_t::wait_until'])
p('C07','wait_all consumes one signal of every event, once all have arrived',
 'event_t::wait_all resumes its caller exactly once, with true, after every listed event supplied one signal, consuming exactly one from each, whether the signals came before or after the wait began and from whatever threads. wait_all_for either does the same before its deadline or returns false at or after it; either way the caller is resumed exactly once and no later signal touches released memory.',
 ['schedules','histories'],'Every order and interleaving of signals on the listed events, with and without deadline, events pre-signalled or not.',
 'Tests signal the events from one thread with long sleeps; the all-already-signalled path, concurrent signals and the expiry race are not reached.',
 [I+'event_v2.inl','source/event_v2.cpp'],['event_t::wait_all','event_t::wait_all_for','state_event_all_t'])
p('C08','mutex_t excludes all other owners and is recursive per root coroutine',
 'At any time at most one owner (a root coroutine with everything it awaits, or one address given by plain code) holds a mutex_t; that owner may lock again without blocking and the mutex is free only after as many unlocks as successful locks. try_lock succeeds exactly when the mutex is free or already owned by the caller, never blocks, and a scoped guard releases exactly what it holds when it is destroyed, moved from, moved over or unlocked by hand.',
 ['schedules','histories'],'All interleavings of lock/try_lock/unlock by coroutines on several schedulers and plain threads; all recursion depths; all operation sequences on guards.',
 'Tests compare a counter after one schedule; a double grant requires unlock, try_lock and enqueue to interleave in one way.',
 [I+'mutex_v2.h',I+'mutex_v2.inl','source/mutex_v2.cpp'],['mutex_t','mutex_v2_impl','batch_unlock_t'])
p('C09','Unlock hands the mutex to the first waiter; no waiter is stranded',
 'When the last level of a mutex_t is unlocked while coroutines wait for it, the one that began to wait first owns it and is resumed, exactly once; when nobody waits it becomes free. No coroutine or plain thread waits for ever for a mutex whose owners always unlock.',
 ['schedules','histories'],'All interleavings of contenders in coroutines and plain threads.',
 'A stranded waiter appears as a rare hang only.',
 [I+'mutex_v2.inl','source/mutex_v2.cpp'],['mutex_v2_impl::unlock'])
p('C10','Timed mutex lock either owns or does not, exactly once',
 'try_lock_for/try_lock_until resume their caller exactly once: with true when it owns the mutex, or with false, not before the deadline, when it does not. A timed-out waiter is never granted the mutex afterwards, and an unlock that coincides with the deadline never leaves the mutex owned by nobody\'s code.',
 ['schedules','histories'],'Every relative order of unlock, deadline expiry and scheduler batches, on one or two threads.',
 'The expiry/unlock race is not reachable with wall-clock sleeps.',
 [I+'mutex_v2.inl','source/mutex_v2.cpp','source/timer.cpp'],['mutex_t::try_lock_for','mutex_t::try_lock_until'])
p('C11','Locking several mutexes at once is all-or-nothing and deadlock free',
 'Locking a list of mutex_t together returns only when the caller owns all of them, whatever order the lists are in and whoever else locks overlapping lists, from coroutines or plain threads; and it always returns once the others release theirs. The returned guard (or the matching batch unlock) releases every one of them exactly once.',
 ['schedules','configurations'],'All interleavings of contenders with overlapping lists in different orders.',
 'Lock-order deadlocks appear only in specific interleavings; the tutorial runs two fixed orders.',
 [I+'mutex_v2.inl',I+'without_deadlock_assemble.inl',I+'mutex_v2.h'],['mutex_t::lock','batch_unlock_t'])
p('C12','spinlock and multi-lock guards give mutual exclusion',
 'librf::spinlock admits one holder at a time, lock() returns once the holder releases it, and try_lock() succeeds exactly when it is free. batch_lock_t/scoped_lock over several locks takes all of them without deadlock against guards listing them in another order, can be unlocked by hand and moved, and releases what it still holds exactly once.',
 ['schedules','histories'],'All interleavings of two or three threads, 1 to 3 locks, all orders; all guard operation sequences.',
 'Everything else in the library rests on it, but no test contends on it deliberately.',
 [I+'spinlock.h',I+'without_deadlock_assemble.inl'],['spinlock','batch_lock_t','scoped_lock'])
p('C13','A future delivers its result exactly once, set before or after the await',
 'The coroutine awaiting a future_t (from a coroutine or an awaitable_t) is resumed exactly once, after the result is set, and obtains exactly the value, reference or exception that was set, whether it was set before the await, after it, or concurrently from another thread. This holds for void, reference, trivial, copyable and move-only result types, and the stored value is destroyed exactly once.',
 ['schedules','inputs'],'Every interleaving of set_value/set_exception with co_await; every result category.',
 'Tests set from a detached thread after a sleep; the set-while-suspending window is not hit, and several result kinds are never set early.',
 [I+'state.h',I+'state.inl',I+'awaitable.h',I+'promise.inl','source/state.cpp'],['state_t','awaitable_t','future_t'])
p('C14','An exception reaches the coroutine that awaits, once',
 'An exception leaving a coroutine, or set on an awaitable, is rethrown unchanged at the co_await of whoever awaits it, at any nesting depth and before or after suspension, after the locals of the throwing coroutine were destroyed; the awaiting coroutine can catch it and go on. Nobody else sees it and it is thrown once.',
 ['programs','histories'],'All nestings of coroutines and awaitables up to a depth, with every choice of where suspension and throw happen.',
 'The exception tutorial has a handful of fixed nestings, none with a void awaitable that fails before it is awaited.',
 [I+'state.inl',I+'promise.inl','source/state.cpp'],['state_t::set_exception','promise_impl_t::unhandled_exception'])
p('C15','The scheduler runs every launched coroutine to completion exactly once',
 'Every coroutine started with go/GO or operator+ on a scheduler, from its own thread or another, runs to completion, each step executed exactly once; run_until_notask returns exactly when all of them have finished and no timer is pending, and empty() says so. Nothing that became ready is dropped or resumed twice, and a finished task is no longer held by the scheduler.',
 ['schedules','programs'],'All interleavings of launches and wakeups from other threads with the running batch; all small task programs.',
 'Launching while a batch is being swapped is a window the tests cannot hold open.',
 ['source/scheduler.cpp',I+'scheduler.h',I+'rf_task.h','source/state.cpp'],['scheduler_t::run_one_batch','scheduler_t::run_until_notask','scheduler_t::new_task','scheduler_t::add_generator'])
p('C16','Ready coroutines are run in order and yield lets every other one run',
 'On one scheduler, coroutines run in the order in which they became ready, and yield() puts the caller behind everything already ready: between two steps of a coroutine that only yields, every other ready coroutine makes one step. A coroutine that never suspends cannot be interleaved with another on the same scheduler.',
 ['programs','histories'],'All small task programs of launch, yield, nested await and generator steps.',
 'Tests print the order, they do not check it.',
 ['source/scheduler.cpp',I+'yield.h','source/state.cpp'],['yield','scheduler_t::run_one_batch'])
p('C17','via() moves a coroutine to the given scheduler, losing nothing',
 'After co_await via(s) the coroutine continues on the thread that drives s, exactly once, together with the coroutines that await it; via to the current scheduler continues without suspending. The scheduler it left no longer counts the task as its own and the new one counts it until it finishes, so that each reports empty exactly when its own work is done, even when other threads launch, wake or finish work meanwhile.',
 ['schedules','programs'],'All interleavings of the two scheduler threads around a switch; all nesting depths and switch sequences up to a bound.',
 'The switch tutorial runs one order; the hand-over window between two run loops is not hit.',
 [I+'switch_scheduler.h','source/state.cpp','source/scheduler.cpp'],['via','state_base_t::switch_scheduler_await_suspend','scheduler_t::del_switch','scheduler_t::add_switch'])
p('C18','Every timer fires exactly once, in deadline order and never early',
 'A timer added to a timer manager has its callback invoked exactly once: with false at an update at or after its deadline, or with true (cancelled) when it was stopped or the manager was cleared before that. Callbacks due in one update run in deadline order, callbacks may themselves add, stop or clear timers, stop() reports whether it was in time, and empty() is true exactly when none is pending.',
 ['histories','schedules'],'All sequences of add/stop/clear/update/clock advance, also made from inside callbacks and from other threads (add).',
 'Timer tests use a fixed handful of timers and wall-clock sleeps.',
 ['source/timer.cpp',I+'timer.h'],['timer_manager','timer_handler'])
p('C19','Sleeping lasts at least as long as asked and always ends',
 'sleep_for/sleep_until resume the caller exactly once, at the first scheduler batch at or after the deadline and never before, sleepers wake in deadline order, and a non-positive duration does not hang. When the timers are cancelled, a sleeping coroutine is resumed with a canceled exception, exactly once.',
 ['histories','schedules'],'All small sets of sleepers and deadlines with every order of clock advance and batches; cancellation at every point.',
 'Wall-clock tests cannot control which batch sees which time.',
 ['source/sleep.cpp',I+'sleep.h','source/timer.cpp'],['sleep_for','sleep_until'])
p('C20','when_all resumes once, after all, with every result in place',
 'co_await when_all(...) resumes its caller exactly once, after every listed awaitable has finished, wherever each of them runs, and yields their results in the order listed (void as an empty value); an empty list completes at once. If a listed awaitable fails, the caller is still resumed instead of waiting for ever.',
 ['schedules','programs'],'All completion orders and interleavings; 0 to 3 children; container and variadic forms; children finishing immediately, later, on other threads.',
 'The only when_all test is compiled out on this platform.',
 [I+'when_v2.h','source/when_v2.cpp'],['when_all','state_when_t'])
p('C21','when_any resumes once, with the first to finish',
 'co_await when_any(...) resumes its caller exactly once with the index and value of the first listed awaitable to finish (its exception, if it failed); the others run on to completion without harm and without a second resumption. An empty list completes at once with no index.',
 ['schedules','programs'],'All completion orders, ties and interleavings; 0 to 3 children; container and variadic forms.',
 'No test uses when_any on this platform.',
 [I+'when_v2.h','source/when_v2.cpp'],['when_any','state_when_t'])
p('C22','A stop request is made once and every live stop callback runs once',
 'Of all concurrent request_stop calls exactly one returns true; each stop callback registered at that time, or registered later while the request stands, is invoked exactly once, and after its destruction returns it neither runs nor is still running on another thread. The shared stop state lives while any source, token or callback refers to it and is freed exactly once afterwards; stop_requested/stop_possible never go back from true to false while the requester side exists.',
 ['schedules','histories'],'All interleavings of request_stop, registration, deregistration (also from inside a callback), copy and destruction of sources and tokens.',
 'No test registers a stop_callback at all.',
 [I+'stop_token.h'],['stop_source','stop_token','stop_callback','stop_state'])
p('C23','Stopping a task reaches its coroutine and only it',
 'The stop token a coroutine obtains belongs to its own task: requesting stop through the task, through its stop source or through the scheduler\'s stop-all is seen by that coroutine and everything it awaits, and not by other tasks. Stop-all reaches every task that has asked for a token, whatever the callbacks do, and tasks that never asked are not disturbed.',
 ['programs','schedules'],'All small programs of tasks asking for tokens, awaiting children, switching scheduler; stop from inside, outside and (through a stop source; stop-all belongs to the scheduler\'s own thread) another thread.',
 'Only one cancellation scenario is tested.',
 [I+'rf_task.h',I+'current_scheduler.h',I+'stop_token.h','source/scheduler.cpp'],['task_t','get_stop_token','request_stop_all_if_possible'])
p('C24','Coroutine memory is released exactly once and never used afterwards',
 'Every coroutine frame, its parameters and locals, the callable given to go/GO, every shared state and every stored result are destroyed exactly once: the frame after its body finished or its last owner gave it up, the callable not before the locals of the coroutine\'s body. No operation of the library touches freed memory, for any interleaving and any order of dropping futures, tasks, events, channels and mutexes.',
 ['schedules','programs'],'All small programs mixing the primitives, awaited, un-awaited and abandoned coroutines; all interleavings.',
 'Tests pass with a use-after-free present as long as the freed block is not recycled in that run.',
 ['source/state.cpp',I+'state.inl',I+'counted_ptr.h',I+'promise.inl',I+'rf_task.h','source/scheduler.cpp'],['state_base_t::destroy_deallocate','counted_ptr','promise_impl_t','task_ctx_impl_t'])
p('C25','Generators produce exactly the yielded sequence',
 'Iterating a generator_t once, from begin(), yields exactly the values its body passes to co_yield, in order, then (if anything was yielded) the value given to co_return as the last one; it executes the body lazily, one step per increment, and ends when the body has returned. Moving a generator keeps its position and destroying it at any point destroys the body\'s locals exactly once. A generator launched on a scheduler runs one co_yield per scheduling round to the end.',
 ['programs','histories'],'All sequences of construct, move, increment, abandon up to a length, for every body shape (0..n yields, loops, nested locals, return).',
 'The generator test iterates one Fibonacci sequence to the end.',
 [I+'generator.h'],['generator_t'])
p('C26','A coroutine runs only on its scheduler\'s thread and knows where it is',
 'Code of a coroutine runs only on the thread driving the scheduler it is bound to, whichever thread woke it; inside it the current-scheduler, root-state and current-task queries name that scheduler, one and the same root for a coroutine and every coroutine it co_awaits directly (children of when_all/when_any are tasks of their own), and that root\'s task. A local scheduler binds only the thread that created it, nests without creating a second one, and unbinds when it goes.',
 ['schedules','programs'],'All interleavings of wakeups from foreign threads (event, channel, mutex, awaitable, via); all nestings.',
 'Tests do not check on which thread they are resumed.',
 [I+'current_scheduler.h','source/scheduler.cpp','source/state.cpp',I+'_awaker.h'],['this_scheduler','local_scheduler_t','librf_current_scheduler','librf_root_state'])
p('C27','Mixed use: a coroutine resumed by one primitive is never resumed by another',
 'In programs that combine channels, events, mutexes, timers, futures and scheduler switches, each suspended coroutine waits for exactly one thing and is resumed exactly once by it; no stale waiter record left by a finished or timed-out wait ever resumes it later, consumes a signal or takes a lock.',
 ['programs','schedules'],'Every program of bounded length over the primitives\' operations in which each step of one or two coroutines and each action of the code around them is a free choice; all interleavings of chosen programs over several threads.',
 'Each test exercises one primitive at a time.',
 [I+'event_v2.inl',I+'mutex_v2.inl',I+'channel_v2.inl','source/state.cpp','source/timer.cpp'],['state_event_t','state_mutex_t','state_channel_t'])
p('C28','A hand-over between threads synchronises memory',
 'What a thread wrote before it signalled an event, sent on a channel, unlocked a mutex or spinlock, set a result or exception, launched or switched a coroutine to another scheduler, requested stop, added or stopped a timer or finished a child of when_all/when_any is visible to the coroutine or thread that is woken, receives, locks, awaits or runs because of it. The accesses of the library itself to what threads share are free of data races in the sense of the C++ memory model, and what is destroyed by dropping its last handle is destroyed after every use through the other handles, whatever thread dropped them.',
 ['schedules'],'All interleavings, up to the preemption bound, of two and three threads that pass unsynchronised memory along through each primitive; every pair of conflicting accesses of every execution is judged by the happens-before order of the C++ memory model (with the memory orders as written), not by the order the schedule gave them.',
 'On x86 a missing acquire or release changes nothing that a test could see, and no test runs under a race detector.',
 [I+'spinlock.h',I+'state.h',I+'state.inl',I+'event_v2.inl','source/event_v2.cpp','source/mutex_v2.cpp',I+'channel_v2.inl',I+'when_v2.h','source/when_v2.cpp','source/timer.cpp','source/scheduler.cpp',I+'stop_token.h'],['spinlock','counted_ptr','state_base_t','stop_state','timer_manager'])
p('C29','asio operations started with rf_task complete their future exactly once',
 'An asio operation started with asio::rf_task returns a future that the operation\'s completion handler completes, once: co_await on it yields what the handler was given (nothing, the value, or several values as a tuple, in order), or throws when the handler was given an error (any non-zero error code as an asio::system_error with that code, an exception_ptr as the exception itself). This holds whether the handler runs within the initiating call, before the await, during it on another thread or after it, however the handler is moved or copied on the way, for every completion signature, and when nobody awaits.',
 ['schedules','inputs'],'Every completion signature x success, error codes of several categories, exceptions x completion point x handler copies; all interleavings of the completing thread with the awaiting coroutine.',
 'The adapter is only compiled by a benchmark that no test runs.',
 ['asio/asio_task_1.12.2.inl','asio/asio_task_1.12.0.inl',I+'state.h',I+'state.inl'],['asio::rf_task_t','promise_handler','async_result'])
p('C30','The build options and the compiler change nothing that a user can observe',
 'The library builds, links and behaves as the other properties say in every configuration its build offers: without multithreading (LIBRF_DISABLE_MULT_THREAD, one thread only), as a release build (NDEBUG, optimised), as a debug build with the library\'s own diagnostics (_DEBUG), with the object counters and the counting queues (LIBRF_DEBUG_COUNTER, LIBRF_KEEP_REAL_SIZE), with another lock in place of the spinlock (RESUMEF_USE_CUSTOM_SPINLOCK), and with gcc\'s or a newer clang\'s C++20 coroutines. A diagnostic never stops a correct program, and nothing needed is done only inside an assertion.',
 ['programs','schedules','configurations'],'Every configuration x the operation sequences and small multithreaded programs of the channel, event, mutex, future, scheduler, order, timer, stop and memory properties, each with all their interleavings up to the bound.',
 'The tests are built in one configuration with one compiler.',
 [I+'spinlock.h',I+'ring_queue.h',I+'intrusive_link_queue.h',I+'config.h','source/scheduler.cpp','source/timer.cpp','source/event_v2.cpp','source/mutex_v2.cpp','CMakeLists.txt'],['RESUMEF_DISABLE_MULT_THREAD','RESUMEF_DEBUG_COUNTER','RESUMEF_USE_CUSTOM_SPINLOCK','_DEBUG'])
p('C31','Coroutines await user-defined awaitors; launched futures may co_yield',
 'In a coroutine of the library co_await accepts any awaitor: a type with the three await functions, or with a member or free operator co_await, as a temporary or a variable, whatever its await_suspend returns (nothing, a bool, a handle). The coroutine suspends exactly when the awaitor asks for it, goes on exactly once, when the handle is resumed (by plain code, a timer callback, another coroutine or another thread), with what await_resume returns or throws, and still belongs to its scheduler, root and task; its scheduler is not empty meanwhile, and those who await it are resumed as usual. Such awaitors, and callables that return them, may be members of when_all and when_any. A launched future coroutine that uses co_yield is continued by its scheduler, one step per batch, until it ends.',
 ['programs','schedules'],'Every awaitor form x what each of its functions does (ready, suspend, not after all, throw) x result type x depth of awaiting coroutines x who resumes and when; all interleavings of a resuming thread with the scheduler thread.',
 'Every test awaits the library\'s own types only.',
 [I+'promise.h',I+'promise.inl',I+'type_traits.inl',I+'type_concept.inl',I+'when_v2.h',I+'state.inl','source/state.cpp'],['await_transform','get_awaitor','when_all_connector_1','promise_yield_value','state_future_t::resume'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
