import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
I='qcoro/impl/'
p('C01','Task coroutine frame is freed exactly once, and only when nothing needs it',
 'A coroutine started through Task or LazyTask stays alive until it has run to completion and no task object refers to it any more, and is then destroyed exactly once. This holds for every order of completing, moving, move-assigning (including self-assignment) and dropping task objects. Dropping or overwriting a task whose coroutine is still running never stops or destroys that coroutine.',
 ['histories','schedules'],'every interleaving of coroutine completion with moves, assignments and destruction of task objects',
 'Tests drop tasks in a handful of fixed orders and run without leak or use-after-free checking; the guarantee is over all orders.',
 ['qcoro/impl/taskbase.h','qcoro/impl/taskpromisebase.h','qcoro/impl/taskfinalsuspend.h','qcoro/qcorotask.h','qcoro/impl/lazytask.h','qcoro/impl/task.h'],
 [('reference count on the promise','TaskPromiseBase::refCoroutine/derefCoroutine'),('taking/dropping of the reference by task objects','TaskBase constructors, move assignment, destructor'),('dropping of the coroutine\'s own reference','TaskFinalSuspend::await_suspend')],
 [('mRefCount','owners of the frame','qcoro/qcorotask.h'),('mCoroutine','handle held by a task object','qcoro/qcorotask.h')])
p('C02','A finished Task resumes every coroutine awaiting it, exactly once',
 'When a task finishes, by returning or by an exception, every coroutine that is awaiting it at that moment is resumed exactly once, no matter how many there are. No awaiting coroutine is resumed before the task finished, and awaiting an already finished task continues without suspending. The finished task\'s result stays available while its awaiting coroutines are being resumed.',
 ['schedules','histories'],'any number of awaiters, registered at any time relative to completion',
 'Tests await with one or two coroutines; lost or doubled wake-ups need particular counts and orders.',
 ['qcoro/impl/taskfinalsuspend.h','qcoro/impl/taskawaiterbase.h','qcoro/impl/taskpromisebase.h'],
 [('list of awaiting coroutines','TaskPromiseBase::addAwaitingCoroutine'),('resumption loop','TaskFinalSuspend::await_suspend'),('ready test','TaskAwaiterBase::await_ready')])
p('C03','Awaiting a task yields exactly what its coroutine returned or threw',
 'The value a coroutine passes to co_return is the value its awaiter receives, and an exception that leaves the coroutine body is rethrown to the awaiter with the same exception object. A failed task never produces a value and a successful task never throws, to whichever of the coroutines that await it and however often it is awaited; a value, however, is handed over to the first one that takes it. This holds for value, reference-like, move-only and void results, for tasks awaited as temporaries or as variables, and for lazy tasks.',
 ['programs','inputs'],'every result type and every way of leaving the coroutine body',
 'Tests instantiate a few types; the claim is over all result types and exits.',
 ['qcoro/impl/taskpromise.h','qcoro/impl/task.h','qcoro/impl/taskbase.h','qcoro/impl/lazytask.h'],
 [('storing of value or exception','TaskPromise::return_value/return_void/unhandled_exception'),('rethrow','TaskPromise::result'),('delivery','TaskAwaiter::await_resume')])
p('C04','Task starts eagerly, LazyTask only when awaited',
 'Calling a coroutine that returns Task runs its body synchronously up to its first suspension before the call returns. Calling one that returns LazyTask runs none of its body; awaiting it starts the body and hands control to it, with the awaiting coroutine registered before the body runs so that it is resumed even when the body completes synchronously. A finished coroutine stays suspended at its end, so its result can be read.',
 ['programs','schedules'],'every coroutine, suspending or completing synchronously',
 'Tests observe the order for a few bodies only.',
 ['qcoro/impl/lazytask.h','qcoro/impl/taskpromisebase.h','qcoro/impl/taskfinalsuspend.h'],
 [('initial suspend policy','TaskPromiseBase::initial_suspend, LazyTaskPromise::initial_suspend'),('start on await','LazyTask::operator co_await awaiter')])
p('C05','Empty task objects are inert',
 'A default-constructed or moved-from task reports itself as ready, and can be destroyed, assigned to and moved any number of times without touching any coroutine. Awaiting an empty Task or LazyTask never crashes, never resumes anything but leaves the awaiting coroutine suspended, after a warning.',
 ['histories','inputs'],'every operation of a task object in its empty state',
 'Existing tests check two operations on a moved-from Task.',
 ['qcoro/impl/taskbase.h','qcoro/impl/taskawaiterbase.h','qcoro/impl/lazytask.h'],
 [('null handle guards','TaskBase, TaskAwaiterBase')])
p('C06','then() runs the continuation once, on success only',
 'A continuation attached with then() is invoked exactly once, after the task finished successfully, with the task\'s value, and the task returned by then() finishes with what the continuation returned (awaiting it if it is itself a task). If the task fails with a std::exception and an error callback was given, only the error callback runs, once, with that exception; without one the exception is delivered through the returned task and the continuation never runs. An exception thrown by the continuation is never passed to the error callback of the same then().',
 ['programs','schedules'],'every combination of void/value task, plain/coroutine continuation with or without argument, with or without error callback, finished before or after then()',
 'Tests cover a subset of the combinations of types, and little of the exception paths.',
 ['qcoro/impl/taskbase.h'],
 [('continuation coroutine','TaskBase::thenImpl/thenImplRef/thenImplCore'),('error dispatch','TaskBase::handleException, invokeCb')])
p('C07','connect() invokes the callback only while the context object lives',
 'The callback given to QCoro::connect() is invoked exactly once when the task or awaitable finishes successfully and the context object is still alive, with the result when it accepts one. If the context object has been destroyed by then, the callback is never invoked and the object is never touched.',
 ['schedules','programs'],'every order of task completion and context destruction, every supported callback form',
 'Tests destroy the context in one scenario for one callback form.',
 ['qcoro/impl/connect.h'],[('guarded pointer captured by the continuation','connect()')])
p('C08','waitFor() returns exactly when the awaitable is done',
 'waitFor() returns the awaited value, or rethrows the exception, once the awaitable finished, and never before. It enters a nested event loop only when the awaitable has not finished synchronously, and that loop is always ended when the awaitable finishes, whether by value or by exception. (Somebody else quitting that nested loop is outside of this guarantee.)',
 ['schedules','programs'],'awaitables finishing synchronously or later, by value or exception, void or not',
 'Whether the loop is left on every path cannot be sampled; existing tests run a few fixed awaitables.',
 ['qcoro/impl/waitfor.h','qcoro/qcorotask.h'],[('completion flag and loop quit','detail::runCoroutine'),('loop entry','detail::waitFor')])
p('C09','Generator produces its values lazily, in order, then ends or rethrows',
 'A generator body runs only when the first value is requested, advances to the next yield exactly once per increment, and dereferencing gives the value yielded last. When the body finishes the iterator equals end(), and an exception thrown by the body is rethrown from the begin() or increment that ran it. An iterator that has reached the end is never advanced again.',
 ['programs','histories'],'every generator body and every sequence of iterator operations',
 'Tests iterate a few fixed bodies.',
 ['qcoro/qcorogenerator.h'],[('iterator increment','GeneratorIterator::operator++'),('begin','Generator::begin'),('promise','GeneratorPromise')])
p('C10','AsyncGenerator hands control between producer and consumer correctly',
 'Awaiting begin() or an increment runs the producer and resumes the consumer that is awaiting, and only it, when the producer yields, finishes or throws. Dereferencing gives the value yielded last; after the body finished the iterator equals end(), and an exception thrown by the body is rethrown from the awaited begin() or increment. Awaiting begin() of an empty generator gives end() at once.',
 ['programs','schedules'],'every producer body, suspending or not, and every consumer sequence',
 'Tests iterate a few fixed bodies.',
 ['qcoro/qcoroasyncgenerator.h'],[('control transfer','IteratorAwaitableBase, AsyncGeneratorYieldOperation'),('iterator protocol','AsyncGeneratorIterator, AsyncGenerator::begin'),('macro','QCORO_FOREACH')])
p('C11','A generator object destroys its coroutine exactly once',
 'Generator and AsyncGenerator own their coroutine: it is destroyed, with everything on its stack, exactly once, when the last object owning it is destroyed or assigned over. Moving or swapping transfers the ownership and leaves the source empty, self-move-assignment changes nothing, and a generator coroutine that has finished stays valid until then.',
 ['histories'],'every sequence of construction, moves, assignments, swaps and destruction, at any stage of iteration',
 'Leaks and double frees on rare orders are invisible to the existing assertions.',
 ['qcoro/qcorogenerator.h','qcoro/qcoroasyncgenerator.h'],[('destructor, move constructor and move assignment','Generator, AsyncGenerator'),('final suspension','GeneratorPromise::final_suspend')])
p('C12','Awaiting a signal resumes the coroutine once, with the emitted arguments',
 'A coroutine awaiting a signal through qCoro(object, signal) is resumed exactly once, by the first emission after it started waiting, and receives exactly the arguments of that emission (without Qt\'s private tag argument). It is resumed through the event loop of the thread on which it awaited, never inside the emission. After it was resumed, or the wait was abandoned, nothing stays connected to the signal on its behalf.',
 ['schedules','inputs'],'every emission pattern, thread of the emitter, and argument list',
 'Repeated emissions around the resumption and cross-thread emissions depend on scheduling the tests do not control.',
 ['qcoro/core/qcorosignal.h','qcoro/impl/isqprivatesignal.h'],[('connection to the signal','QCoroSignal::setupConnection'),('storing of arguments','QCoroSignalBase::storeResult'),('destructor','QCoroSignalBase::~QCoroSignalBase')])
p('C13','A signal wait ends at its timeout, and only then without a value',
 'Awaiting a signal with a non-negative timeout ends with an empty result when the timeout elapses first, even if the emitting object has been destroyed meanwhile, and the coroutine is not resumed a second time by a later emission. If the signal comes first, the timeout has no further effect. A timeout of -1 never ends the wait. (An emission that has happened but was not delivered through the event loop yet when the timer fires may count either way.)',
 ['schedules','inputs'],'every timeout value and every order of emission, timeout and destruction of the emitter',
 'The orderings around the timeout are race windows tests cannot enumerate.',
 ['qcoro/core/qcorosignal.h'],[('timeout timer set-up','QCoroSignalBase constructor'),('timeout handler','QCoroSignalBase::handleTimeout')])
p('C14','The signal listener delivers every emission once, in order',
 'A listener created by qCoroSignalListener() delivers each emission that happens after its creation exactly once and in emission order, including those emitted before it is first awaited or while its consumer is busy elsewhere. An emission never resumes a consumer that is not currently waiting on the listener. The listener ends only on timeout or when the emitter is gone and nothing is left to deliver.',
 ['schedules','histories'],'every interleaving of emissions, awaits and timeouts',
 'Interleavings of emissions with a consumer suspended elsewhere are not tested.',
 ['qcoro/core/qcorosignal.h'],[('queue','QCoroSignalQueue'),('generator','qCoroSignalListener')])
p('C15','Device reads return data as soon as there is some, or nothing on failure',
 'read(), readAll() and readLine() of a device wrapper return without suspending when data are available, otherwise wait until the device becomes readable, and then return exactly what the corresponding synchronous call returns for the requested size. They return an empty array when the wait times out, when the device is not readable, when it gets closed, or when it has been destroyed before the data could be read. Awaiting a device directly behaves like readAll() without timeout.',
 ['schedules','inputs'],'every device state, timeout and arrival order of data and close',
 'Tests use sockets and processes in a few fixed scripts.',
 ['qcoro/core/qcoroiodevice.cpp','qcoro/core/qcoroiodevice.h'],[('read coroutines','QCoroIODevice::read/readAll/readLine'),('direct await','QCoroIODevice::ReadOperation')])
p('C16','Device write() waits until the data are flushed and reports how much was',
 'Awaiting write() hands the whole buffer to the device once and returns after the device confirmed writing all of it, with the number of bytes confirmed, in however many steps they were. It returns at once for an unbuffered device, and returns only the confirmed amount if the device stops being able to write; it never loops without waiting.',
 ['schedules','inputs'],'every buffer size, chunking of the confirmations and device failure point',
 'Tests write small buffers that are flushed in one step.',
 ['qcoro/core/qcoroiodevice.cpp'],[('write loop','QCoroIODevice::write')])
p('C17','Waiting for a device to be readable or to flush ends with the right answer',
 'waitForReadyRead() gives true when data are available already or become available, and false when the device is not readable, is closed or disconnected, or the wait times out. waitForBytesWritten() gives the number of bytes written, 0 when nothing is pending, and an empty result when the device is not writable or the wait times out. For sockets and network replies the wait also ends as soon as the connection is lost (with false, or nothing written) or the reply finishes (with true) or fails (with false), and a wait notifies its waiter from the first of these events.',
 ['schedules','inputs'],'every device type, state at entry and event order',
 'Tests exercise mainly the success order per device.',
 ['qcoro/core/qcoroiodevice.cpp','qcoro/core/qcoroiodevice_p.cpp','qcoro/core/qcoroiodevice_p.h','qcoro/network/qcoroabstractsocket.cpp','qcoro/network/qcorolocalsocket.cpp','qcoro/network/qcoronetworkreply.cpp'],[('state tests','waitForReadyRead/waitForBytesWritten and their Impl overrides'),('event helpers','WaitSignalHelper and derived helpers')])
p('C18','Socket connection waits reflect the connection state',
 'For TCP/UDP and local sockets, waiting for connected gives true at once when connected and true when the connection gets established in time, otherwise false; for local sockets a failed connection attempt ends the wait with false. Waiting for disconnected gives false at once when the socket is unconnected, and in any other state (also while it is still closing) true when it disconnects in time, otherwise false. Connecting through the wrapper starts the connection with exactly the given parameters and then waits like waiting for connected.',
 ['schedules','inputs'],'every socket state, parameter set and event order',
 'Tests cover the success order and one timeout.',
 ['qcoro/network/qcoroabstractsocket.cpp','qcoro/network/qcorolocalsocket.cpp'],[('state test and signal wait','waitForConnected/waitForDisconnected'),('connection start','connectToHost/connectToServer')])
p('C19','Process waits reflect the process state',
 'Waiting for a process to start gives true at once when it is running, waits for its start while it is starting, and gives false at once when it is not running or the wait times out. Waiting for it to finish gives false at once when it is not running, otherwise true when it finishes in time and false on timeout. start() launches the process with exactly the given parameters and then waits for it to start.',
 ['schedules','inputs'],'every process state and event order',
 'Tests run one program in a few scripts.',
 ['qcoro/core/qcoroprocess.cpp'],[('state test and signal wait','QCoroProcess::waitForStarted/waitForFinished'),('start','QCoroProcess::start')])
p('C20','Thread waits reflect the thread state',
 'Waiting for a thread to start gives true at once when it is running, false at once when it has finished, and otherwise true when it starts in time and false on timeout. Waiting for it to finish gives true at once when it has finished, false at once when it was never started, and otherwise true when it finishes in time and false on timeout.',
 ['schedules'],'every thread state and event order',
 'Tests check each state once.',
 ['qcoro/core/qcorothread.cpp'],[('state test and signal wait','QCoroThread::waitForStarted/waitForFinished')])
p('C21','moveToThread() continues the coroutine on the target thread, once',
 'A coroutine awaiting moveToThread() is always suspended and then resumed exactly once, by the event loop of the target thread and never synchronously on the old one. If the target thread has not been started yet, the coroutine is resumed after it starts.',
 ['schedules'],'every state of the target thread at the time of the await',
 'Thread interleavings are not enumerable by tests.',
 ['qcoro/core/qcorothread.cpp'],[('context object moved to the thread, event posted to it','ThreadContext::await_suspend, ContextHelper::event')])
p('C22','Server waits hand out pending connections and end with null otherwise',
 'Awaiting a new connection on a TCP or WebSocket server gives null at once when the server is not listening, the next pending connection at once when there is one, otherwise the next pending connection when one arrives in time, and null on timeout. On a WebSocket server, closing the server also ends the wait with null. Once the wait ended, later connections are left pending on the server and are not consumed on behalf of the ended wait.',
 ['schedules'],'every server state and order of connection, close and timeout',
 'Tests use single connections; what happens after the wait ended is not observed.',
 ['qcoro/network/qcorotcpserver.cpp','qcoro/websockets/qcorowebsocketserver.cpp'],[('waits','QCoroTcpServer::waitForNewConnection, QCoroWebSocketServer::nextPendingConnection')])
p('C23','WebSocket open() and ping() report the outcome of their own operation',
 'open() gives true at once when connected, otherwise opens exactly the given URL or request and gives true when the socket gets connected and false when it fails or times out. ping() gives an empty result at once when the socket is not connected, otherwise sends the given payload and gives the round-trip time reported with the pong, or an empty result on disconnection or timeout. Both start listening before starting the operation, so an immediate answer is not lost.',
 ['schedules','inputs'],'every socket state and event order, including immediate answers',
 'Tests only see asynchronous answers from one local server.',
 ['qcoro/websockets/qcorowebsocket.cpp'],[('watchers','WebSocketStateWatcher, WebSocketSignalWatcher'),('operations','QCoroWebSocket::open/ping')])
p('C24','WebSocket generators yield every received frame or message in order',
 'The generators returned for binary and text frames and messages yield each matching frame or message received since the generator was created, in order and with its arguments, including those received before the generator is first awaited. They end when the socket leaves the connected state or the timeout elapses between two items, and never yield an item of another kind.',
 ['schedules','histories'],'every arrival pattern relative to creation and consumption of the generator',
 'Tests await the generator before anything arrives.',
 ['qcoro/websockets/qcorowebsocket.cpp'],[('eager watcher, buffered listener','watcherGenerator'),('signal selection','binaryFrames/binaryMessages/textFrames/textMessages')])
p('C25','Awaiting a network reply ends when it is finished and gives that reply',
 'Awaiting a pointer to a network reply, directly or through waitForFinished(), does not suspend when it is already finished or gone, otherwise resumes exactly once when it finishes, successfully or not. The direct await gives back the reply itself, and waitForFinished() gives true when finished in time and false on timeout. The coroutine is resumed through the event loop, not inside the finished notification.',
 ['schedules'],'every reply state at the time of the await and every outcome',
 'Tests use a local HTTP server with fixed timing.',
 ['qcoro/network/qcoronetworkreply.cpp','qcoro/network/qcoronetworkreply.h'],[('direct await','QCoroNetworkReply::WaitForFinishedOperation'),('wait','QCoroNetworkReply::waitForFinished')])
p('C26','Timer awaits and sleeps end at the timeout, once',
 'Awaiting a timer does not suspend when it is not active, otherwise resumes the coroutine exactly once at its next timeout, also for a repeating timer. sleepFor() suspends once for the given duration, and sleepUntil() until the given time point measured on that time point\'s own clock; durations that are zero or negative end immediately rather than never.',
 ['inputs','schedules'],'every timer state, duration unit, clock and time point',
 'Tests use single-shot millisecond timers and one clock.',
 ['qcoro/core/qcorotimer.cpp','qcoro/core/qcorotimer.h'],[('timer await','QCoroTimer::WaitForTimeoutOperation'),('sleep','sleepFor, sleepUntil')])
p('C27','Awaiting a QFuture ends when it does and gives its result',
 'Awaiting a QFuture does not suspend when it is finished or cancelled, otherwise resumes exactly once when it finishes, and never misses a future that finishes while the wait is being set up. The result is the future\'s result, takeResult() moves it out, and an exception stored in the future is rethrown. Nothing created for the wait is leaked.',
 ['schedules','programs'],'every state of the future and timing of its completion',
 'The window between checking and watching the future is not testable.',
 ['qcoro/core/qcorofuture.h'],[('watcher','QCoroFuture::WaitForFinishedOperationBase'),('results','await_resume of the operations')])
p('C28','Awaiting a D-Bus call ends when it does and gives its reply',
 'Awaiting a pending D-Bus call or reply does not suspend when it is already finished, otherwise resumes exactly once when it finishes, and gives the reply of that call. The wait holds everything it needs by itself, so it stays valid when the awaited call object was a temporary, and nothing created for it is leaked.',
 ['schedules','programs'],'every state of the call and lifetime of the call object',
 'Tests keep the call object alive and cannot observe leaks.',
 ['qcoro/dbus/qcorodbuspendingcall.cpp','qcoro/dbus/qcorodbuspendingcall.h','qcoro/dbus/qcorodbuspendingreply.h'],[('watcher','WaitForFinishedOperation'),('waits','waitForFinished')])
p('C29','A QML task delivers its result to QML exactly once',
 'The function given to then() of a QML task is called once with the task\'s result when the task finishes, and the object returned by await() gets its value set and its change notified, whatever the value is, starting with the intermediate value if one was given. (With several consumers of one task, the value is that of the first one.) Deleting that object, giving something that is not callable, or using an empty QML task never crashes and delivers nothing. Copies of a QML task share the same underlying task, and tasks of any value type or without a value convert to it.',
 ['histories','programs'],'every order of task completion and object deletion, every task type',
 'Tests run a few QML snippets.',
 ['qcoro/qml/qcoroqmltask.cpp','qcoro/qml/qcoroqmltask.h'],[('delivery','QmlTask::then/await'),('conversion','QmlTask constructors')])
p('C30','The image provider delivers the produced image before signalling completion',
 'For every image request, the coroutine is invoked once with exactly the requested id and size, and the response gets the produced image before it signals that it is finished, exactly once, whether the coroutine completes synchronously or later. The texture is created from that image.',
 ['schedules','inputs'],'synchronous and asynchronous providers, every request',
 'One test covers one asynchronous provider.',
 ['qcoro/quick/qcoroimageprovider.cpp'],[('response','ImageProvider::requestImageResponse, QCoroImageResponse')])
p('C31','Every timeout parameter is honoured unchanged',
 'Every wrapper function taking a timeout passes exactly that timeout, once, to the wait it performs, in milliseconds, and the overloads taking an integer and a chrono duration behave identically. A default timeout, where a function has one, is the documented one: 30 seconds for the functions mirroring a Qt waitFor function and for the connect and start helpers, and no timeout for reads, signals, listeners, threads, replies and WebSockets.',
 ['inputs','programs'],'every timeout value on every public waiting function',
 'Tests use one timeout value per function and never wait for a default.',
 ['qcoro/core/qcoroiodevice.cpp','qcoro/core/qcoroiodevice.h','qcoro/core/qcoroprocess.cpp','qcoro/core/qcoroprocess.h','qcoro/core/qcorothread.cpp','qcoro/network/qcoroabstractsocket.cpp','qcoro/network/qcorolocalsocket.cpp','qcoro/network/qcorotcpserver.cpp','qcoro/network/qcoronetworkreply.cpp','qcoro/websockets/qcorowebsocket.cpp','qcoro/websockets/qcorowebsocketserver.cpp'],[('forwarding','every function with a timeout parameter'),('defaults','declarations')])
p('C32','Nothing owned by the awaiting coroutine is touched after resuming it',
 'When the library resumes a coroutine from a Qt callback, it does not afterwards use anything that lives in that coroutine or in the awaiter object, because the resumed coroutine may already have destroyed it. Everything needed for the resumption, such as the result, the disconnection and the stopping of timers, is done before.',
 ['schedules','programs'],'every resumption point, with awaiting coroutines that finish and free themselves inside the resumption',
 'A use after free there usually goes unnoticed without instrumentation.',
 ['qcoro/core/qcorosignal.h','qcoro/core/qcorotimer.cpp','qcoro/core/qcorothread.cpp','qcoro/core/qcorofuture.h','qcoro/core/qcoroiodevice.cpp','qcoro/network/qcoronetworkreply.cpp','qcoro/dbus/qcorodbuspendingcall.cpp','qcoro/dbus/qcorodbuspendingreply.h','qcoro/waitoperationbase_p.h','qcoro/impl/taskfinalsuspend.h'],[('resumption callbacks','lambdas and slots calling resume()')])
p('C33','Library coroutines stay valid when the objects they were called with are gone',
 'A coroutine provided by the library that is called on a temporary wrapper, or with temporary arguments, and whose task is kept and awaited later, does not use the wrapper or those arguments after its first suspension. In particular continuations, error callbacks and buffers given to it are owned by the coroutine for as long as it needs them.',
 ['programs','histories'],'every library coroutine and every lifetime of wrapper and arguments',
 'Tests await wrappers in the same expression, where temporaries live long enough.',
 ['qcoro/core/qcoroiodevice.cpp','qcoro/core/qcoroprocess.cpp','qcoro/core/qcorothread.cpp','qcoro/core/qcorotimer.cpp','qcoro/core/qcorofuture.h','qcoro/core/qcorosignal.h','qcoro/dbus/qcorodbuspendingcall.cpp','qcoro/dbus/qcorodbuspendingreply.h','qcoro/impl/taskbase.h','qcoro/impl/waitfor.h','qcoro/network/qcoroabstractsocket.cpp','qcoro/network/qcorolocalsocket.cpp','qcoro/network/qcoronetworkreply.cpp','qcoro/network/qcorotcpserver.cpp','qcoro/websockets/qcorowebsocket.cpp','qcoro/websockets/qcorowebsocketserver.cpp'],[('by-value parameters and local copies taken before the first suspension','all coroutine functions')])
p('C34','Event connections of helpers never outlive the object they call into',
 'Every connection the library makes from a Qt object\'s signal to code that uses one of its own helper or awaiter objects is removed at the latest when that helper or awaiter is destroyed or its wait has ended. A signal emitted later therefore never reaches freed memory.',
 ['schedules','histories'],'every signal emitted at any time after a wait ended',
 'Late emissions on long-lived objects are not exercised by the tests.',
 ['qcoro/core/qcorosignal.h','qcoro/core/qcoroiodevice_p.cpp','qcoro/core/qcoroiodevice.cpp','qcoro/core/qcorotimer.cpp','qcoro/network/qcoroabstractsocket.cpp','qcoro/network/qcorolocalsocket.cpp','qcoro/network/qcoronetworkreply.cpp','qcoro/websockets/qcorowebsocket.cpp','qcoro/websockets/qcorowebsocketserver.cpp','qcoro/waitoperationbase_p.h'],[('context objects, disconnection before resumption','all QObject::connect call sites')])
p('C35','Misuse of the coroutine types is rejected at compile time',
 'Task, LazyTask, Generator and AsyncGenerator cannot be copied, a synchronous generator cannot use co_await, and only awaitable types can be awaited in a task or given to waitFor() and connect(). The type of a co_await expression on each supported Qt type and wrapper function is the documented result type, and then() returns a task of the continuation\'s (unwrapped) result type.',
 ['programs'],'every user program',
 'Tests are programs that compile; they cannot show which programs do not.',
 ['qcoro/qcorotask.h','qcoro/qcorolazytask.h','qcoro/qcorogenerator.h','qcoro/qcoroasyncgenerator.h','qcoro/impl/waitfor.h','qcoro/impl/connect.h','qcoro/concepts_p.h'],[('deleted members, constraints, type traits','class and function declarations')])
p('C36','Test macros end a failing test coroutine at the failing check',
 'Each QCORO_ verification macro reports a failure to the test framework with the expression and location of the check and ends the test coroutine there, and has no effect on control flow when the check passes. The skip and expected-failure macros behave like their Qt counterparts.',
 ['programs'],'every macro and outcome of the checked expression',
 'The macros are used by the tests only with passing checks.',
 ['qcoro/test/qcorotest.h'],[('macros','qcorotest.h')])
p('C37','Timeouts and sleeps are accurate',
 'A wait with a timeout and a sleep end no earlier than the requested time and within the precision of the Qt timer after it.',
 ['inputs','schedules'],'every duration and system load','Tests sample a few durations on an idle system.',
 ['qcoro/core/qcorotimer.h','qcoro/core/qcorosignal.h'],[('QTimer','sleepFor, QCoroSignalBase')])
p('C38','Data read through the wrappers equal the data sent',
 'The bytes a peer writes to a socket, pipe or HTTP response arrive through the wrappers complete, unmodified and in order.',
 ['inputs','fault_sequences'],'every payload and network behaviour','Tests send short fixed payloads.',
 ['qcoro/core/qcoroiodevice.cpp'],[('reads','QCoroIODevice::read/readAll/readLine')])
p('C39','Tasks may be completed and dropped on different threads',
 'When a coroutine moved to another thread finishes there while its task object is being dropped, moved or awaited on the original thread, the frame is freed once and no wake-up is lost.',
 ['schedules'],'every interleaving of the two threads','Thread interleavings are not enumerable by tests.',
 ['qcoro/impl/taskpromisebase.h','qcoro/impl/taskfinalsuspend.h'],[('atomic reference count','TaskPromiseBase')])
p('C40','An asynchronous generator can be dropped while it awaits something',
 'Destroying an AsyncGenerator destroys its coroutine also while that is suspended on a task, on a wait of the library or on a thread switch. What it was awaiting, when it completes later, neither resumes nor touches the destroyed coroutine, and every other coroutine that awaits the same task is still resumed exactly once. A lazy task being awaited goes on running as if its awaiter were still there.',
 ['schedules','histories'],'every awaited operation, every moment of the destruction relative to its completion, any other awaiters',
 'The tests always consume their asynchronous generators to a point where nothing is pending.',
 ['qcoro/impl/taskawaiterbase.h','qcoro/impl/taskfinalsuspend.h','qcoro/impl/lazytask.h','qcoro/qcoroasyncgenerator.h','qcoro/core/qcorothread.cpp','qcoro/impl/taskpromisebase.h'],
 [('removal of the awaiter when it is destroyed','TaskAwaiterBase::~TaskAwaiterBase'),('resumption loop','TaskFinalSuspend::await_suspend'),('thread switch','detail::ThreadContext')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P), max(len(d['title']) for d in P))
