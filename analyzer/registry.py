"""Which module decides which property, and how the check describes itself."""
MODULES = {'C01': 'r_task', 'C02': 'r_task', 'C03': 'r_task', 'C04': 'r_task', 'C05': 'r_task', 'C06': 'r_then', 'C07': 'r_then', 'C08': 'r_then', 'C09': 'r_gen', 'C10': 'r_gen', 'C11': 'r_gen', 'C12': 'r_signal', 'C13': 'r_signal', 'C14': 'r_signal', 'C15': 'r_io', 'C16': 'r_io', 'C17': 'r_io', 'C18': 'r_wait', 'C19': 'r_wait', 'C20': 'r_wait', 'C21': 'r_wait', 'C22': 'r_wait', 'C23': 'r_ws', 'C24': 'r_ws', 'C25': 'r_wait', 'C26': 'r_misc', 'C27': 'r_misc', 'C28': 'r_misc', 'C29': 'r_qml', 'C30': 'r_qml', 'C31': 'r_timeout', 'C32': 'r_touch', 'C33': 'r_kept', 'C34': 'r_conn', 'C35': 'r_types', 'C36': 'r_test', 'C40': 'r_drop'}

FRONT = 'clang 18 front end (parsing, overload resolution, template instantiation of the current sources)'
INTERP = 'the abstract interpreter in /verif/analyzer (coroutine lowering, object lifetime, exceptions) and its models of the standard library'
QT = 'the model of documented Qt behaviour in /verif/analyzer/world.py and models.py (connections, posted events, timers, nested loops, object destruction)'
META = {'_trusted': [FRONT, INTERP, QT]}

AI = 'path-sensitive abstract interpretation of the type-checked source (clang AST), '
BOUND = 'Every combination is followed up to the stated number of events; longer histories are not claimed. '


def m(pid, technique, method, note, assumptions=()):
    META[pid] = dict(level='other', technique=technique, method=method, note=note, assumptions=list(assumptions))


m('C01', AI + 'ownership typestate of the coroutine frame',
  'Every sequence of construct, move-construct, move-assign (also to itself), drop and completion of task objects is applied to the bodies of the promise, task and final-suspend classes as they are in the source; a frame must be destroyed once, not before its last owner and its body are gone, and never be touched afterwards.',
  'Sequences of up to 4 operations (thorough: 5) on two task objects and the running coroutine, for Task and LazyTask; per-operation summaries make longer ones repeat the same abstract states. One thread (see C39).')
m('C02', AI + 'obligation tracking per awaiting coroutine',
  'await_ready/await_suspend/await_resume of the task awaiters and the final-suspend awaiter are interpreted with any number of registered awaiters, registered before, during and after completion, completing by value and by exception.',
  'Up to 3 awaiters (thorough: 5); re-entrant registration while the list is being walked included.')
m('C03', AI + 'value-flow tracking',
  'Tagged values and exceptions are followed from co_return/throw in each result kind (value, reference-like, move-only, void) through promise and awaiter to the awaiting expression, for temporaries, variables and lazy tasks.',
  'Result kinds are those of the harness (int, void, move-only, string); other types differ by template instantiation only.')
m('C04', AI + 'ordering of suspension, registration and body start',
  'initial_suspend, await_suspend and final_suspend of every promise type are interpreted; the rules compare whether the body runs before the call returns, and whether an awaiter is registered before a lazy body runs.',
  'All promise instantiations of the harness.')
m('C05', AI + 'null-typestate of task objects',
  'Every public operation is applied to default-constructed, moved-from and cleared task objects; none may dereference the empty handle, and the documented answers must result.',
  'All operations, sequences of up to 3 (thorough: 4).')
m('C06', AI + 'exactly-once callback typestate over event schedules',
  'then() with every kind of continuation, on temporaries and variables, on finished and running, Task and LazyTask sources, with and without error callback, succeeding and failing in either part.',
  'All 104 combinations; completion at each suspension point.')
m('C07', AI + 'liveness typestate of the context object',
  'connect() for values, void and futures: the context object is destroyed or kept at each point, the callback must be called once if the task succeeds while it lives and never otherwise.',
  'All orders of destruction and completion; functors and member functions.')
m('C08', AI + 'nested event loop typestate',
  'waitFor() on tasks, lazy tasks and awaitables, finishing before, while and after the nested loop starts, by value and by exception, nested two deep.',
  'Up to 2 rounds of unrelated events (thorough: 3). A nested loop ended by somebody else is outside the property.')
m('C09', AI + 'typestate of the synchronous generator',
  'The generator is advanced, dereferenced and compared in every order the iterator allows while its body yields, ends or throws; values must be produced on demand, once, in order.',
  'Up to 3 values (thorough: 4).')
m('C10', AI + 'hand-over typestate of producer and consumer',
  'The awaiters of AsyncGenerator are interpreted with a producer that yields, awaits, ends or throws synchronously or later; the consumer must be resumed once per advance and never while the producer runs.',
  'Up to 2 values (thorough: 3), each with every mix of synchronous and deferred production, and generators nested in generators.')
m('C11', AI + 'ownership typestate of the generator coroutine',
  'Every sequence of moves, move-assignments (also to itself), drops and advances of two generator objects; the coroutine must be destroyed once, and not be touched afterwards.',
  'Sequences of up to 3 operations (thorough: 4).')
m('C12', AI + 'event-schedule exploration over the connection state machine',
  'qCoro(object, signal) is interpreted for signals with zero, one, several and private arguments, with and without timeout: each order of emission, destruction, timeout and delivery of posted events.',
  BOUND + '5 events (thorough: 6), two emitters in some scenarios.')
m('C13', AI + 'timer typestate against the wait',
  'As C12 with timeouts of zero, positive and negative length: an empty result only after the timer fired, none kept running, no emission that came first lost.',
  BOUND + '5 events (thorough: 6).')
m('C14', AI + 'queue equality between emissions and yields',
  'qCoroSignalListener is interpreted with emissions before, between and while its consumer waits, timeouts, bursts of emissions without a consumer and destruction of the emitter; what the consumer gets must be what was emitted, in order.',
  BOUND + '6 events (thorough: 8); separate burst scenarios of many emissions.')
m('C15', AI + 'comparison of the reads with an automaton of the device run next to them',
  'read/readAll/readLine of plain devices, sockets, local sockets, processes and replies, in each state, with data, state changes, errors, timeout and destruction arriving in every order.',
  BOUND + '3 to 5 events per scenario (thorough: 2 more). What the device hands out is the Qt model (see C38).')
m('C16', AI + 'accounting of flushed bytes along every path',
  'write() with complete, partial and failing hand-over; bytesWritten and closing in every order.',
  BOUND + '5 events (thorough: 6). A second bytesWritten before the coroutine was resumed is not required to be counted.')
m('C17', AI + 'comparison of the waits with an automaton of the device run next to them',
  'waitForReadyRead and waitForBytesWritten of every device class, all events in every order.',
  BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C18', AI + 'comparison of the waits with an automaton of the socket run next to them',
  'waitForConnected/Disconnected, connectToHost and connectToServer from every socket state; state changes, errors, timeout and destruction in every order.',
  BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C19', AI + 'comparison of the waits with an automaton of the process run next to them',
  'waitForStarted/Finished and start() from every process state; started, finished, failures, timeout and destruction in every order.', BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C20', AI + 'comparison of the waits with an automaton of the thread run next to them',
  'waitForStarted/Finished from every thread state; started, finished, timeout and destruction in every order.', BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C21', AI + 'thread-affinity typestate of the continuation',
  'moveToThread() is interpreted with the target running, not running, finishing or destroyed before the hand-over; the coroutine continues once, on the target.',
  BOUND + '4 events (thorough: 5). Threads are not interleaved below the level of events.')
m('C22', AI + 'comparison of the waits with an automaton of the server run next to them',
  'waitForNewConnection/nextPendingConnection with pending connections, closing, errors, timeout and destruction in every order.', BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C23', AI + 'matching of answers to their own request along every path',
  'open() and ping() from every state, with foreign pongs, errors, disconnection, timeout and destruction in every order.', BOUND + '4 to 5 events per scenario (thorough: 2 more).')
m('C24', AI + 'queue equality between received and yielded items',
  'The four frame and message generators with arrivals before, between and while the consumer waits, closing, timeouts, destruction and dropping of the generator.', BOUND + '5 events (thorough: 7).')
m('C25', AI + 'comparison of the waits with an automaton of the reply run next to them',
  'Awaiting pointers to replies and their waitForFinished(); finished, error, timeout and destruction in every order.', BOUND + '3 to 5 events per scenario (thorough: 2 more).')
m('C26', AI + 'comparison with a virtual clock and timer automaton',
  'co_await QTimer, waitForTimeout, sleepFor and sleepUntil on the standard clocks and durations: when the wait ends on the clocks of the model, once.',
  BOUND + '5 events (thorough: 7); clock readings and durations are samples around every branch (zero, negative, sub-millisecond, large).')
m('C27', AI + 'comparison with an automaton of the future run next to it',
  'result/waitForFinished/takeResult and direct co_await of finished, running, cancelled and failing futures; nothing may be left connected.', BOUND + '5 events (thorough: 7).')
m('C28', AI + 'comparison with an automaton of the pending call run next to it',
  'Direct co_await and waitForFinished() of D-Bus calls and replies, finished before, while and after the wait starts, with errors.', BOUND + '4 events (thorough: 6).')
m('C29', AI + 'exactly-once delivery typestate',
  'QmlTask::then, await and property holders for values, void, strings, variants and futures, finished before or later, with the engine or target object destroyed in between.', BOUND + '4 events (thorough: 5). The first consumer of a task; a second one gets a moved-from value.')
m('C30', AI + 'ordering of image and finished signal',
  'requestImageResponse() with producers finishing at once or later and responses destroyed early.', BOUND + '4 events (thorough: 6).')
m('C31', AI + 'value-flow of timeout parameters',
  'Every function with a timeout is called with negative, zero, positive and very large values in int and chrono form, and with its defaults; the timer armed must carry that value and no other limit may end the wait.',
  'All functions with a timeout parameter, the listed values.')
m('C32', AI + 'lifetime analysis of locals and temporaries of awaiting coroutines',
  'All wait scenarios again, awaited by a coroutine that owns the awaiter and frees itself when resumed: nothing of it may be read or written afterwards.', BOUND + 'Two events less than in the scenarios it repeats (thorough: the same).')
m('C33', AI + 'lifetime analysis of parameters and wrapper objects',
  'Every coroutine of the library is called on a temporary wrapper with temporary arguments and its task awaited later: no use of a wrapper or argument that is gone.',
  BOUND + 'Up to 3 events less than in the scenarios it repeats (thorough: 1). Known finding: QCoroIODevice::write().')
m('C34', AI + 'connection typestate: every connection is disconnected, bound to a living context, or harmless when called',
  'All wait scenarios again, ended in every way; afterwards every signal that is still connected is emitted, and the call must not reach anything dead.', BOUND + 'One event less than in the scenarios it repeats (thorough: the same).')
m('C35', 'compile-time type witnesses and compile-fail witnesses against the current headers',
  'The compiler decides: each expectation of analyzer/witness/types.cpp must type-check, each misuse program of analyzer/rules/r_types.py must be rejected while its correct twin is accepted.',
  'The witness programs cover each supported Qt type, wrapper function and coroutine type; they are a finite list.')
m('C36', AI + 'control flow of the expanded macros; compile witnesses',
  'Coroutines using each macro are interpreted with every answer of QtTest and every outcome of the checked expression: a failed check is reported with text and location, and nothing of the coroutine runs after it; a passed one changes nothing. Every macro must compile in use.',
  'What QtTest does with a report is not looked into. Known finding: the QCORO_TRY_* macros do not compile.')
m('C40', AI + 'ownership typestate of suspended producers',
  'An AsyncGenerator is dropped while its coroutine is suspended on each kind of awaitable the library offers; afterwards everything awaited happens: the dead coroutine may not be touched or resumed.',
  BOUND + '4 events (thorough: 6). A generator whose consumer is itself being destroyed mid-advance is outside.')
NOT_APPLICABLE = {
    'C37': 'the accuracy of timers is a property of the operating system and of Qt at run time; the source only passes the duration on, which C26 and C31 decide',
    'C38': 'what arrives is decided by Qt and the network at run time; the source only hands on what QIODevice returns, which C15 and C24 decide',
    'C39': 'no sound static argument in reach bounds the interleavings of two threads on the frame, the list of awaiters and Qt objects; the list of awaiters is documented as not protected',
}
NOTES = 'Every check parses the current tree of /repo with clang 18; no code of /repo is run. Known findings: known-findings.json.'
import json as _j, os as _o
for _l in open(_o.path.join(_o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))), 'properties.jsonl')):
    _p = _j.loads(_l)['id']
    if _p not in MODULES and _p not in NOT_APPLICABLE:
        NOT_APPLICABLE[_p] = 'no check built yet'
