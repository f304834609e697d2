"""What each property's check runs"""

DESCR = {
    'rule': 'A case is one simulated run: one seed decides the workload, the faults and the schedule.'
            ' Distinct: by the hash of the complete event log. Non-trivial: a fault, a re-entrant action or a'
            ' preemption took effect, or the scenario reached the states its rule names.',
    'assumptions': [
        'GLib 2.80, libc and the compiler are trusted',
        'runs are sampled, not enumerated',
        'the library is compiled by clang -O0 with AddressSanitizer: interleavings are sequentially consistent',
    ],
}

PROPS = {
    'C01': { 'scenarios': ['idlequeue'], 'quick': 40000, 'thorough': 1500000 },
    'C02': { 'scenarios': ['idlequeue'], 'quick': 40000, 'thorough': 1500000 },
    'C03': { 'scenarios': ['idlequeue'], 'quick': 40000, 'thorough': 1500000 },
    'C04': { 'scenarios': ['idlepool', 'idlepool', 'idlepool_threads'], 'quick': 40000, 'thorough': 1500000 },
    'C05': { 'scenarios': ['idlepool', 'idlepool_threads'], 'quick': 40000, 'thorough': 1500000 },
    'C06': { 'scenarios': ['inotify'] * 9 + ['inotify_alias'], 'quick': 40000, 'thorough': 1500000 },
    'C07': { 'scenarios': ['inotify'], 'quick': 40000, 'thorough': 1500000 },
    'C08': { 'scenarios': ['timenotify'], 'quick': 40000, 'thorough': 2000000 },
    'C09': { 'scenarios': ['history'], 'quick': 40000, 'thorough': 1500000 },
    'C10': { 'scenarios': ['history'], 'quick': 40000, 'thorough': 1500000 },
    'C11': { 'scenarios': ['ring'], 'quick': 40000, 'thorough': 2000000 },
    'C12': { 'scenarios': ['ring'], 'quick': 40000, 'thorough': 2000000 },
    'C13': { 'scenarios': ['refcounts'], 'quick': 40000, 'thorough': 2000000 },
    'C14': { 'scenarios': ['weakref'], 'quick': 40000, 'thorough': 2000000 },
    'C15': { 'scenarios': ['ints'], 'quick': 40000, 'thorough': 2000000 },
    'C16': { 'scenarios': ['log'], 'quick': 40000, 'thorough': 2000000 },
    'C17': { 'scenarios': ['log', 'log', 'log_threads'], 'quick': 40000, 'thorough': 2000000 },
    'C18': { 'scenarios': ['datapack'], 'quick': 40000, 'thorough': 2000000 },
    'C19': { 'scenarios': ['datapack_damage', 'datapack_damage', 'datapack_damage', 'datapack'], 'quick': 40000, 'thorough': 2000000 },
    'C20': { 'scenarios': ['helpers'], 'quick': 40000, 'thorough': 2000000 },
    'C21': { 'scenarios': ['objv'], 'quick': 40000, 'thorough': 2000000 },
    'C28': { 'scenarios': ['log'], 'quick': 40000, 'thorough': 2000000 },
    'C29': { 'scenarios': ['stateless'], 'quick': 40000, 'thorough': 2000000 },
    'C30': { 'scenarios': ['idlequeue', 'idlepool', 'idlepool_threads', 'inotify', 'timenotify'], 'quick': 40000, 'thorough': 2000000 },
    'C22': { 'scenarios': ['idlequeue', 'idlepool', 'inotify', 'timenotify', 'ring', 'history', 'refcounts',
        'weakref', 'ints', 'idlepool_threads', 'log', 'log_threads', 'helpers', 'objv', 'vectors', 'stateless'], 'quick': 40000, 'thorough': 1500000 },
}

# Rare conditions which every check must have met (the evidence lists those it hasn't)
_IDLEQUEUE = ['burst', 'idlequeue.add_from_callback', 'idlequeue.nested_main_loop', 'idlequeue.add_from_other_source',
    'idlequeue.cancel_from_callback', 'idlequeue.cancel_all_from_callback', 'idlequeue.cancel_tag_while_cancelling_all',
    'idlequeue.add_while_freeing', 'idlequeue.last_unref_in_callback_with_pending', 'last_unref_inside_callback']
_IDLEPOOL = ['burst', 'idlepool.busy_loop', 'idlepool.floating_variant', 'idlepool.shared_pool_dies_with_pending',
    'idlepool.thread_default_context', 'idlepool.context_destroyed_with_pending', 'idlepool.unref_with_pending',
    'idlepool.drain_on_private_context', 'idlepool.nested_drain', 'idlepool_threads.released_by_survivor',
    'add_from_release_function', 'last_unref_inside_release', 'add_while_thread_exits']
_INOTIFY = ['burst', 'inotify.batch', 'inotify.created_in_handler', 'inotify.creation_failed',
    'inotify.creation_failed_next_to_others', 'inotify.destroy_self_in_handler', 'inotify.destroy_other_in_handler',
    'inotify.free_callback_in_handler', 'inotify.remove_handler_in_handler', 'inotify.reopened',
    'inotify.queue_overflow', 'inotify.watched_file_deleted', 'inotify.oneshot_expired', 'read.EINTR', 'read.EAGAIN',
    'read.short_batch', 'last_ref_dropped_in_handler']
_HISTORY = ['burst', 'history.around_expiration', 'history.long_interval', 'clock.stepped_back', 'clock.ticks_while_read']
_RING = ['burst', 'ring.put_refused', 'ring.limit_lowered_with_excess', 'reentrant_free_function']
_LOG = ['log.reentrant_action', 'log.long_line', 'log.long_timestamp', 'log.dump', 'log.long_dump',
    'stream_short_write', 'stream_write_error', 'stream_write_nothing', 'clock_step']
_DATAPACK = ['datapack.incomplete_record', 'datapack.block_error', 'datapack.block_duplicate',
    'datapack.block_unknown', 'datapack.large_record', 'block_cut', 'stream_cut', 'stall', 'fragment']
_THREADS = ['thread_preempted_inside_library']
PROBES = {
    'C01': _IDLEQUEUE, 'C02': _IDLEQUEUE, 'C03': _IDLEQUEUE,
    'C04': _IDLEPOOL + _THREADS, 'C05': _IDLEPOOL + _THREADS,
    'C06': _INOTIFY, 'C07': _INOTIFY + ['inotify_init.EMFILE', 'inotify_add_watch.ENOSPC', 'inotify_add_watch.missing'],
    'C08': ['timenotify.created_again', 'timenotify.silent', 'timenotify.remove_handler_in_handler', 'clock.stepped',
        'last_ref_dropped_in_handler', 'timerfd_create.fails', 'timerfd_settime.fails'],
    'C09': _HISTORY, 'C10': _HISTORY, 'C11': _RING, 'C12': _RING,
    'C13': _THREADS + ['refcounts.last_reference_dropped_by_thread'],
    'C14': _THREADS + ['weakref.get_nothing', 'weakref.last_holder_gone', 'weak_get_from_dispose', 'action_from_dispose'],
    'C15': _THREADS + ['ints.clamped_slice', 'ints.data_handed_over', 'ints.data_copied'],
    'C16': _LOG, 'C17': _LOG + _THREADS,
    'C28': ['log.option_for_module', 'log.option_for_default', 'log.option_bad_level', 'log.option_bad_module', 'log.reentrant_action'],
    'C18': _DATAPACK,
    'C19': ['datapack.decoding_damaged_data', 'bit_flip', 'bytes_lost', 'bytes_overwritten', 'bytes_repeated', 'torn',
        'stale_tail', 'length_field_changed', 'tag_changed', 'number_changed'],
    'C20': ['helpers.removed_from_own_callback', 'helpers.thread_default_context', 'clear_from_destroy_function',
        'disconnect_from_destroy_function', 'id_freed_by_destroy_function', 'source_removed_while_running',
        'handler_disconnected_during_emission'],
    'C21': _THREADS + ['burst', 'objv.several_removed', 'objv.last_reference_removed', 'objv.equal', 'action_from_finalize'],
    'C29': _THREADS + ['burst'],
    'C30': _THREADS + ['burst', 'idlequeue.asleep', 'idlepool.asleep', 'idlepool_threads.asleep', 'inotify.batch', 'clock.stepped',
        'inotify.broken_and_recovered', 'timenotify.broken_and_recovered', 'last_unref_inside_callback', 'poll.error'],
    'C22': _IDLEQUEUE + _IDLEPOOL + _INOTIFY + _HISTORY + _RING + _LOG + _THREADS,
}

# property: (what drives it, what the oracle is)
NOTES = {
    'C01': ('idle queue under a simulated main loop with re-entrant callbacks',
        'Every step is compared with a reference queue; liveness as "everything left runs within a few idle iterations once faults stop".'),
    'C02': ('idle queue under a simulated main loop with re-entrant callbacks',
        'Cancel and query results and effects are compared with a reference queue.'),
    'C03': ('idle queue under a simulated main loop with re-entrant callbacks',
        'Destroy calls are counted per submission and compared with the reference queue, memory errors are violations (ASan).'),
    'C04': ('idle pools on several simulated main contexts with re-entrant release functions',
        'Releases are compared with a reference pool, memory errors are violations (ASan).'),
    'C05': ('idle pools of several threads and main contexts next to other event sources',
        'Bystander event sources are watched; thread and shared pool rules are compared with a model.'),
    'C06': ('file watches on a simulated kernel inotify with batching, coalescing, overflow, deletion and read faults',
        'Handler calls are compared with the events which the simulated kernel handed over.'),
    'C07': ('file watches on a simulated kernel inotify with failing system calls',
        'Kernel watches and descriptors are compared with the live watches; every close and removal is judged when it happens.'),
    'C08': ('wall clock watch on a simulated timerfd with clock steps and failing system calls',
        'Each clock step must reach the handlers registered at that time, within bounded iterations; timers and descriptors are counted.'),
    'C09': ('value history under a simulated clock which stands still, creeps, jumps and steps back',
        'Every query is compared with a list of samples kept by a reference model.'),
    'C10': ('value history under a simulated clock which stands still, creeps, jumps and steps back',
        'Values are compared with the exact (128-bit) integral of the reference samples, tolerance 1.5, and with their range.'),
    'C11': ('ring buffer used by interleaved producers, consumers and maintenance steps with re-entrant free functions',
        'Every step is compared with a reference deque; memory errors are violations (ASan).'),
    'C12': ('ring buffer used by interleaved producers, consumers and maintenance steps with re-entrant free functions',
        'Free calls are counted per element and compared in order with a reference deque.'),
    'C13': ('threads taking and dropping references under a seeded scheduler with preemption at memory accesses and atomic operations',
        'Finalization is observed and must happen exactly once, after the last reference; memory errors are violations (ASan).'),
    'C14': ('threads getting, repointing and dropping weak references under a seeded scheduler',
        'Every result is checked against the interval history of pointers and object lifetimes.'),
    'C15': ('threads sharing, slicing, converting and dropping int arrays under a seeded scheduler',
        'Contents are compared with private copies; release functions are counted; memory errors are violations (ASan).'),
    'C16': ('log modules, levels, sinks and types reconfigured at random, also from inside sinks',
        'Every message is routed by a reference model of the module tree; sinks check what they get, streams are compared byte by byte.'),
    'C17': ('logging of one or several threads to simulated streams, syslog and GLib with a simulated clock and failing writes',
        'Complete lines are composed by a reference formatter and compared byte by byte; with failing streams, no message may appear twice.'),
    'C18': ('packed data sent over a simulated channel which delays, fragments and cuts the stream',
        'Sender and receiver must agree about every value; incomplete records must not be consumed; blocks are compared with a reference.'),
    'C19': ('packed data damaged in a simulated storage or channel and decoded piece by piece',
        'Positions and contents must stay inside of an exactly sized block (ASan), intact records must come out right, every decoder terminates.'),
    'C20': ('event sources and handlers removed from callbacks, emissions and destroy notifications under a simulated main loop',
        'A model tells which sources and handlers may still be called; destroy notifications are counted, bystanders must keep working.'),
    'C21': ('threads changing vectors of shared objects under a seeded scheduler, with finalizers that use other vectors',
        'Entries and reference counts are compared with a model whenever no call is in progress; finalizations are judged when they happen.'),
    'C28': ('log modules reconfigured by options, calls and sinks in the middle of logging',
        'Every option is judged by a reference parser and the levels of all modules are compared with a model; what they do to messages is checked as in C16.'),
    'C29': ('threads calling helpers which keep no state, on their own and on shared read-only data, under a seeded scheduler with preemption inside of them',
        'Each result is compared with the result of a reference implementation for the same arguments; shared data must stay as it was.'),
    'C30': ('idle queues, idle pools, file watches and the clock notifier under simulated main loops and system calls',
        'Whenever the models have nothing pending, the main context must have no ready source and no timeout.'),
    'C22': ('all single-threaded and multi-threaded scenarios',
        'All blocks allocated by the library and all its descriptors are tracked; whatever is left at the end of a run is a violation.'),
}

NOT_APPLICABLE = {
    'C23': 'Pure functions of their arguments: no schedule, clock, I/O, fault or other party for a simulator to control.',
    'C24': 'Pure functions of their arguments (the reference counts are in C13): nothing for a simulator to control.',
    'C25': 'Pure functions of their arguments: nothing for a simulator to control.',
    'C26': 'Pure functions of their arguments: nothing for a simulator to control.',
    'C27': 'Pure functions of their arguments (sharing is in C15): nothing for a simulator to control.',
}
