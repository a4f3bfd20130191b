"""What each check encodes and within which bounds."""
MSG = ['messages/**/*.cpp']
IDS = ['UnitIdentifier.cpp', 'TransactionIdentifier.cpp']
DB = ['server/db/InMemoryDatabase.cpp', 'server/db/SingleTypeDatabase.cpp', 'messages/ExceptionType.cpp']
KINDS = ['read_coils', 'read_discrete_inputs', 'read_holding_registers', 'read_input_registers', 'write_single_coil', 'write_single_register', 'write_multiple_coils', 'write_multiple_registers']
SIZES = 'quick: number of values in {1..10, 16, 17, 18, 25, 32, 34, 64, 65, 66, 101} and the ten largest legal ones (bits: up to 2000 read / 1968 written; registers: up to 125 / 123); thorough: every legal number of values; addresses, quantities and values are unconstrained 16-bit symbols'

CHANNEL = ['client/channel/ClientChannelTcp.cpp', 'client/session/ClientSessionImpl.cpp', 'TimerWrapper.cpp', 'logging/LoggerFactory.cpp'] + MSG + IDS
SERVER = ['server/channel/ServerChannelTcp.cpp', 'server/channel/ServerConnectionListener.cpp', 'server/channel/ServerConnectionListenerBuilder.cpp', 'logging/LoggerFactory.cpp'] + MSG + IDS
KHIST = 'the clock, delays and identifiers are symbolic; every order of the queued actions of the single-threaded executor with the events is explored'


def hist(name, *variants, **kw):
    """several runs of one harness: (quick parameters) or (quick parameters, thorough parameters)"""
    r = []
    for v in variants:
        quick, deep = v if isinstance(v, tuple) else (v, None)
        e = dict(name=name, merge=0, params=quick) if quick is not None else dict(name=name, merge=0, params=deep, tier='thorough', time=7000)
        if quick is not None and deep is not None: e['thorough'] = dict(params=deep, time=7000)
        e.update(kw)
        r.append(e)
    return r


def per_kind(prefix, suffix='', big=('read_coils', 'read_discrete_inputs', 'write_multiple_coils'), **kw):
    r = []
    for k in KINDS:
        e = dict(name='%s_%s%s' % (prefix, k, suffix), weight=10 if k in big else 1, thorough=dict(params=dict(all=1), time=7000))
        e.update(kw)
        r.append(e)
    return r


EXE = 'exe4cpp (absent offline) is represented by a stand-in with its documented semantics: actions of one executor run one at a time in the order they were posted; an expired timer appends its action to the queue, and cancelling it removes an action that has not expired yet'
NET = 'asio is represented by a stand-in: pending operations end when and how the harness decides, their handlers are queued and never called from within the call that starts or aborts them; the bytes of a write are fetched when they are transmitted; closing or cancelling a socket aborts its pending operations. Real sockets, name resolution and the operating system are not modelled'
NETCLI = ['client/channel/AsioClientTcpConnection.cpp', 'Ipv4Endpoint.cpp', 'logging/LoggerFactory.cpp']
NETSRV = ['server/channel/AsioServer.cpp', 'server/channel/AsioServerTcpConnection.cpp', 'Ipv4Endpoint.cpp', 'logging/LoggerFactory.cpp']

CHECKS = {
    'C01': dict(harness=['C01.cpp'], srcs=MSG + IDS, entries=per_kind('c01'), bounds=SIZES),
    'C02': dict(harness=['C02.cpp'], srcs=MSG + IDS, entries=per_kind('c02', big=('read_coils', 'read_discrete_inputs', 'read_holding_registers')), bounds=SIZES),
    'C04': dict(harness=['C04.cpp'], srcs=MSG + IDS, entries=per_kind('c04', big=('write_multiple_coils', 'write_multiple_registers')), bounds='byte sequences of length {0..9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 247..256} (thorough: every length 0..256) with arbitrary contents'),
    'C05': dict(harness=['C05.cpp'], srcs=MSG + IDS, entries=per_kind('c05', big=('read_coils', 'read_discrete_inputs')), bounds='arbitrary legal request; byte sequences of length {0..9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 251..260} (thorough: every length 0..260) with arbitrary contents'),
    'C06': dict(harness=['C06.cpp'], srcs=MSG + IDS, ub=True, entries=
        per_kind('c06_parse_request', big=('write_multiple_coils',)) + per_kind('c06_parse_response') +
        [dict(name='c06_build_%s_%s' % (d, k), weight=5 if k in ('read_coils', 'write_multiple_coils') else 1, thorough=dict(params=dict(huge=1))) for d in ('request', 'response') for k in KINDS] +
        ['c06_build_exception', 'c06_frame_build', dict(name='c06_frame_parse', merge=0, weight=20, params=dict(n=16), thorough=dict(params=dict(n=22), time=7000)), dict(name='c06_frame_long', weight=20)],
        bounds='received payloads of length {0..9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 251..260} (thorough: every length 0..260) with arbitrary contents, for arbitrary requests; messages with up to 2049 values (thorough: 70000) into output buffers of 14 sizes 0..260; frame parser: 16 arbitrary bytes (thorough 22) cut anywhere, and complete frames of announced length up to 65535 in reads of 10 sizes'),
    'M01': dict(harness=['M01.cpp'], srcs=MSG + IDS, entries=['m01_any_length', 'm01_every_length'] + per_kind('m01_request') + per_kind('m01_response'), bounds='all unit and transaction identifiers; messages of every length 0..300 and selected lengths up to 70000; all eight request and response types with the numbers of values of C01'),
    'M02': dict(harness=['M02.cpp'], srcs=MSG + IDS, entries=[
        dict(name='m02_frames', weight=10, merge=0, params=dict(tail=3)), dict(name='m02_frames', weight=10, merge=0, params=dict(tail=8), tier='thorough'), dict(name='m02_frames', merge=0, params=dict(frames=3, cuts=1, tail=0), weight=8), dict(name='m02_frames', merge=0, params=dict(big=1, cuts=2), weight=9),
        dict(name='m02_frames', merge=0, params=dict(frames=1, cuts=4, tail=0), weight=9), dict(name='m02_frames', merge=0, params=dict(frames=3, cuts=3, tail=2), tier='thorough', time=7000),
        dict(name='m02_any_bytes', merge=0, weight=10), dict(name='m02_any_bytes', merge=0, params=dict(n=24, cuts=2), weight=10, tier='thorough', time=7000), dict(name='m02_any_frame', merge=0, weight=8), dict(name='m02_many', merge=0), dict(name='m02_long', merge=0, steps=900000000)],
        bounds='streams of 1 to 3 legal frames with payloads {0,1,2,5} or {0,252,253} and arbitrary contents plus up to 3 (thorough 8) bytes of a following frame, cut at any 1 to 4 positions; arbitrary streams of 18 bytes cut anywhere (thorough: 24 bytes, two cuts); frames of 12 announced lengths up to 700 in reads of 10 sizes; up to 2142 frames in one read of up to 15000 bytes; 66000 frames in a row, whole or cut'),
    'M03': dict(harness=['M03.cpp'], srcs=MSG + IDS, entries=[dict(name='m03_skip', merge=0, weight=10), dict(name='m03_skip', merge=0, params=dict(two=1), tier='thorough', time=7000), dict(name='m03_reset', merge=0, weight=5, thorough=dict(params=dict(garbage=12, n=18), time=7000)), dict(name='m03_many', merge=0)],
        bounds='one illegal frame (thorough: two) of 21 shapes with arbitrary contents between legal frames with payload {0,3,253}, in reads of 5 sizes; reset after 0..8 (thorough 12) arbitrary bytes, then 14 (thorough 18) arbitrary bytes; 300 illegal frames of four shapes in one or many reads'),
    'C07': dict(harness=['C07.cpp'], srcs=MSG + IDS, entries=['c07_encode'] + per_kind('c07', big=()), bounds='every exception type, every function code below 128, all 256 exception code bytes, frame lengths 0..7'),
    'C08': dict(harness=['C08.cpp'], srcs=MSG + IDS, entries=per_kind('c08', big=('write_multiple_coils',), merge=0) + [dict(name='c08_write_multiple_%s_wrap' % k, params=dict(big=b)) for k in ('coils', 'registers') for b in (65536, 65537, 65600)],
        bounds='every quantity 0..65535 of read requests; written values: numbers around byte boundaries and the limits up to 12 beyond them (thorough: every number up to 12 beyond the limit), and 65536, 65537, 65600'),
    'C03': dict(harness=['C03.cpp'], srcs=MSG + IDS, entries=per_kind('c03', '_request') + per_kind('c03', '_response'), bounds=SIZES),
    'E01': dict(harness=['E01.cpp'], srcs=['messages/ExceptionType.cpp'], entries=[dict(name='e01_history', merge=0, thorough=dict(params=dict(ops=4))), 'e01_slicing', 'e01_library'],
        bounds='three objects, histories of up to 4 (thorough 5) constructions, copies, moves and destructions; values and five kinds of errors (a three-level hierarchy and two unrelated types) with arbitrary contents; every exception class of the library with messages of up to 19 arbitrary characters'),
    'E02': dict(harness=['E02.cpp'], srcs=IDS, entries=['e02_unit', 'e02_map', 'e02_transaction'], bounds='all pairs of unit identifiers and of transaction identifiers; maps with three keys'),
    'E03': dict(harness=['E03.cpp'], srcs=IDS, entries=['e03_state', 'e03_sequence'], bounds='all identifiers; every combination of base, adjustment, uppercase, showbase and three fill characters; field width 0'),
    'E04': dict(harness=['E04.cpp'], srcs=['messages/ExceptionType.cpp'], entries=['e04_codes', 'e04_descriptions', 'e04_exception'], bounds='every 32-bit value of the enumeration, all code bytes'),
    'E07': dict(harness=['E07.cpp'], srcs=['messages/ExceptionType.cpp'], entries=[dict(name='e07_errors', thorough=dict(params=dict(all=1))), 'e07_fixed', 'e07_long'], bounds='the five error classes of the library with messages of 14 lengths up to 1000 (thorough: every length below 32) with arbitrary characters, every value of the exception type'),
    'E05': dict(harness=['E05.cpp'], srcs=['Ipv4Endpoint.cpp'], entries=[*[dict(name='e05_endpoints', params=dict(len=i)) for i in range(9)], *[dict(name='e05_endpoints', params=dict(len=i, short=1)) for i in (1, 2)], dict(name='e05_endpoints', tier='thorough', params=dict(all=1)), dict(name='e05_history', merge=0, params=dict(ops=3), thorough=dict(params=dict(ops=3, objects=3))), 'e05_long'], bounds='host names of 20 lengths up to 1000 (thorough: every length up to 23) with arbitrary characters, all ports; histories of 3 copies, assignments and moves among two (thorough: three) endpoints'),
    'E06': dict(harness=['E06.cpp'], srcs=['logging/LoggerFactory.cpp'], entries=['e06_conversion', 'e06_custom', 'e06_factory'], bounds='every level of logger, derived logger and message',
        assumptions=['spdlog (absent offline) is represented by a stand-in with its documented semantics: a logger passes a message to each of its sinks when the level of the message is at least its own']),
    'D01': dict(harness=['D01.cpp'], srcs=DB[1:], entries=[dict(name='d01_%s' % k, merge=0, thorough=dict(params=dict(ops=4), time=7000)) for k in ('bits', 'registers')] + [dict(name='d01_many_%s' % k, thorough=dict(params=dict(n=60))) for k in ('bits', 'registers')] + [dict(name='d01_full_%s' % k, steps=900000000) for k in ('bits', 'registers')],
        bounds='histories of 3 (thorough 4) additions, writes and reads at arbitrary addresses with arbitrary values, then a read at an arbitrary address; tables of 24 (thorough 60) addresses at three places, filled in four orders; tables of all 65536 addresses, filled in three orders, each address read and written'),
    'D02': dict(harness=['D02.cpp'], srcs=DB[1:], entries=[dict(name='d02_%s' % k, thorough=dict(params=dict(n=4), time=7000)) for k in ('bits', 'registers')] + [dict(name='d02_block_%s' % k, params=dict(sizes=4), thorough=dict(params=dict(sizes=6, holes=1))) for k in ('bits', 'registers')] + [dict(name='d02_long_%s' % k, params=dict(size=i), steps=400000000, weight=1 + i) for k in ('bits', 'registers') for i in range(4)] + [dict(name='d02_full', steps=400000000)],
        bounds='tables of 3 (thorough 4) arbitrary addresses, ranges of 1..5 (6) values from any address; blocks of up to 9 (thorough 33) consecutive addresses at 0, 1, 500 and the end of the address space, with at most one hole, ranges up to 65537; blocks of 255, 256, 257 and 2000 addresses with a hole at six places; the full table of 65536 addresses'),
    'D03': dict(harness=['D03.cpp'], srcs=DB, entries=[dict(name='d03_requests', thorough=dict(params=dict(requests=2, n=3), time=7000)), 'd03_anywhere'] + [dict(name='d03_tables', weight=4, merge=0, params=dict(missing=i), thorough=dict(params=dict(missing=i, steps=3), time=3600)) for i in range(5)] + [dict(name='d03_large', weight=5, steps=100000000)],
        bounds='one (thorough: two) requests of any of the eight types, 1..4 values, at any place relative to tables of 3 values which overlap in any way; any starting address against tables at 0, 700 and 65532; requests of the largest legal size and one less; two (thorough three) additions, single reads and writes on any of the four tables'),
    'D04': dict(harness=['D04.cpp'], srcs=DB, entries=[dict(name='d04_two', preempt=20, weight=10 - k, params=dict(first=k)) for k in range(8)] + [dict(name='d04_three', preempt=20, weight=10), dict(name='d04_every', preempt=20, weight=8)],
        bounds='two threads with two operations each and three threads with one each, out of eight operations, and two threads with one each out of all operations on all four tables; arbitrary values; every interleaving of the critical sections (no preemption bound); scheduling points at lock operations and inside transactions, data races between them are reported'),
    'D05': dict(harness=['D05.cpp'], srcs=DB, entries=['d05_transaction', dict(name='d05_transaction', params=dict(thread=1, writes=1)), 'd05_empty'], bounds='transactions of 2 arbitrary writes to four tables, four kinds of exceptions thrown at any point or none; use from the same or another thread afterwards'),
    'K01': dict(harness=['K01.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=
        hist('k01_history', (dict(steps=4), dict(steps=6)), dict(steps=5, pre=1), (dict(steps=3, reissue=1), dict(steps=4, reissue=1)), (dict(steps=4, invalid=1, pre=0), dict(steps=5, invalid=1, pre=0)), (dict(steps=2, pre=6, limit=6), dict(steps=4, pre=6, limit=6)), weight=5) + [dict(name='k01_partial', merge=0), dict(name='k01_burst', merge=0)] + [dict(name='k01_many', merge=0, steps=200000000)] + [dict(name='k01_long', merge=0, steps=900000000)],
        bounds='histories of up to 5 (thorough 6) events - request issued, action run, time passed, arbitrary frame received, connection error - after up to 6 queued requests, then the queue and the timers run dry; handlers that issue another request; invalid requests; bursts of up to seven requests answered in order; 1100 requests at once; 1100 rounds with every outcome in turn; ' + KHIST),
    'K02': dict(harness=['K02.cpp', 'Kmany.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k02_history', (dict(steps=6), dict(steps=8)), weight=5) + [dict(name='k02_counter', merge=0), dict(name='k02_burst', merge=0)] + [dict(name='k02_many', merge=0, steps=200000000), dict(name='k02_long', merge=0, steps=900000000)],
        bounds='histories of 6 (thorough 8) events; any value of the 16-bit transaction counter; bursts of up to seven requests; 1100 requests at once; 66000 requests in a row; ' + KHIST),
    'K03': dict(harness=['K03.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k03_history', (dict(), dict(steps=5)), weight=5) + [dict(name='k03_same_read', merge=0), dict(name='k03_burst', merge=0)] + [dict(name='k03_long', merge=0, steps=900000000)],
        bounds='histories of 4 (thorough 5) events with arbitrary frames, several in one read; bursts of up to seven requests; 1100 rounds of a request with five frames that do not answer it; ' + KHIST),
    'K04': dict(harness=['K04.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k04_history', (dict(steps=6), dict(steps=8)), weight=5) + [dict(name='k04_any_timeout', merge=0)] + [dict(name='k04_long', merge=0, steps=900000000)],
        bounds='histories of 6 (thorough 8) events; timeouts of any length; 1100 requests late one after the other; ' + KHIST),
    'K05': dict(harness=['K05.cpp', 'Kmany.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k05_history', (dict(steps=5), dict(steps=7)), (dict(invalid=1, pre=0, steps=5), dict(invalid=1, pre=1, steps=6)), (dict(reissue=1, steps=3), dict(reissue=1, steps=5)), weight=5) + hist('k05_sessions', (dict(steps=5), dict(steps=7))) + [dict(name='k05_many', merge=0, steps=200000000)],
        bounds='histories of 5 (thorough 7) events before, during and after the shutdown, with plain, invalid, reissued and scheduled requests; 1100 requests and 300 sessions with scheduled requests; ' + KHIST),
    'K06': dict(harness=['K06.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k06_history', (dict(steps=4), dict(steps=5)), weight=5) + [dict(name='k06_legal_%s' % k, merge=0) for k in ('read', 'write')] + [dict(name='k06_long', merge=0, steps=900000000)],
        bounds='histories of 4 (thorough 5) events with invalid and valid requests; every request of the eight types through a session; 3300 invalid requests between 1100 valid ones; ' + KHIST),
    'K07': dict(harness=['K07.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=hist('k07_history', (dict(steps=3), dict(steps=4)), (dict(steps=1, more=2), dict(steps=3, more=2)), weight=5) + [dict(name='k07_partial', merge=0)] + [dict(name='k07_many', merge=0, steps=200000000)] + [dict(name='k07_long', merge=0, steps=900000000)],
        bounds='histories of up to 3 (thorough 5) events around a connection error, up to ten requests; 1100 requests at once; 1100 connection errors; ' + KHIST),
    'K08': dict(harness=['K08.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=[dict(name='k08_%s' % k, merge=1 if k == 'write_multiple_coils' else 0, weight=5 if 'multiple' in k else 1, thorough=dict(params=dict(all=1), merge=1, time=7000)) for k in KINDS] + [dict(name='k08_long', merge=0, steps=900000000)],
        bounds='one request of each type with arbitrary contents (' + SIZES + ') through a session and the channel, with a time limit of up to 10000 s or none at all; every outcome; 2200 requests in a row through one session, every other one late'),
    'K09': dict(harness=['K09.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=
        hist('k09_history', (dict(), dict(steps=6)), (dict(pre=1), dict(pre=1, steps=6)), (dict(pre=2), dict(pre=2, steps=6)), (dict(pre=1, steps=3, reenter=1), dict(pre=1, steps=4, reenter=1)), (dict(pre=2, steps=2, kind=1), dict(pre=2, kind=1)), dict(pre=2, steps=2, kind=2), dict(pre=2, steps=2, kind=3), weight=5) + [dict(name='k09_any_period', merge=0)] + [dict(name='k09_long', merge=0, steps=900000000)],
        bounds='histories of 4 (thorough 6) events - action run, time passed, poll ended in any of four ways, started, stopped, period changed - from the creation, the first poll or the first pause; the same commands from inside the handler; four read types; periods and timeouts of any length; 1100 polls with every outcome, stopped and started or not; ' + KHIST),
    'K10': dict(harness=['K10.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=
        hist('k10_history', (dict(timers=2), dict(timers=2, steps=6)), dict(timers=1, requests=1, steps=6), (dict(timers=2, requests=1, steps=4), dict(timers=2, requests=2, steps=5)), (None, dict(timers=3)), weight=5) + [dict(name='k10_any_duration', merge=0)] + [dict(name='k10_long', merge=0, steps=900000000)],
        bounds='histories of 5 or 6 events with up to 2 (thorough 3) timers and one (thorough 2) requests, durations 0..1000 units; timers that start timers; durations of any length; 1100 timers at once and 1100 one after the other; ' + KHIST),
    'K11': dict(harness=['K11.cpp', 'Kmany.cpp', 'Klong.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=
        hist('k11_history', (dict(steps=5), dict(steps=6)), (dict(pre=1, steps=4), dict(pre=1, steps=5)), (dict(pre=2, steps=4), dict(pre=2, steps=5)), (dict(pre=3, steps=3), dict(pre=3, steps=4)), weight=5) + [dict(name='k11_many', merge=0, steps=200000000)] + [dict(name='k11_long', merge=0, steps=900000000)],
        bounds='two sessions with the same or different units and up to 3 requests and one or two scheduled requests each; histories of 3 to 5 (thorough 5 or 6) events - request, scheduled request, action run, next timer, answer, connection error, session shutdown - then use of the session that is down and of the other one; 220 requests and 220 scheduled requests on each of two sessions; 1100 sessions one after the other; ' + KHIST),
    'K12': dict(harness=['K12.cpp'], srcs=CHANNEL, assumptions=[EXE], entries=[dict(name='k12_inside', merge=0, params=dict(kind=i)) for i in range(4)],
        bounds='one use of each of fifteen kinds inside the handler of a request, a poll, a timer or a refused request, for five outcomes, with further requests, a scheduled request and a timer waiting; compared with the same use right after the handler over the sixteen following answers or timers'),
    'S01': dict(harness=['S01.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=per_kind('s01', big=('write_multiple_coils',)) + [dict(name='s01_%s' % k, params=dict(rounds=2), merge=0) for k in ('write_single_register', 'write_single_coil', 'read_input_registers')] + ['s01_units'],
        bounds='one legal request of each type to one of two sessions (three types: two requests in a row), every kind of answer; requests and responses of the sizes of C01; every pair of attached and requested unit; ' + SIZES),
    'S02': dict(harness=['S02.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=[dict(name='s02_%s' % k, thorough=dict(params=dict(all=1), time=7000)) for k in KINDS + ['function']] + ['s02_empty', 's02_unit'],
        bounds='payloads of length {1..10, 16, 17, 18, 25, 32, 34, 64, 65, 66, 101, 244..253} (thorough: every length 1..253) with arbitrary contents that are not well-formed requests; every unsupported function code; units without session: lengths 0..15'),
    'S03': dict(harness=['S03.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=hist('s03_history', (dict(), dict(steps=5)), (dict(lazy=1), dict(lazy=1, steps=5)), dict(lazy=1, twice=1, steps=3), dict(units=1, steps=5), (None, dict(units=3, sessions=3))) + [dict(name='s03_any_units', merge=0), dict(name='s03_all_units', merge=0)],
        bounds='histories of 4 (thorough 5) attachments, requests, queued actions run and shutdowns over two units and two sessions (thorough three), then requests, a shutdown, an attachment and requests again; any two units with an arbitrary requested unit; a session for each of the 256 units, replaced or not'),
    'S04': dict(harness=['S04.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=[dict(name='s04_%s' % k, merge=0, thorough=t) for k, t in (('streams', dict(params=dict(frames=3), time=7000)), ('error', {}), ('gone', {}), ('responses', dict(params=dict(requests=4))), ('any_bytes', dict(params=dict(n=20), time=7000)), ('many', {}))] + [dict(name='s04_long', merge=0, steps=900000000)],
        bounds='two connections with two frames each (thorough three), cut anywhere, interleaved; an error after any prefix of two frames; three pipelined requests (thorough four) cut anywhere; 16 (thorough 20) arbitrary bytes cut anywhere; 680 requests in reads of 1000 to 8400 bytes; 2100 requests in reads of their own on two connections'),
    'S07': dict(harness=['S07.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=[dict(name='s07_%s' % k) for k in KINDS],
        bounds='every type of request with arbitrary contents (1 or 9 values written), to sessions that implement none or exactly one of the eight functions, with any unit and transaction identifier'),
    'S06': dict(harness=['S06.cpp'], srcs=sorted(set(CHANNEL + SERVER + DB)), asio=True, assumptions=[EXE, 'TCP is a reliable byte stream in each direction'], entries=
        [dict(name='s06_%s' % k, merge=0, weight=5 if k.startswith('read_input') else 2, params=dict(cuts=2 if k in ('read_input_registers', 'write_multiple_registers', 'write_single_coil') else 1), thorough=dict(params=dict(cuts=3), time=7000)) for k in KINDS] + [dict(name='s06_write_read', merge=0, params=dict(cuts=1)), dict(name='s06_write_read', merge=0, params=dict(cuts=2), weight=5), dict(name='s06_pipelined', merge=0)] +
        [dict(name='s06_large_%s' % k, params=dict(cuts=0), merge=1, thorough=dict(params=dict(cuts=1))) for k in ('read_coils', 'write_multiple_coils')] + [dict(name='s06_large_%s' % k, merge=0) for k in ('read_holding_registers', 'write_multiple_registers')],
        bounds='requests of each type for 1..3 values around tables of 2 values at both ends of the address space, arbitrary contents; both byte streams cut at up to 1 or 2 (thorough 3) places out of 13 around the structure of the frames; sequences of four requests, three pipelined ones; the largest legal requests and one less'),
    'S08': dict(harness=['S08.cpp'], srcs=SERVER, asio=True, assumptions=[EXE], entries=[dict(name='s08_inside', merge=0), dict(name='s08_inside', merge=0, params=dict(shutdown=1))],
        bounds='one use of each of nine kinds inside the handler of a request of each function, for the three kinds of answer, or inside the shutdown handler of a session, with up to one more request in the same read; compared with the same use right after the read over requests for three units, a shutdown and one more request'),
    'S05': dict(harness=['S05.cpp'], srcs=NETSRV, asio=True, entries=
        hist('s05_history', (dict(steps=4, **{'from': 0}, to=2), dict(steps=6, **{'from': 0}, to=2)), (dict(steps=4, conns=2, to=2), dict(steps=5, conns=2, to=3)), (dict(steps=4, conns=1, writes=1), dict(steps=5, conns=2, writes=1)),
             (dict(steps=5, eager=1, to=2), dict(steps=7, eager=1, to=2)), (dict(steps=4, eager=1, conns=3, to=3), dict(steps=5, eager=1, conns=3, to=3)), weight=8) +
        hist('s05_shutdown', (dict(steps=4, conns=1), dict(steps=5, conns=1)), (dict(steps=4, conns=2), dict(steps=5, conns=2)), weight=8) + [dict(name='s05_many', merge=0), dict(name='s05_long', merge=0, steps=900000000)],
        bounds='limits 0..3; up to 3 connections open at the start; every history of up to 4 events (accept, failed accept, bytes, end or failure of a connection, close, one completion, one queued action; 5 when the queues run dry after every event), then three more connections; shutdown at any point of 4 events (thorough: one or two events more); limits 20, 255, 256, 257 and 400, reached; 1100 connections one after the other, kept, lost or failing in the acceptance', assumptions=[NET]),
    'N01': dict(harness=['N01.cpp'], srcs=NETCLI, asio=True, entries=
        hist('n01_history', (dict(pre=0, steps=6), dict(pre=0, steps=9)), (dict(pre=1, steps=6), dict(pre=1, steps=8)), (dict(pre=2, steps=6), dict(pre=2, steps=7)), (dict(pre=3, steps=5), dict(pre=3, steps=6)), (dict(pre=4, steps=5), dict(pre=4, steps=6)),
             (dict(pre=0, steps=5, reenter=1, shut=1), dict(pre=0, steps=6, reenter=1, shut=1)), (dict(pre=3, steps=4, reenter=1, shut=1), dict(pre=3, steps=5, reenter=1, shut=1)), weight=8) +
        hist('n01_eager', (dict(pre=0, steps=6), dict(pre=0, steps=8)), (dict(pre=3, steps=6), dict(pre=3, steps=7)), (dict(pre=3, steps=5, reenter=1), dict(pre=3, steps=6, reenter=1)), weight=8) +
        hist('n01_sync', (dict(pre=0, steps=5), dict(pre=0, steps=7)), (dict(pre=1, steps=5, adapter=1), dict(pre=1, steps=7, adapter=1)), (dict(pre=0, steps=5, adapter=1), dict(pre=0, steps=7, adapter=1)), weight=8) + [dict(name='n01_large', merge=0), dict(name='n01_long', merge=0, steps=900000000)],
        bounds='from five stages of a connection, every history of up to 6 events, 5 once connected (send, one queued action, one completion, resolution, connection, complete, partial or failed write, received byte, end or failure of the connection, close; also shutdown and sends from within the callbacks; up to 2 failures on the spot), 6 when the queues run dry after every event (thorough: one to three more); up to 3 buffers of 3 bytes; reads and buffers of 1 to 4096 bytes, up to 300 buffers waiting; 1100 connections made and lost in six ways, 1100 buffers and reads on one connection', assumptions=[NET]),
    'N02': dict(harness=['N02.cpp'], srcs=NETSRV, asio=True, entries=
        hist('n02_history', (dict(conns=1, steps=5, reply=1), dict(conns=1, steps=7, reply=1)), (dict(conns=1, sent=2, steps=5), dict(conns=1, sent=2, steps=8)), (dict(conns=2, steps=4), dict(conns=2, steps=5)), (dict(conns=2, steps=4, eager=1, reply=1), dict(conns=2, steps=6, eager=1, reply=1)), (dict(conns=1, steps=6, eager=1, reply=1), dict(conns=1, steps=9, eager=1, reply=1)), weight=8) + [dict(name='n02_large', merge=0), dict(name='n02_long', merge=0, steps=900000000)],
        bounds='one or two connections with up to 3 responses of 3 bytes each; every history of up to 5 events (4 with two connections; 6 when the queues run dry after every event; thorough one to three more): send, one queued action, one completion, complete, partial or failed write, received byte with or without an immediate response, end or failure, close; reads and responses of 1 to 4096 bytes, up to 300 responses waiting; 1100 reads and up to 4400 responses on one connection', assumptions=[NET]),
    'N03': dict(harness=['N03.cpp'], srcs=['**/*.cpp'], asio=True, entries=
        hist('n03_history', (dict(steps=3), dict(steps=5)), weight=8) + [dict(name='n03_threads', merge=0, preempt=2, thorough=dict(preempt=4, time=7000)), dict(name='n03_arguments', merge=0), dict(name='n03_many', merge=0)],
        bounds='every history of up to 3 (thorough 5) creations of client and server channels, released or not, started or not, manager shutdowns and runs of the queues, then the destruction; 20 and 280 channels; two threads with creations and shutdown, up to 2 (thorough 4) preemptions; 3 names, 2 hosts, 3 ports, 2 adapters, limits 0..2, all levels, 0..3 threads or none given', assumptions=[EXE, NET]),
    'N04': dict(harness=['N04.cpp'], srcs=NETCLI, asio=True, entries=
        hist('n04_attempts', (dict(rounds=1, endpoints=3, faults=2), dict(rounds=1, endpoints=5, faults=3)), (dict(rounds=2, endpoints=2, faults=1), dict(rounds=2, endpoints=3, faults=1)), weight=8) + [dict(name='n04_many', merge=0)],
        bounds='0 to 3 (thorough 5) resolved addresses of either protocol, each reachable or not, up to 2 (thorough 3) failures to open or bind; two connections in a row with 0 to 2 addresses; twelve in a row with 30 addresses; 3 adapters, 2 hosts, 3 ports', assumptions=[NET]),
    'N05': dict(harness=['N05.cpp'], srcs=['**/*.cpp'], asio=True, entries=
        hist('n05_history', (dict(steps=6), dict(steps=8)), (dict(pre=1, steps=5), dict(pre=1, steps=7)), (dict(pre=1, steps=4, chunk=5), dict(pre=1, steps=6, chunk=5)), (dict(pre=1, steps=3, clients=2), dict(pre=1, steps=5, clients=2)), (dict(pre=1, steps=3, clients=2, limit=1), dict(pre=1, steps=5, clients=2, limit=1)), (dict(pre=1, steps=4, down=1), dict(pre=1, steps=6, down=1)), (dict(steps=4, down=1), dict(steps=6, down=1)), (dict(pre=2, steps=3), dict(pre=2, steps=5)), (dict(pre=2, steps=2, clients=2, limit=1), dict(pre=2, steps=3, clients=2, limit=1)), weight=9),
        bounds='one client on a server, or two on one with a limit of one or two connections, new, after one request, or when a part of a further answer has arrived; every history of 2 to 6 (thorough 3 to 8) events - request (read or write with an arbitrary value), next move of the network, fault at that point (refused, cut or ended; up to 2), time limit elapses, server shut down - then everything runs to its end and each client writes, reads and asks for an absent address; whole frames or at most 5 bytes at a time; the queues run dry after every event', assumptions=[EXE, NET]),
    'T01': dict(harness=['T01.cpp'], srcs=CHANNEL + ['server/channel/ServerChannelTcp.cpp', 'server/channel/ServerConnectionListener.cpp', 'server/channel/ServerConnectionListenerBuilder.cpp'], asio=True, entries=[
        dict(name='t01_client', merge=0, preempt=1, weight=9, params=dict(first=k), thorough=dict(preempt=2, params=dict(first=k, calls=2), time=7000)) for k in range(11)] + [dict(name='t01_server', merge=0, preempt=2, thorough=dict(preempt=3, params=dict(calls=2), time=7000))],
        bounds='two user threads with one (thorough two) calls each, out of the eleven public client and four public server operations, on a shared channel, session and scheduled request, while a library thread runs up to 3 queued actions and the rest runs afterwards; every interleaving of the lock operations and sequentially consistent atomic accesses with up to 1 (server 2; thorough 2, 3) preemptions; data races are judged by happens-before, with reference counts ordering no more than they have to', assumptions=[EXE]),
    'T02': dict(harness=['T02.cpp'], srcs=['**/*.cpp'], asio=True, entries=
        hist('t02_client', (dict(steps=4), dict(steps=5)), (dict(pre=1, steps=3), dict(pre=1, steps=4)), (dict(pre=2, steps=3), dict(pre=2, steps=4)), (dict(pre=3, steps=3), dict(pre=3, steps=4)), weight=8) +
        hist('t02_server', (dict(steps=5), dict(steps=7)), (dict(pre=1, steps=4), dict(pre=1, steps=6)), weight=4),
        bounds='a client channel with up to 2 sessions, 2 scheduled and 2 other requests, from four stages, every history of 3 or 4 (thorough 4 or 5) events: creations and sends with or without release, one action or completion run, one network operation ending well or badly, next timer, shutdown of session, channel or manager, release of everything; a server channel with up to 2 sessions and 3 connections, histories of 4 or 5 (thorough 6 or 7) events; then the manager is shut down and everything released', assumptions=[EXE, NET]),
}

NOT_APPLICABLE = {}
