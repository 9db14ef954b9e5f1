"""C25 header storage."""
import os
import random
import sys
import tempfile

from bitcoinx import chain as chains, util
from bitcoinx.chain import CheckPoint, MissingHeader, _HeaderStorage
from pyvc.api import *
from contracts.c23_connect import History, play, check_history, check_chains

NAME = '/nowhere/headers'


# ---------------------------------------------------------------- a simulated file
class Disk:
    """The content of one file (None if it is not there), and every content it has had."""
    def __init__(self, data):
        self.data, self.states = data, [data]

    def change(self, data):
        self.data = data
        self.states.append(data)

    def open(self, name, mode='r'):
        check(name == NAME and mode in ('wb', 'rb+', 'r+b'), 'only its own file is opened, in a mode known here')
        if mode == 'wb':
            self.change(b'')
        elif self.data is None:
            raise FileNotFoundError
        return File(self)

    def mmap(self, file, length):
        if length == 0 and len(self.data) == 0:
            raise ValueError
        check(length == 0, 'the whole file is mapped')
        return Map(self)


class File:
    def __init__(self, disk):
        self.disk, self.at = disk, 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def fileno(self):
        return self

    def close(self):
        pass

    def flush(self):
        pass

    def seek(self, at):
        self.at = at

    def truncate(self, size):
        data = self.disk.data
        self.disk.change(data[:size] if size <= len(data) else data + bytes(size - len(data)))

    def write(self, b):
        data = self.disk.data
        if self.at > len(data):
            data = data + bytes(self.at - len(data))
        self.disk.change(data[:self.at] + b + data[self.at + len(b):])
        self.at += len(b)


class Map:
    """A shared map of the whole file."""
    def __init__(self, disk):
        self.disk, self.size, self.closed = disk, len(disk.data), False

    def usable(self):
        if self.closed:
            raise ValueError
        return self.disk.data

    def __len__(self):
        return len(self.usable())

    def __getitem__(self, key):
        return self.usable()[key]

    def __setitem__(self, key, value):
        data = self.usable()
        part = data[key]
        if len(part) != len(value):
            raise IndexError
        start = min(key.start, len(data))
        self.disk.change(data[:start] + value + data[start + len(part):])

    def close(self):
        self.closed = True

    def flush(self):
        pass


class FakeMmap:
    def __init__(self, disk):
        self.mmap = disk.mmap


def on_disk(data, use):
    """The result of use(file name) on a file of that content, the contents in between (in proofs), and the last."""
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'headers')
        if data is not None:
            with open(name, 'wb') as f:
                f.write(data)
        result = outcome(lambda: use(name))
        last = None
        if os.path.exists(name):
            with open(name, 'rb') as f:
                last = f.read()
    return result, [last]


@in_proofs(on_disk)
def simulated(data, use):
    disk = Disk(data)
    chains.open = disk.open
    util.open = disk.open
    util.mmap = FakeMmap(disk)
    result = outcome(lambda: use(NAME))
    return result, disk.states


# ---------------------------------------------------------------- what the file means
EMPTY = bytes(80)


def reserved(data):
    return int.from_bytes(data[:2], 'little')


def count_of(data):
    return int.from_bytes(data[4:8], 'little')


def header_of(data, index):
    start = reserved(data) + index * 80
    part = data[start:start + 80]
    return None if len(part) == 0 or part == EMPTY else part


def good(data, height, raw):
    return data is not None and len(data) >= 8 and data[2:4] == bytes(2) and header_of(data, height) == raw


RAW = Bytes(n=80)
HEIGHT = Int(0, 1 << 31, shi=6)


def file_hint(rng):
    n = rng.choice((1, 1, 2, 5, 9))
    data = b''.join(rng.choice((EMPTY, rng.randbytes(80), b'\1' * 80)) for _ in range(n))
    out = bytes((8, 0, 0, 0)) + rng.choice((n, n, n - 1, n + 1, 0)).to_bytes(4, 'little') + data
    r = rng.random()
    if r < .1:
        out = out[:rng.randrange(len(out) + 1)]
    elif r < .15:
        out = bytes((rng.choice((8, 9, 0, 88)), 0, rng.choice((0, 1)), 0)) + out[4:]
    return out


FILE = Bytes(hint=file_hint, smax=900)


def with_checkpoint(rng):
    data = file_hint(rng)
    h = rng.randrange(3)
    raw = data[8 + 80 * h:88 + 80 * h]
    if len(raw) != 80 or raw == EMPTY or rng.random() < .1:
        raw = b'\1' * 80
    return {'data': data, 'height': h, 'raw': raw, 'index': rng.choice((0, 1, 2, 3, 8, 9, 10, 20))}


def opened(name, height, raw):
    storage = _HeaderStorage(name)
    storage.open_or_create(CheckPoint(raw, height, 0))
    return storage


@driver('C25', samples=lambda rng: {k: v for k, v in with_checkpoint(rng).items() if k != 'index'}, data=FILE, height=HEIGHT, raw=RAW)
def a_good_file_is_kept(data, height, raw):
    """Opening a file with the checkpoint's header changes nothing."""
    require(raw != EMPTY and good(data, height, raw))
    result, states = on_disk(data, lambda name: len(opened(name, height, raw)))
    check(result == ('ok', count_of(data)))
    for state in states:
        check(state == data, 'unchanged')


def anew(rng):
    args = with_checkpoint(rng)
    args['j'] = args.pop('index')
    if rng.random() < .1:
        args['data'] = None
    return args


@driver('C25', samples=anew, data=Opt(FILE), height=HEIGHT, raw=RAW, j=Int(0))
def any_other_file_is_made_anew(data, height, raw, j):
    """A missing, truncated or foreign file becomes one with only the checkpoint's header."""
    require(raw != EMPTY and not good(data, height, raw))
    result, states = on_disk(data, lambda name: len(opened(name, height, raw)))
    check(result == ('ok', height + 1))
    last = states[-1]
    check(good(last, height, raw) and reserved(last) == 8 and len(last) == 88 + 80 * height and count_of(last) == height + 1)
    if j != height:
        check(header_of(last, j) is None, 'no other header')


@driver('C25', samples=with_checkpoint, data=FILE, height=HEIGHT, raw=RAW, index=Int(0))
def reading_a_header(data, height, raw, index):
    require(raw != EMPTY and good(data, height, raw))
    result, states = on_disk(data, lambda name: opened(name, height, raw)[index])
    want = header_of(data, index)
    if want is None:
        check(result == ('exc', MissingHeader))
    else:
        check(result == ('ok', want))


def regular(data):
    return reserved(data) == 8 and (len(data) - 8) % 80 == 0


def storing(rng):
    args = with_checkpoint(rng)
    args.update(new=rng.choice((b'\2' * 80, rng.randbytes(80))), j=rng.choice((args['index'], args['index'] + 1, 0, 1, 2)))
    return args


WHICH = OneOf('opens', 'others', 'count', 'last')


def check_stored(which, result, states, data, height, raw, index, new, j):
    """After, the new header is there; at every moment the others are as they were and the file opens."""
    check(result[0] == 'ok', 'stored')
    for state in states:
        if which == 'opens':
            if index != height:
                check(good(state, height, raw), 'opens again')
            check(regular(state), 'whole headers')
        elif which == 'others':
            if j < index:
                check(header_of(state, j) == header_of(data, j), 'the headers before stay')
            elif j > index:
                check(header_of(state, j) == header_of(data, j), 'the headers after stay')
        elif which == 'count':
            check(count_of(state) == count_of(data) or count_of(state) == max(count_of(data), index + 1) and header_of(state, index) == new,
                  'counted when stored')
    if which == 'last':
        check(header_of(states[-1], index) == new, 'the new header is stored')
        check(count_of(states[-1]) == max(count_of(data), index + 1), 'one more than the highest index')


WHERE = OneOf('before the end', 'at the end', 'after the end')


def end_of(data):
    return (len(data) - 8) // 80


def choose(where, data, index):
    end = end_of(data)
    require(index < end if where == 'before the end' else index == end if where == 'at the end' else index > end)


def appending(rng):
    args = split_storing(rng)
    del args['index']
    end, index = end_of(args['data']), count_of(args['data'])
    args['where'] = 'at the end' if index == end else 'before the end' if index < end else 'after the end'
    return args


def split_storing(rng):
    args = storing(rng)
    end = end_of(args['data'])
    args.update(which=rng.choice(WHICH.vals), where='at the end' if args['index'] == end else 'before the end' if args['index'] < end else 'after the end')
    return args


@driver('C25', timeout=400, split='which where', which=WHICH, where=WHERE, samples=split_storing, data=FILE, height=HEIGHT, raw=RAW, index=Int(0, (1 << 32) - 2, shi=30), new=RAW, j=Int(0, shi=30))
def setting_a_header(which, where, data, height, raw, index, new, j):
    require(raw != EMPTY and new != EMPTY and good(data, height, raw) and regular(data))
    choose(where, data, index)

    def use(name):
        opened(name, height, raw)[index] = new
    result, states = on_disk(data, use)
    check_stored(which, result, states, data, height, raw, index, new, j)


@driver('C25', timeout=400, split='which where', which=WHICH, where=WHERE, samples=appending, data=FILE, height=HEIGHT, raw=RAW, new=RAW, j=Int(0, shi=30))
def appending_a_header(which, where, data, height, raw, new, j):
    require(raw != EMPTY and new != EMPTY and good(data, height, raw) and regular(data) and count_of(data) < (1 << 32) - 1)
    require(count_of(data) > height)
    choose(where, data, count_of(data))
    result, states = on_disk(data, lambda name: opened(name, height, raw).append(new))
    check(result == ('ok', count_of(data)), 'the index')
    check_stored(which, result, states, data, height, raw, count_of(data), new, j)


# ---------------------------------------------------------------- other keys and values
@driver('C25', samples=lambda rng: dict(with_checkpoint(rng), index=rng.choice((1, 1, 2, 3, 5, 9))), data=FILE, height=HEIGHT, raw=RAW, index=Int(1, shi=12))
def reading_from_the_end(data, height, raw, index):
    require(raw != EMPTY and good(data, height, raw) and index <= count_of(data))
    result, states = on_disk(data, lambda name: opened(name, height, raw)[-index])
    want = header_of(data, count_of(data) - index)
    check(result == (('exc', MissingHeader) if want is None else ('ok', want)))


@driver('C25', samples=lambda rng: dict({k: v for k, v in storing(rng).items() if k != 'j'}, new=rng.randbytes(rng.choice((0, 79, 81, 160)))), data=FILE, height=HEIGHT, raw=RAW,
        index=Int(0, shi=30), new=Bytes(smax=200))
def only_80_bytes_are_stored(data, height, raw, index, new):
    require(raw != EMPTY and good(data, height, raw) and len(new) != 80)

    def use(name):
        opened(name, height, raw)[index] = new
    result, states = on_disk(data, use)
    check(result == ('exc', TypeError), 'refused')
    for state in states:
        check(state == data, 'unchanged')


# ---------------------------------------------------------------- crashes (bounded)
class Crash:
    """Random writes to a random file, stopped at the at-th line executed in the library."""
    def __init__(self, seed):
        self.seed = seed

    def __repr__(self):
        return f'Crash({self.seed})'


FILES = (chains.__file__, util.__file__)


def stop_at(at):
    left = [at]

    def trace(frame, event, arg):
        if frame.f_code.co_filename in FILES:
            if event == 'line':
                left[0] -= 1
                if left[0] < 0:
                    os._exit(3)
            return trace
        return None
    sys.settrace(trace)


@driver('C25', mode='bounded', crash=Sampled(lambda rng: Crash(rng.randrange(1 << 48))))
def a_killed_process_loses_nothing_stored(crash):
    rng = random.Random(crash.seed)
    height = rng.choice((0, 1, 5))
    raw = b'\1' * 80
    checkpoint = CheckPoint(raw, height, 0)
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'headers')
        stored = {height: raw}
        kind = rng.choice(('none', 'empty', 'bad', 'good', 'good', 'good'))
        if kind == 'empty':
            open(name, 'wb').close()
        elif kind == 'bad':
            with open(name, 'wb') as f:
                f.write(rng.randbytes(rng.choice((7, 100, 500))))
        elif kind == 'good':
            storage = opened(name, height, raw)
            for _ in range(rng.randrange(4)):
                b = rng.randbytes(80)
                stored[storage.append(b)] = b
            storage.close()
        top = max(stored)
        writes = []
        for _ in range(rng.choice((0, 1, 2, 3))):
            index = rng.choice((top + 1, top + 1, rng.randrange(height + 1), top + 3, 5000 + rng.randrange(100)))
            if index != height:
                top = max(top, index)
                writes.append((index, rng.randbytes(80)))
        at = rng.choice((rng.randrange(30), rng.randrange(30 + 12 * len(writes))))
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            code = 4
            try:
                os.close(r)
                stop_at(at)
                storage = opened(name, height, raw)
                for k, (index, b) in enumerate(writes):
                    storage[index] = b
                    os.write(w, bytes([k]))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        done = b''
        while True:
            part = os.read(r, 100)
            if not part:
                break
            done += part
        os.close(r)
        code = os.waitstatus_to_exitcode(os.waitpid(child, 0)[1])
        check(code in (0, 3), 'writing succeeds')
        check(code == 3 or len(done) == len(writes))
        for k in done:
            stored[writes[k][0]] = writes[k][1]
        under = writes[len(done)] if len(done) < len(writes) else (None, None)
        storage = opened(name, height, raw)
        try:
            count = len(storage)
            if under[0] is None or under[0] < max(stored):
                check(count == max(stored) + 1, 'count')
            else:
                check(count in (max(stored) + 1, under[0] + 1), 'count of all or of all and the one being written')
                check(count == max(stored) + 1 or storage[under[0]] == under[1], 'counted when stored')
            for index in range(0, max(count, top) + 3):
                got = outcome(lambda: storage[index])
                want = ('ok', stored[index]) if index in stored else ('exc', MissingHeader)
                check(got == want or index == under[0] and got == ('ok', under[1]), 'header')
        finally:
            storage.close()


# ---------------------------------------------------------------- the whole collection survives reopening (bounded)
@driver('C25', mode='bounded', history=Sampled(lambda rng: History(rng.randrange(1 << 48))))
def reopened_collections(history):
    play(history, check_history)
    play(history, check_chains)
