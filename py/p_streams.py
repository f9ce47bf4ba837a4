"""C21: the JSON and length-prefixed streams, and the directory helpers, in a scratch directory."""

import bz2
import contextlib
import gzip
import io
import itertools
import json
import os
import shutil
import struct
import zlib
import tempfile

from hypothesis import strategies as st

from pbt import prop, check
from distributions import fileutil
from distributions.io import stream


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


text = st.one_of(st.text(max_size=20), st.text(alphabet=",[]{}\"\\\n\r\t:; \u2028\u2029\u0085\x00\x1f\x7fé€😀", max_size=12), st.sampled_from(["", ",", "]", "[", "\n", "\n]", ",\n", "[\n", "],", "\r\n", "null"]))
text = text.filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s))
scalar = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), st.integers(-5, 5), st.floats(allow_nan=False, allow_infinity=False), text)
value = st.recursive(scalar, lambda v: st.one_of(st.lists(v, max_size=4), st.dictionaries(text, v, max_size=4)), max_leaves=8)
KINDS = ["plain.json", "a.json.gz", "b.json.bz2", "sub/dir/plain.json", "sub/x.json.gz", "s p/é.json.bz2", "noext"]
kinds = st.sampled_from(KINDS)


def path_in(d, kind, absolute):
    """an absolute path, or one relative to the working directory (which is the scratch directory)"""
    return os.path.join(d, kind) if absolute else kind


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def raw(path):
    data = open(path, "rb").read()
    if path.endswith(".gz"):
        return gzip.decompress(data)
    if path.endswith(".bz2"):
        return bz2.decompress(data)
    return data


def same(a, b):
    """equal, of the same types, with equal floats bit for bit"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return struct.pack("d", a) == struct.pack("d", b)
    return a == b


def check_same(a, b, what):
    check(same(a, b), "%s: wrote %.300r, read %.300r", what, a, b)


json_case = st.fixed_dictionaries(dict(items=st.one_of(st.lists(value, max_size=6), st.lists(scalar, max_size=60)), kind=kinds, absolute=st.booleans(), writer=st.sampled_from(["dump", "dump", "costream", "generator"]),
                                       again=st.booleans(), sort=st.booleans(), prefix=st.integers(0, 5)))


@prop("C21", "py_json_stream", json_case, 4000, 150000, "at least two records")
def json_stream(case, info):
    items = case["items"]
    info.nontrivial = len(items) >= 2
    info.label("%s %s" % (case["writer"], os.path.splitext(case["kind"])[1]))
    if not items:
        info.label("no records")
    kwargs = dict(sort_keys=True) if case["sort"] else {}
    with scratch() as d, inside(d):
        path = path_in(d, case["kind"], case["absolute"])

        def write(items):
            before = json.dumps(items)
            if case["writer"] == "costream":
                sink = stream.json_costream_dump(path, **kwargs)
                next(sink)
                for x in items:
                    sink.send(x)
                sink.close()
            elif case["writer"] == "generator":
                stream.json_stream_dump((x for x in items), path, **kwargs)
            else:
                stream.json_stream_dump(items, path, **kwargs)
            check(json.dumps(items) == before, "the records were changed")
        if case["again"]:  # over an older, longer file
            info.label("rewritten")
            write(items + [["old"] * 30])
        write(items)
        check_same(items, json.loads(raw(path).decode("utf-8")), "the file as one JSON document")
        check_same(items, list(stream.json_stream_load(path)), "json_stream_load")
        check_same(items, stream.json_load(path), "json_load")
        # reading part of it, twice at once, then the rest
        a, b = stream.json_stream_load(path), stream.json_stream_load(path)
        k = min(case["prefix"], len(items))
        check_same(items[:k], [next(a) for _ in range(k)], "first records")
        check_same(items, list(b), "a second reader")
        check_same(items[k:], list(itertools.islice(a, len(items) + 5)), "remaining records")
        c = stream.json_stream_load(path)
        c.close()


# records beyond the usual buffer sizes, and many of them: [what is repeated, how often]
size = st.one_of(st.integers(0, 40), st.builds(lambda a, b: max(0, a + b), st.sampled_from([4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20]), st.integers(-3, 3)))
UNITS = ["a", "é", "\n", ",", "]", '"', "\\", "\U0001f600", " ", "[", 0, None, {"a": []}]
long_case = st.fixed_dictionaries(dict(items=st.lists(st.tuples(st.integers(0, len(UNITS) - 1), size), max_size=6), many=st.one_of(st.just(0), st.integers(0, 20000)),
                                       binary=st.booleans(), suffix=st.sampled_from(["", "", ".gz", ".bz2"])))


@prop("C21", "py_long", long_case, 60, 2500, "a record of more than 65536 bytes or more than 4096 records")
def long_records(case, info):
    items = []
    for k, n in case["items"]:
        u = UNITS[k]
        items.append(u * n if isinstance(u, str) else [u] * (n // 8))
    items += [[i] for i in range(case["many"])]
    if case["binary"]:
        items = [json.dumps(x).encode("utf-8") for x in items]
    dump, load = (stream.protobuf_stream_dump, stream.protobuf_stream_load) if case["binary"] else (stream.json_stream_dump, stream.json_stream_load)
    info.nontrivial = len(items) > 4096 or any(n > 66000 for _, n in case["items"])
    info.label(("binary" if case["binary"] else "json") + case["suffix"])
    with scratch() as d:
        path = os.path.join(d, "x" + case["suffix"])
        dump(iter(items), path)
        if case["binary"]:
            want = b"".join(struct.pack("<I", len(x)) + x for x in items)
            check(raw(path) == want, "the file does not hold length-prefixed records")
        else:
            check_same(items, stream.json_load(path), "json_load")
        got = []
        for x in load(path):
            check(len(got) < len(items), "more than the %d records written: %.100r", len(items), x)
            check_same(items[len(got)], x, "record %d" % len(got))
            got.append(x)
        check(len(got) == len(items), "%d of %d records", len(got), len(items))


@prop("C21", "py_json_file", st.fixed_dictionaries(dict(value=value, kind=kinds, absolute=st.booleans(), indent=st.sampled_from([None, None, 2]), again=st.booleans())), 2500, 100000, "a list or object")
def json_file(case, info):
    v = case["value"]
    info.nontrivial = isinstance(v, (list, dict)) and bool(v)
    info.label(os.path.splitext(case["kind"])[1])
    with scratch() as d, inside(d):
        path = path_in(d, case["kind"], case["absolute"])
        kwargs = dict(indent=case["indent"]) if case["indent"] else {}
        if case["again"]:
            stream.json_dump(["old"] * 50, path)
        stream.json_dump(v, path, **kwargs)
        check_same(v, json.loads(raw(path).decode("utf-8")), "the file")
        check_same(v, stream.json_load(path), "json_load")


@prop("C21", "py_json_format", st.fixed_dictionaries(dict(start=st.sampled_from(["{}", "[]", "[1,2]", "", "[", " [\n1\n]", "[ \n1\n]", "\n[\n]", "1\n", "{\n]"]), kind=st.sampled_from(["x.json", "x.json.gz", "x.json.bz2"]))), 60, 300, "always")
def json_format(case, info):
    """a file not of the documented format is refused, not misread"""
    info.nontrivial = True
    with scratch() as d:
        path = os.path.join(d, case["kind"])
        with stream.open_compressed(path, "w") as f:
            f.write(case["start"])
        try:
            stream.json_stream_load(path)
        except IOError:
            return
        check(False, "json_stream_load accepts a file that starts with %r", case["start"])


record = st.one_of(st.binary(max_size=30), st.just(b""), st.sampled_from([b"\0", b"\0\0\0\0", b"\x01\0\0\0", b"\n", b"\r\n", b"\xff" * 8]),
                   st.tuples(st.sampled_from([100, 255, 256, 257, 4095, 4096, 8192, 65535, 65536, 70000]), st.integers(0, 255)).map(lambda t: bytes([t[1]]) * t[0]))
pb_case = st.fixed_dictionaries(dict(items=st.lists(record, max_size=12).map(lambda l: [x.hex() for x in l]), kind=st.sampled_from(["p.pbs", "p.pbs.gz", "q.pbs.bz2", "sub/dir/p.pbs.gz", "sub/p"]), absolute=st.booleans(), writer=st.sampled_from(["dump", "write", "generator"]), prefix=st.integers(0, 5)))


@prop("C21", "py_record_stream", pb_case, 3000, 100000, "at least two records")
def record_stream(case, info):
    items = [bytes.fromhex(x) for x in case["items"]]
    info.nontrivial = len(items) >= 2
    info.label("%s %s" % (case["writer"], os.path.splitext(case["kind"])[1]))
    if b"" in items:
        info.label("empty record")
    if any(len(x) > 255 for x in items):
        info.label("long record")
    with scratch() as d, inside(d):
        path = path_in(d, case["kind"], case["absolute"])
        if case["writer"] == "write":
            with stream.open_compressed(path, "wb") as f:
                for x in items:
                    stream.protobuf_stream_write(x, f)
        elif case["writer"] == "generator":
            stream.protobuf_stream_dump((x for x in items), path)
        else:
            stream.protobuf_stream_dump(items, path)
        want = b"".join(struct.pack("<I", len(x)) + x for x in items)
        check(raw(path) == want, "the file does not hold length-prefixed records")
        got = list(itertools.islice(stream.protobuf_stream_load(path), len(items) + 5))
        check(got == items, "protobuf_stream_load: wrote %.300r, read %.300r", items, got)
        with stream.open_compressed(path, "rb") as f:
            k = min(case["prefix"], len(items))
            check([stream.protobuf_stream_read(f) for _ in range(k)] == items[:k], "protobuf_stream_read of the first %d records", k)
            check([stream.protobuf_stream_read(f) for _ in range(len(items) - k)] == items[k:], "protobuf_stream_read of the other records")
            try:
                stream.protobuf_stream_read(f)
            except StopIteration:
                pass
            else:
                check(False, "protobuf_stream_read reads past the last record")
        r = stream.protobuf_stream_load(path)
        k = min(case["prefix"], len(items))
        check([next(r) for _ in range(k)] == items[:k], "first records")
        check(list(itertools.islice(r, len(items) + 5)) == items[k:], "remaining records")
        r.close()


cut_case = st.fixed_dictionaries(dict(binary=st.booleans(), records=st.lists(record.map(bytes.hex), max_size=8), items=st.one_of(st.lists(value, max_size=6), st.lists(scalar, max_size=30)), kind=st.sampled_from(["x", "x", "x.gz", "x.bz2"]), cut=st.integers(0, 2**32), back=st.booleans()))


@prop("C21", "py_cut_short", cut_case, 2500, 100000, "some but not all bytes of the records are there")
def cut_short(case, info):
    """a file cut short while it was written yields written records only, then ends or is refused"""
    items = [bytes.fromhex(x) for x in case["records"]] if case["binary"] else case["items"]
    info.label("%s %s" % ("protobuf" if case["binary"] else "json", os.path.splitext(case["kind"])[1]))
    with scratch() as d:
        path = os.path.join(d, case["kind"])
        (stream.protobuf_stream_dump if case["binary"] else stream.json_stream_dump)(items, path)
        with open(path, "rb") as f:
            data = f.read()
        cut = case["cut"] % (len(data) + 1)
        if case["back"]:  # near the end
            cut = len(data) - case["cut"] % min(40, len(data) + 1)
        info.nontrivial = bool(items) and 4 < cut < len(data)
        with open(path, "wb") as f:
            f.write(data[:cut])
        got, refused = [], None
        try:
            reader = (stream.protobuf_stream_load if case["binary"] else stream.json_stream_load)(path)
            for x in itertools.islice(reader, len(items) + 5):
                got.append(x)
            reader.close()
        except (IOError, ValueError, EOFError, zlib.error) as e:
            refused = repr(e)
        info.label("refused" if refused else "ended")
        check_same(items[:len(got)], got, "%d of %d bytes left, %s" % (cut, len(data), refused))
        if cut == len(data):
            check(refused is None and len(got) == len(items), "the whole file: %d of %d records, %s", len(got), len(items), refused)


schema_case = st.fixed_dictionaries(dict(groups=st.lists(st.lists(st.integers(0, 2**63), max_size=6), max_size=8), kind=st.sampled_from(["p.pbs", "p.pbs.gz", "q.pbs.bz2"])))


@prop("C21", "py_message_stream", schema_case, 400, 10000, "at least two messages, one not empty")
def message_stream(case, info):
    """serialised schema messages as records"""
    from distributions.io import schema_pb2
    messages = []
    for g in case["groups"]:
        m = schema_pb2.DirichletProcessDiscrete.Group()
        m.keys.extend(x % 2**32 for x in g)
        m.values.extend(x >> 33 for x in g)
        messages.append(m)
    info.nontrivial = len(messages) > 1 and any(case["groups"])
    with scratch() as d:
        path = os.path.join(d, case["kind"])
        stream.protobuf_stream_dump((m.SerializeToString() for m in messages), path)
        got = []
        for data in stream.protobuf_stream_load(path):
            m = schema_pb2.DirichletProcessDiscrete.Group()
            m.ParseFromString(data)
            got.append(m)
        check(got == messages, "messages differ: %d written, %d read", len(messages), len(got))


@prop("C21", "py_open", st.fixed_dictionaries(dict(data=st.binary(max_size=300).map(bytes.hex), text=text, kind=kinds, chunks=st.integers(1, 5))), 1500, 30000, "not empty")
def open_compressed(case, info):
    data = bytes.fromhex(case["data"])
    info.nontrivial = bool(data)
    with scratch() as d:
        path = os.path.join(d, case["kind"])
        with stream.open_compressed(path, "wb") as f:
            n = max(1, len(data) // case["chunks"])
            for i in range(0, len(data), n):
                f.write(data[i:i + n])
        check(raw(path) == data, "bytes differ in the file")
        with stream.open_compressed(path, "rb") as f:
            check(f.read() == data, "bytes differ")
        t = case["text"].replace("\r", "").encode("ascii", "ignore").decode()
        with stream.open_compressed(path, "w") as f:
            f.write(t)
        check(raw(path) == t.encode("utf-8"), "text differs in the file")
        with stream.open_compressed(path) as f:
            check(f.read() == t, "text differs")
        if case["kind"].count("/"):
            check(os.path.isdir(os.path.dirname(path)), "no directory")
        stream.mkdir_p(os.path.dirname(path))  # it exists: no error
        deep = os.path.join(d, "m", "n", "o")
        stream.mkdir_p(deep)
        stream.mkdir_p(deep)
        check(os.path.isdir(deep), "mkdir_p made no directory")


class Boom(Exception):
    pass


@prop("C21", "py_directories", st.fixed_dictionaries(dict(raises=st.booleans(), cleanup=st.booleans(), nested=st.booleans(), chdir_raises=st.booleans())), 120, 1000, "always")
def directories(case, info):
    """tempdir and chdir put the working directory back, also after an exception"""
    info.nontrivial = True
    with scratch() as d:
        oldtemp = tempfile.tempdir
        tempfile.tempdir = d
        home = os.getcwd()
        try:
            wd = None
            try:
                with quiet(), fileutil.tempdir(cleanup_on_error=case["cleanup"]) as wd:
                    check(os.path.realpath(os.getcwd()) == os.path.realpath(wd), "tempdir does not enter %r", wd)
                    check(os.listdir(wd) == [], "tempdir is not empty")
                    stream.json_dump([1], "x/y.json")
                    if case["nested"]:
                        os.mkdir("inner")
                        try:
                            with fileutil.chdir("inner"):
                                check(os.path.realpath(os.getcwd()) == os.path.realpath(os.path.join(wd, "inner")), "chdir does not enter the directory")
                                if case["chdir_raises"]:
                                    raise Boom()
                        except Boom:
                            pass
                        check(os.path.realpath(os.getcwd()) == os.path.realpath(wd), "chdir does not come back")
                    if case["raises"]:
                        raise Boom()
            except Boom:
                check(case["raises"], "unexpected exception")
            check(os.getcwd() == home, "tempdir leaves the working directory at %r", os.getcwd())
            gone = not case["raises"] or case["cleanup"]
            check(os.path.exists(wd) != gone, "the temporary directory %s", "is left behind" if gone else "is removed in spite of the error")
        finally:
            os.chdir(home)
            tempfile.tempdir = oldtemp
