"""Writing and reading publishers, data sets and designs (C15)."""
from pyvc_dsl import *
import io
import os
import shutil
import tempfile
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

LOG = List(Tuple(Int, Real))


class Scratch(object):
    """a directory that is removed afterwards"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pyvc_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def gen_spend(g):
    return g.rng.choice([0.0, 0.1, 0.1 + 0.2, 1.0 / 3, 5e-324, 1e-7, 1.5e16, 123456789.123456789, 1e22, float(g.rng.randint(0, 5)), g.rng.random()])


def gen_log(g):
    return [(g.rng.choice([0, 1, 2, 3, 2 ** 63 + 1, -4, g.rng.randint(0, 9)]), gen_spend(g)) for _ in range(g.rng.randint(1, 9))]


def gen_logs(g):
    names = ["1", "2", "10", "b", "a", "Pub", "x.y", "a b", "10.csv", "longer name_3"]
    g.rng.shuffle(names)
    return [(names[i], gen_log(g)) for i in range(g.rng.randint(1, 5))]


def by_spend(log):
    return sorted(log, key=lambda e: e[1])


class Lines(object):
    """a text file as the lines written to it"""

    def __init__(self):
        self.lines = []

    def write(self, s):
        self.lines.append(s)


@lemma(props=["C15"], types=dict(log=LOG), gen=dict(log=gen_log))
def publisher_lines_round_trip(log):
    assume(len(log) >= 1)
    f = Lines()
    PublisherData(log, "p").write_publisher_data(f)
    p = PublisherData.read_publisher_data(f.lines)
    srt = by_spend(log)
    check("one line per event", len(f.lines) == len(log))
    check("same number of events", p.max_impressions == len(log))
    check("same users in spend order", forall(0, len(log), lambda i: p._data[i][0] == srt[i][0]))
    check("same spends in spend order", forall(0, len(log), lambda i: p._data[i][1] == srt[i][1]))
    g = Lines()
    p.write_publisher_data(g)
    check("writing again gives the same lines", len(g.lines) == len(log) and forall(0, len(log), lambda i: g.lines[i] == f.lines[i]))


@lemma(props=["C15"], types=dict(log=LOG), symbolic=False, gen=dict(log=gen_log))
def publisher_round_trip(log):
    f = io.StringIO()
    PublisherData(list(log), "p").write_publisher_data(f)
    f.seek(0)
    p = PublisherData.read_publisher_data(f)
    check("same events in spend order", p._data == by_spend(log) and all(type(u) is int for u, _ in p._data))
    g = io.StringIO()
    p.write_publisher_data(g)
    check("writing again gives the same text", g.getvalue() == f.getvalue())


BAD = ["1,2,3\n", "1\n", "\n", "a,1.0\n", "1,b\n", "1.5,1.0\n", ",\n", "1;2\n"]


@lemma(props=["C15"], types=dict(log=LOG, bad=Str, at=Int), symbolic=False,
       gen=dict(log=gen_log, bad=lambda g: g.rng.choice(BAD), at=lambda g: g.rng.randint(0, len(g.args["log"]))))
def malformed_lines_rejected(log, bad, at):
    lines = ["{},{}\n".format(u, s) for u, s in log]
    lines.insert(at, bad)
    expect_raises(RuntimeError, lambda: PublisherData.read_publisher_data(io.StringIO("".join(lines))))
    with Scratch() as d:
        os.mkdir(os.path.join(d, "x"))
        with open(os.path.join(d, "x", "p"), "w") as f:
            f.write("".join(lines))
        with open(os.path.join(d, "x", "q"), "w") as f:
            f.write("1,1.0\n")
        expect_raises(RuntimeError, lambda: DataSet.read_data_set(os.path.join(d, "x")))


def contents(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f)) as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def same_data_set(a, b):
    pa, pb = sorted(a._data, key=lambda p: p.name), b._data
    check("same publishers in name order", [p.name for p in pa] == [p.name for p in pb])
    for p, q in zip(pa, pb):
        check("same events", p._data == q._data)
        check("same totals", (p.max_spend, p.max_reach, p.max_impressions) == (q.max_spend, q.max_reach, q.max_impressions))
    check("same overall reach", a.maximum_reach == b.maximum_reach and a.publisher_count == b.publisher_count)


@lemma(props=["C15"], types=dict(logs=Int, seed=Int, subdir=Bool), symbolic=False, gen=dict(logs=gen_logs, seed=lambda g: g.rng.randrange(1000), subdir=lambda g: g.rng.random() < 0.3))
def data_set_round_trip(logs, seed, subdir):
    d = DataSet([PublisherData(list(l), n) for n, l in logs], "set one")
    with Scratch() as tmp:
        top = os.path.join(tmp, "a", "b")
        d.write_data_set(top, "other") if subdir else d.write_data_set(top)
        where = os.path.join(top, "other" if subdir else "set one")
        check("one file per publisher", sorted(os.listdir(where)) == sorted(n for n, _ in logs))
        if seed % 3 == 0:
            os.mkdir(os.path.join(where, "a directory"))
        before = contents(tmp)
        e = DataSet.read_data_set(where)
        same_data_set(d, e)
        check("named after its directory", e.name == os.path.basename(where))
        check("reading changes no file", contents(tmp) == before)
        order = sorted(range(len(logs)), key=lambda i: logs[i][0])
        for spends in ([p.max_spend / 2 for p in d._data], [p.max_spend for p in d._data], [0.0 for p in d._data]):
            x, y = d.reach_by_spend(spends, 4), e.reach_by_spend([spends[i] for i in order], 4)
            check("same reach for every query", [x.reach(k) for k in range(1, 5)] == [y.reach(k) for k in range(1, 5)]
                  and [x.impressions[i] for i in order] == list(y.impressions))
        e.write_data_set(os.path.join(tmp, "elsewhere"), "copy")
        check("original untouched by writing a copy", all(contents(tmp)[k] == v for k, v in before.items()))
        same_data_set(e, DataSet.read_data_set(os.path.join(tmp, "elsewhere", "copy")))


@lemma(props=["C15"], types=dict(sets=Int), symbolic=False, gen=dict(sets=lambda g: [(n, gen_logs(g)) for n in g.rng.sample(["d1", "d10", "d2", "a=1,b=(x)", "Z", "z"], g.rng.randint(1, 4))]))
def design_lists_its_data_sets(sets):
    with Scratch() as tmp:
        path = os.path.join(tmp, "design")
        dd = DataDesign(path)
        check("empty at first", dd.count == 0 and list(dd.names) == [])
        made = {}
        for i, (n, logs) in enumerate(sets):
            made[n] = DataSet([PublisherData(list(l), m) for m, l in logs], n)
            dd.add(made[n])
            check("lists exactly the data sets added, sorted", list(dd.names) == sorted(made) and dd.count == len(made))
        with open(os.path.join(path, "a file"), "w") as f:
            f.write("not a data set")
        before = contents(path)
        for n in made:
            expect_raises(ValueError, lambda: dd.add(DataSet([PublisherData([(1, 1.0)], "other")], n)))
        check("a refused data set changes nothing", contents(path) == before and list(dd.names) == sorted(made))
        again = DataDesign(path)
        check("finds exactly those on disk", list(again.names) == sorted(made) and again.count == len(made))
        for n, d in made.items():
            e = again.by_name(n)
            check("under its name", e.name == n)
            same_data_set(d, e)
        expect_raises(ValueError, lambda: again.add(DataSet([PublisherData([(1, 1.0)], "other")], sets[0][0])))
        check("reading a design changes nothing", contents(path) == before)


@lemma(props=["C15"], types=dict(a=Str, b=Str, text=Str), symbolic=False,
       gen=dict(a=lambda g: g.rng.choice(["a", "x.y", "a b", "c=1,d=(e)"]), b=lambda g: g.rng.choice(["f", "g.csv", "*"]), text=lambda g: g.rng.choice(["", "1,2\n", "\u00e9\n", "a\n\nb"])))
def local_filesystem(a, b, text):
    fs = FilesystemPathlibWrapper()
    with Scratch() as tmp:
        d = fs.joinpath(tmp, a, "deep")
        check("path parts", d == os.path.join(tmp, a, "deep") and fs.name(d) == "deep" and fs.parent(d) == os.path.join(tmp, a))
        check("nothing there", not fs.exists(d) and not fs.is_dir(d) and not fs.is_file(d))
        expect_raises(FileNotFoundError, lambda: fs.mkdir(d))
        fs.mkdir(d, parents=True)
        fs.mkdir(d, parents=True, exist_ok=True)
        expect_raises(FileExistsError, lambda: fs.mkdir(d, parents=True))
        check("a directory", fs.exists(d) and fs.is_dir(d) and not fs.is_file(d))
        f = fs.joinpath(d, b)
        fs.write_text(f, text)
        check("a file", fs.exists(f) and fs.is_file(f) and not fs.is_dir(f))
        with fs.open(f) as h:
            check("reads what was written", h.read() == text)
        with fs.open(f, "w") as h:
            h.write(text + "more")
        with fs.open(f) as h:
            check("replaced when opened for writing", h.read() == text + "more")
        fs.write_text(fs.joinpath(d, "zz"), "")
        check("lists the directory", sorted(fs.glob(d, "*")) == sorted([f, fs.joinpath(d, "zz")]))
        fs.unlink(f)
        check("removed, and only that", not fs.exists(f) and list(fs.glob(d, "*")) == [fs.joinpath(d, "zz")])
        fs.unlink(f, missing_ok=True)
        expect_raises(FileNotFoundError, lambda: fs.unlink(f))
