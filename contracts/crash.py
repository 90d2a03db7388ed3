"""Crashes while a trial is evaluated and its result saved (C21).

The crash points are those of the file system interface the trial is given: every operation that
changes the file system may stop the process before it, after it, or (writes) after any prefix of
the data. The process is stopped by an exception that is not an Exception, as a kill would, so no
handler of the code under test sees it.
"""
from pyvc_dsl import *
import os
import pandas as pd
from experiments import DesignOf, KnownStrategy, a_data_set, build, check_row, gen_descriptor, nan_equal
from persistence import Scratch
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper


class Killed(BaseException):
    pass


class CrashingFile(object):
    def __init__(self, fs, f):
        self.fs, self.f = fs, f

    def write(self, data):
        self.fs.writing(data, self.f.write, self.f.flush)
        return len(data)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


class CrashingFilesystem(FilesystemPathlibWrapper):
    """the real file system wrapper, in a process that is killed at the chosen operation"""

    def __init__(self, at, part, gone=False):
        super().__init__()
        self.at, self.part, self.gone, self.count = at, part, gone, 0

    def tick(self):
        """gone: killed outright, nothing after the crash point takes effect; otherwise interrupted, handlers still run"""
        if self.gone and 0 <= self.at < self.count:
            raise Killed()
        self.count += 1

    def step(self, op):
        self.tick()
        if self.count - 1 != self.at:
            return op()
        if self.part >= 0.5:
            op()
        raise Killed()

    def writing(self, data, write, flush=lambda: None):
        self.tick()
        if self.count - 1 != self.at:
            return write(data)
        if self.part <= 1:
            write(data[:int(self.part * len(data))])
            flush()
        raise Killed()

    def write_text(self, path, data, *a, **kw):
        return self.writing(data, lambda d: FilesystemPathlibWrapper.write_text(self, path, d, *a, **kw))

    def mkdir(self, path, *a, **kw):
        return self.step(lambda: FilesystemPathlibWrapper.mkdir(self, path, *a, **kw))

    def unlink(self, path, *a, **kw):
        return self.step(lambda: FilesystemPathlibWrapper.unlink(self, path, *a, **kw))

    def open(self, path, mode="r", *a, **kw):
        if set(mode) & set("wax+"):
            return CrashingFile(self, self.step(lambda: FilesystemPathlibWrapper.open(self, path, mode, *a, **kw)))
        return FilesystemPathlibWrapper.open(self, path, mode, *a, **kw)


def gen_part(g):
    r = g.rng
    return r.choice([0.0, r.random(), r.random(), 1 - 0.03 * r.random(), 1.0, 1.5])


@lemma(props=["C21"], types=dict(d=Int, kind=Str, seed=Int, crashes=Int), symbolic=False,
       gen=dict(d=gen_descriptor, kind=lambda g: g.rng.choice(["", "", "", "single_pub"]), seed=lambda g: g.rng.randrange(1000),
                crashes=lambda g: [(g.rng.choice([0, 1, 2, 3, 3, 3, 4, 5]), gen_part(g), g.rng.random() < 0.5) for _ in range(g.rng.choice([1, 1, 2, 3]))]))
def crashes_before_a_result_is_stored(d, kind, seed, crashes):
    import warnings
    warnings.simplefilter("ignore")
    pubs = 1 if kind else 2
    data = a_data_set("s", pubs, seed)
    t = build(dict(d, spends=[0.5, 1.0][:pubs]))

    def trial(where):
        return ExperimentalTrial(os.path.join(where, "exp", "inter"), DesignOf([data]), "s", t, analysis_type=kind)
    with Scratch() as clean:
        want = trial(clean).evaluate(seed)
    check_row(want, "s", data, t)
    with Scratch() as tmp:
        for at, part, gone in crashes:
            try:
                got = trial(tmp).evaluate(seed, CrashingFilesystem(at, part, gone))
            except Killed:
                continue
            check("an evaluation between the crashes returns the complete result", nan_equal(got, want))
        check("the evaluation after the last crash returns the complete result", nan_equal(trial(tmp).evaluate(seed, CrashingFilesystem(-1, 0)), want))
        KnownStrategy.fits = 0
        check("and it is stored", nan_equal(trial(tmp).evaluate(seed), want) and KnownStrategy.fits == 0)


@lemma(props=["C21"], types=dict(d=Int, seed=Int), symbolic=False, gen=dict(d=gen_descriptor, seed=lambda g: g.rng.randrange(1000)))
def every_crash_point_of_one_evaluation(d, seed):
    """all operations in turn, killed before, after and (writes) within the last number"""
    import warnings
    warnings.simplefilter("ignore")
    data = a_data_set("s", 1, seed)
    t = build(dict(d, spends=[0.5]))
    with Scratch() as clean:
        fs = CrashingFilesystem(-1, 0)
        want = ExperimentalTrial(os.path.join(clean, "exp", "inter"), DesignOf([data]), "s", t).evaluate(seed, fs)
        n = fs.count
    check("the result is stored", n > 0)
    for at in range(n):
        for part, gone in ((0.0, True), (0.5, False), (0.5, True), (0.995, True), (1.0, False), (1.0, True)):
            with Scratch() as tmp:
                x = ExperimentalTrial(os.path.join(tmp, "exp", "inter"), DesignOf([data]), "s", t)
                killed = False
                try:
                    x.evaluate(seed, CrashingFilesystem(at, part, gone))
                except Killed:
                    killed = True
                check("the operations are the same in every run", killed)
                check("a later evaluation returns the complete result", nan_equal(x.evaluate(seed), want))


# ------------------------------------------------------------------ proof: every state of the files, every crash point, any number of crashes
class GhostFs(object):
    """state[path] is at most 0 (no such file), 1 (a write of it was cut) or more (whole); the process is killed at tick number ticks"""

    def __init__(self, state, ticks):
        self.state, self.ticks = state, ticks
        self.first = ""
        self.last = ""
        self.read_cut = False
        self.read_whole = False
        self.stored = False

    def tick(self):
        if self.ticks == 0:
            raise Killed()
        self.ticks = self.ticks - 1

    def set_default_client_to_gs_client(self):
        pass

    def parent(self, path):
        return os.path.dirname(path)

    def name(self, path):
        return os.path.basename(path)

    def is_file(self, path):
        return self.state.get(path, 0) > 0

    def exists(self, path):
        return self.state.get(path, 0) > 0

    def mkdir(self, path, parents=False, exist_ok=False):
        self.tick()

    def open(self, path, mode="r"):
        if self.state.get(path, 0) == 1:
            self.read_cut = True
        if self.state.get(path, 0) > 1:
            self.read_whole = True
        return unknown()

    def write_text(self, path, data):
        self.tick()
        self.state[path] = 1
        self.tick()
        self.state[path] = 2
        if self.first == "":
            self.first = path
        self.last = path
        self.stored = True

    def unlink(self, path, missing_ok=False):
        self.tick()
        self.state[path] = 0


class Described(object):
    def __init__(self, text):
        self.text = text
        self.experiment_params = unknown()
        self.modeling_strategy = unknown()
        self.system_params = unknown()

    def __str__(self):
        return self.text


FILES = Dict(Str, Int)


def clean_run(trial, seed):
    """an undisturbed evaluation: the first file it writes is its marker, the last its result; whether that is stored"""
    fs = GhostFs({}, -1)
    trial.evaluate(seed, fs)
    return fs.first, fs.last, fs.stored and fs.state.get(fs.last, 0) == 2


@lemma(props=["C21"], types=dict(where=Str, name=Str, text=Str, kind=Str, seed=Int), concrete=False,
       frame=["driver.experimental_trial"])
def an_evaluation_stores_its_result(where, name, text, kind, seed):
    trial = ExperimentalTrial(where, unknown(), name, Described(text), kind)
    mark, result, stored = merged(lambda: clean_run(trial, seed))
    check("marker and result are different files", result != mark)
    check("the result is stored", stored)


@lemma(props=["C21"], types=dict(where=Str, name=Str, text=Str, kind=Str, seed=Int, files=FILES, ticks=Int), concrete=False,
       frame=["driver.experimental_trial"])
def cut_results_stay_marked_and_unused(where, name, text, kind, seed, files, ticks):
    """From any state of the files in which a result whose writing was cut is marked, an evaluation killed at any point (or not at
    all) leads to such a state again; so any number of crashes does. What it returns was stored by this very evaluation, or was
    read from a file whose writing was completed."""
    trial = ExperimentalTrial(where, unknown(), name, Described(text), kind)
    mark, result, stored = merged(lambda: clean_run(trial, seed))
    check("marker and result are different files", result != mark)
    assume(files.get(result, 0) != 1 or files.get(mark, 0) > 0)
    fs = GhostFs(files, ticks)
    returned = False
    try:
        trial.evaluate(seed, fs)
        returned = True
    except Killed:
        pass
    check("a result whose writing was cut is marked as pending", fs.state.get(result, 0) != 1 or fs.state.get(mark, 0) > 0)
    check("what is returned was computed and stored now, or was stored completely before",
          not returned or (fs.stored and fs.state.get(result, 0) == 2) or (fs.read_whole and not fs.read_cut))
