"""C25: a download that fails is reported, damages nothing and is tried again; one that succeeds is complete."""
import hashlib

import requests

from props.common import Cfg
from props.netlib import Fault, Net, Response, tarball

ASSUMPTIONS = ["one or two attempts, each of which succeeds or fails in one of these ways: the connection fails, the server reports an error "
               "(400 to 599), the connection breaks after any of up to 6 pieces, the archive is cut off at any ninth of its length or is not an archive, or it wants to write "
               "outside of its directory; archives of 1-4 files; with and without length and empty pieces"]


def _members(n, version, name):
    d = {name: version}
    for i in range(n):
        # contents that compression does not shorten
        d["data%d.txt" % i] = b"".join(hashlib.sha256(b"%d %d" % (i, j)).digest() for j in range(20 * i + 40))
    return d


def _attempt(env, p, members, faults):
    """One answer of the network; whether the download can succeed."""
    kind = env.choice(p + "fault", faults)
    ball = tarball(members)
    length, empties = env.bool(p + "length"), 1 if env.bool(p + "empties") else 0
    if kind == "none":
        n = env.int(p + "n", 1, 6)
        return kind, Response(ball, nchunks=int(n), length=length, empties=empties)
    if kind == "refused":
        return kind, Fault("no route")
    if kind == "timeout":
        return kind, requests.exceptions.Timeout("slow")
    if kind == "status":
        s = env.int(p + "status", 400, 599)
        return kind, Response(b"<html>error</html>", status=s, length=length)
    if kind == "broken":
        b = env.int(p + "at", 0, 6)
        return kind, Response(ball, nchunks=6, broken=int(b), length=length, empties=empties)
    if kind == "cut":
        # the archive ends too early, as that of a connection without length that was closed
        at = env.int(p + "cut", 1, 8)
        return kind, Response(ball[:len(ball) * int(at) // 9], nchunks=2, length=length, empties=empties)
    if kind == "garbage":
        return kind, Response(b"this is no archive" * 20, length=length)
    if kind == "empty":
        return kind, Response(b"", length=length)
    raise ValueError(kind)


FAULTS = ["refused", "timeout", "status", "broken", "cut", "garbage", "empty"]


def _state(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file() and not p.name.endswith(".tgz")}


def attempts(env, what, first, second, nfiles):
    utils = env.mod("utils")
    if what == "rsr":
        d, vname, version = env.rsr_dir, "PYSPECTRAL_RSR_VERSION", utils.RSR_DATA_VERSION
        mod = env.mod("rsr_reader")
        run = mod.check_and_download
    else:
        d, vname, version = env.ray_dir / "desert_aerosol", "PYSPECTRAL_ATM_CORR_LUT_DA", "v1.0.1"
        d.mkdir()
        mod = env.mod("rayleigh")
        run = lambda: mod.check_and_download(aerosol_types=["desert_aerosol"])   # noqa: E731
    env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": True})
    (d / vname).write_text("v0.0.1\n")
    (d / "old.txt").write_text("old data")
    (d / "data0.txt").write_text("old content")
    members = _members(nfiles, version, vname)
    old = _state(d)
    seq = [first, second] if second else [first]
    done = False
    for k, faults in enumerate(seq):
        kind, answer = _attempt(env, "a%d." % k, members, faults)
        net = Net(lambda url: answer)
        failed = None
        with net.online():
            try:
                run()
            except Exception as e:
                failed = e
        if done:
            env.assert_equal("what is complete is not fetched again", net.calls, [])
            env.assert_true("no failure", failed is None, repr(failed))
            continue
        env.assert_equal("one request", len(net.calls), 1)
        if kind == "none":
            env.assert_true("no failure", failed is None, repr(failed))
            want = dict(old)
            want.update({n: (c if isinstance(c, bytes) else c.encode()) for n, c in members.items()})
            env.assert_equal("everything of the archive is there", _state(d), want)
            env.assert_true("the archive is removed", not list(d.rglob("*.tgz")))
            done = True
        else:
            env.assert_true("the failure is reported", failed is not None, kind)
            env.assert_equal("the old data are as they were", _state(d), old)


def blocked(env, what):
    """A file of the archive that cannot be written: reported, and nothing else is touched."""
    utils = env.mod("utils")
    if what == "rsr":
        d, vname, version = env.rsr_dir, "PYSPECTRAL_RSR_VERSION", utils.RSR_DATA_VERSION
        run = utils.download_rsr
    else:
        d, vname, version = env.ray_dir / "desert_aerosol", "PYSPECTRAL_ATM_CORR_LUT_DA", "v1.0.1"
        d.mkdir()
        run = lambda: utils.download_luts(aerosol_types=["desert_aerosol"])   # noqa: E731
    env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": True})
    k = int(env.int("blocked", 0, 2))
    (d / ("data%d.txt" % k) / "sub").mkdir(parents=True)
    (d / ("data%d.txt" % k) / "sub" / "mine.txt").write_text("mine")
    (d / "old.txt").write_text("old data")
    net = Net(lambda url: Response(tarball(_members(3, version, vname)), nchunks=2, length=env.bool("length")))
    failed = None
    with net.online():
        try:
            run()
        except Exception as e:
            failed = e
    env.assert_true("the failure is reported", failed is not None)
    env.assert_equal("other files are as they were", ((d / "old.txt").read_text(),
                                                      (d / ("data%d.txt" % k) / "sub" / "mine.txt").read_text()), ("old data", "mine"))


def outside(env):
    """An archive cannot write outside of the directory."""
    import io
    import sys
    import tarfile
    utils = env.mod("utils")
    if sys.version_info < (3, 12):
        return
    target = env.scratch / "victim" / "file.txt"
    target.parent.mkdir()
    target.write_text("mine")
    name = env.choice("name", ["../victim/file.txt", "sub/../../victim/file.txt", "link/file.txt"])
    buf = io.BytesIO()
    with tarfile.open(mode="w:gz", fileobj=buf) as tar:
        if name.startswith("link"):
            info = tarfile.TarInfo("link")
            info.type = tarfile.SYMTYPE
            info.linkname = "../victim" if env.bool("relative") else str(target.parent)
            tar.addfile(info)
        data = b"theirs"
        info = tarfile.TarInfo(name)
        info.size = len(data)
        tar.addfile(info, io.BytesIO(data))
    env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": True})
    net = Net(lambda url: Response(buf.getvalue()))
    with net.online():
        try:
            utils.download_rsr()
            failed = False
        except Exception:
            failed = True
    env.assert_equal("files outside of the directory are as they were", target.read_text(), "mine")
    env.assert_true("the failure is reported", failed)


def reader(env):
    """A failed download while a reader is made is reported, and tried again by the next."""
    import numpy as np
    utils, mod = env.mod("utils"), env.mod("rsr_reader")
    det = {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": env.real("cw", 0.5, 0.7)}
    env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": det}}, uptodate=False)
    env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": True})
    members = _members(1, utils.RSR_DATA_VERSION, "PYSPECTRAL_RSR_VERSION")
    nfail = int(env.int("nfail", 0, 2))
    for k in range(nfail):
        _, answer = _attempt(env, "a%d." % k, members, ["refused", "status"])
        net = Net(lambda url: answer)
        with net.online():
            env.assert_true("the failure is reported", env.raises(requests.exceptions.RequestException,
                                                                  mod.RelativeSpectralResponse, "Imaginary-1", "someinst"))
        env.assert_equal("one request", len(net.calls), 1)
    net = Net(lambda url: Response(tarball(members)))
    with net.online():
        r = mod.RelativeSpectralResponse("Imaginary-1", "someinst")
    env.assert_equal("one request", len(net.calls), 1)
    env.assert_close("the responses are read", [r.rsr["ch1"]["det-1"]["central_wavelength"]], [det["central_wavelength"]])


def configs(tier):
    out = []
    for what in ("rsr", "luts"):
        out.append(Cfg("ok-%s" % what, attempts, dict(what=what, first=["none"], second=["none"], nfiles=3),
                       must_reach=["everything of the archive is there"], bounds="2 attempts"))
        out.append(Cfg("fail-%s" % what, attempts, dict(what=what, first=FAULTS, second=None, nfiles=2),
                       must_reach=["the failure is reported"], bounds="1 attempt"))
        out.append(Cfg("retry-%s" % what, attempts, dict(what=what, first=["status", "broken", "cut", "garbage"], second=["none"], nfiles=1),
                       must_reach=["everything of the archive is there"], bounds="2 attempts", budget=120))
    for what in ("rsr", "luts"):
        out.append(Cfg("blocked-%s" % what, blocked, dict(what=what), must_reach=["the failure is reported"]))
    out.append(Cfg("outside", outside, must_reach=["files outside of the directory are as they were"]))
    out.append(Cfg("reader", reader, must_reach=["the responses are read"]))
    if tier == "thorough":
        for what in ("rsr", "luts"):
            out.append(Cfg("sequence-%s" % what, attempts, dict(what=what, first=FAULTS + ["none"], second=FAULTS + ["none"], nfiles=4),
                           must_reach=["the failure is reported"], bounds="2 attempts", budget=1800))
    return out
