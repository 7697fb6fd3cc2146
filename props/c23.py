"""C23: the configuration is the one of the file that was named."""
import os
from pathlib import Path

from props.common import Cfg

ASSUMPTIONS = ["dictionaries of up to 2 keys per level and 3 levels with arbitrary values; configuration files with every combination of "
               "the directory settings, named by argument, by environment variable or not at all; home directories in a scratch folder"]


def _tree(env, name, keys, depth, top=True):
    """A nested dictionary of symbolic structure: each key is absent, a value or a dictionary."""
    d = {}
    for k in keys:
        kinds = ["absent", "value"] + (["dict"] if depth > 1 else [])
        kind = env.choice("%s.%s" % (name, k), kinds)
        if kind == "value":
            d[k] = env.real("%s.%s.v" % (name, k), 0.0, 1.0)
        elif kind == "dict":
            d[k] = _tree(env, "%s.%s" % (name, k), keys[:1] if depth == 2 else keys, depth - 1, False)
    return d


def _merge(d, u):
    out = {}
    for k in list(d) + [k for k in u if k not in d]:
        if k in u and isinstance(u[k], dict):
            out[k] = _merge(d[k] if k in d else {}, u[k])
        else:
            out[k] = u[k] if k in u else d[k]
    return out


def _same(env, label, got, want):
    env.assert_true(label, isinstance(got, dict) == isinstance(want, dict))
    if isinstance(want, dict):
        env.assert_equal(label, sorted(got), sorted(want))
        for k in want:
            _same(env, label, got[k], want[k])
    else:
        env.assert_close(label, [got], [want])


def _clash(d, u):
    return any(isinstance(v, dict) and k in d and (not isinstance(d[k], dict) or _clash(d[k], v)) for k, v in u.items())


def merge(env, depth, keys):
    """Settings of the second dictionary go before those of the first, level by level."""
    a = _tree(env, "a", keys, depth)
    b = _tree(env, "b", keys, depth)
    if _clash(a, b):            # a value cannot be merged with a dictionary
        return
    want = _merge(a, b)
    got = env.mod("config").recursive_dict_update(a, b)
    _same(env, "merged", got, want)
    _same(env, "the first dictionary is updated", a, want)


def which(env):
    """The file: the argument, else the environment variable, else the one that comes with the package."""
    import yaml
    config = env.mod("config")
    old = {k: os.environ.get(k) for k in ("PSP_CONFIG_FILE", "HOME", "XDG_DATA_HOME")}
    try:
        os.environ["HOME"] = str(env.scratch / "home")
        os.environ["XDG_DATA_HOME"] = str(env.scratch / "xdg")
        files = {}
        for n in ("arg", "env"):
            files[n] = env.scratch / (n + ".yaml")
            files[n].write_text(yaml.safe_dump({"rsr_dir": str(env.scratch / n), "rayleigh_dir": str(env.scratch / n),
                                                "mark": n, "nested": {"x": n, "y": {"z": 1}}, "lst": [1, 2]}))
        use_arg, use_env = env.bool("arg"), env.choice("env", ["unset", "file", "missing", "directory", "empty"])
        os.environ.pop("PSP_CONFIG_FILE", None)
        if use_env == "file":
            os.environ["PSP_CONFIG_FILE"] = str(files["env"])
        elif use_env == "missing":
            os.environ["PSP_CONFIG_FILE"] = str(env.scratch / "nosuch.yaml")
        elif use_env == "directory":
            os.environ["PSP_CONFIG_FILE"] = str(env.scratch)
        elif use_env == "empty":
            os.environ["PSP_CONFIG_FILE"] = ""
        if use_arg:
            a = files["arg"] if env.bool("path") else str(files["arg"])
            c = config.get_config(a)
            env.assert_equal("the file that was given", c.get("mark"), "arg")
        elif use_env == "unset":
            c = config.get_config()
            env.assert_true("the file of the package", "mark" not in c and "download_from_internet" in c)
            return
        elif use_env == "file":
            c = config.get_config()
            env.assert_equal("the file of the environment variable", c.get("mark"), "env")
        else:
            env.assert_true("a file that is not there is refused", env.raises(IOError, config.get_config))
            return
        m = "arg" if use_arg else "env"
        env.assert_equal("every setting", (c["nested"], c["lst"], c["rsr_dir"]), ({"x": m, "y": {"z": 1}}, [1, 2], str(env.scratch / m)))
        # the next call sees what the file says then
        was = os.stat(files[m])
        c["mark"] = c["nested"]["x"] = "changed by the user"
        files[m].write_text(yaml.safe_dump({"rsr_dir": str(env.scratch / "later"), "mark": "later"}))
        if env.bool("sametime"):        # within the resolution of the clock of the file system
            os.utime(files[m], ns=(was.st_atime_ns, was.st_mtime_ns))
        c = config.get_config(str(files[m]) if use_arg else None)
        env.assert_equal("the file is read again", (c.get("mark"), c["rsr_dir"]), ("later", str(env.scratch / "later")))
        env.assert_true("nothing is left of an earlier file", "nested" not in c and "lst" not in c)
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def directories(env):
    """The directories of the data: from the file with the home directory expanded, or the data directory of the user; they exist."""
    import yaml
    config = env.mod("config")
    old = {k: os.environ.get(k) for k in ("HOME", "XDG_DATA_HOME")}
    try:
        os.environ["HOME"] = str(env.scratch / "home")
        os.environ["XDG_DATA_HOME"] = str(env.scratch / "xdg")
        default = str(env.scratch / "xdg" / "pyspectral")
        conf, want = {"download_from_internet": env.bool("download")}, {}
        for k in ("rsr_dir", "rayleigh_dir"):
            kind = env.choice(k, ["absent", "absolute", "home", "existing"])
            if kind == "absent":
                want[k] = default
            elif kind == "absolute":
                conf[k] = want[k] = str(env.scratch / "new" / k)
            elif kind == "home":
                conf[k] = "~/" + k
                want[k] = str(env.scratch / "home" / k)
            else:
                (env.scratch / "old").mkdir(exist_ok=True)
                (env.scratch / "old" / "keep").write_text("kept")
                conf[k] = want[k] = str(env.scratch / "old")
        fn = env.scratch / "dirs.yaml"
        fn.write_text(yaml.safe_dump(conf))
        c = config.get_config(fn)
        for k in want:
            env.assert_equal("directory", c[k], want[k])
            env.assert_true("directories are created", Path(want[k]).is_dir())
        env.assert_equal("download setting", c["download_from_internet"], conf["download_from_internet"])
        if (env.scratch / "old").exists():
            env.assert_equal("existing directories are left as they are", (env.scratch / "old" / "keep").read_text(), "kept")
        env.assert_equal("the same again", config.get_config(fn), c)
        others = sorted(p.name for p in env.scratch.iterdir() if p.name not in ("rsr", "ray", "lut", "home", "tmp", "xdg", "new", "old"))
        env.assert_equal("nothing else is created", others, ["dirs.yaml", "pyspectral.yaml"])
        used = {str(env.scratch / "xdg" / "pyspectral")} & set(want.values())
        env.assert_true("the default directory only when needed", bool(used) == (env.scratch / "xdg").exists())
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def configs(tier):
    out = [Cfg("merge-2", merge, dict(depth=2, keys=["a", "b"]), must_reach=["merged"], bounds="2 levels of 2 keys", budget=120),
           Cfg("merge-3", merge, dict(depth=3, keys=["k"]), must_reach=["merged"], bounds="3 levels of 1 key", budget=120),
           Cfg("which", which, must_reach=["the file that was given", "the file of the environment variable", "the file of the package",
                                           "a file that is not there is refused"]),
           Cfg("directories", directories, must_reach=["directory"])]
    if tier == "thorough":
        out.append(Cfg("merge-33", merge, dict(depth=3, keys=["a", "b"]), must_reach=["merged"], bounds="3 levels of 2 keys", budget=1800))
    return out
