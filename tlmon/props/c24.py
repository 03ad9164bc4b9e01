"""C24: the reported version identifies the code."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import sut
from ..core import Family, HarnessError

RULE = ("Scratch git repositories with random histories (commits, side branches and merges, lightweight and annotated version tags, hyphenated and local-version tags, tags "
        "which are not versions, HEAD moved back) holding a copy of the tree's _version.py, in every working-tree state (clean, touched, untracked files, edited, "
        "staged, deleted, mode), real git archives of them, hand-written archive keywords, no repository, no commits, no git program; the version is asked in a new "
        "process from several working directories, through symbolic links and with the variables git sets for hooks of another repository, and compared with one computed from the generated history. Always non-trivial.")
CHILDREN = True  # cases wait for other processes
DECIDING = ["checkout version", "dirty", "archive version", "unknown", "package version"]
ASSUMPTIONS = ["tags starting with v are version tags", "branches whose names look like version tags are not generated"]
RECORD = False

PATH_IN_REPO = "src/openscm_twolayermodel"
ASK = ("import importlib.util, json, sys\n"
       "s = importlib.util.spec_from_file_location('v', sys.argv[1])\n"
       "m = importlib.util.module_from_spec(s)\n"
       "s.loader.exec_module(m)\n"
       "print(json.dumps(m.get_versions()))\n")


class Scratch:
    """A directory of its own with a git environment of its own."""

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="tlmon-c24-"))
        os.mkdir(os.path.join(self.dir, "home"))
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.path.join(self.dir, "home"), "GIT_CONFIG_NOSYSTEM": "1",
                    "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CEILING_DIRECTORIES": self.dir, "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b",
                    "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b", "LC_ALL": "C", "PYTHONDONTWRITEBYTECODE": "1"}
        self.clock = 1500000000
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def git(self, *a, cwd=None):
        self.clock += 60
        env = dict(self.env, GIT_AUTHOR_DATE="%d +0000" % self.clock, GIT_COMMITTER_DATE="%d +0000" % self.clock)
        p = subprocess.run(["git"] + list(a), cwd=cwd or self.repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise HarnessError("git {}: {}".format(a, p.stderr.decode()[-400:]))
        return p.stdout.decode().strip()

    def ask(self, root, cwd=None, git=True, code=ASK, extra=()):
        env = dict(self.env)
        env.update(extra)
        if not git:
            empty = os.path.join(self.dir, "empty")
            os.makedirs(empty, exist_ok=True)
            env["PATH"] = empty
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, os.path.join(root, PATH_IN_REPO, "_version.py")], cwd=cwd or self.dir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stdout.decode(), p.stderr.decode()


def lay_out(root):
    os.makedirs(os.path.join(root, PATH_IN_REPO))
    shutil.copy(os.path.join(sut.PKG, "_version.py"), os.path.join(root, PATH_IN_REPO, "_version.py"))
    with open(os.path.join(root, ".gitattributes"), "w") as f:
        f.write(PATH_IN_REPO + "/_version.py export-subst\n")
    with open(os.path.join(root, "file.txt"), "w") as f:
        f.write("one\n")


VERSION_TAGS = ["v1.2.3", "v0.1.0a1", "v1.0.0-beta.1", "v2.0.0-rc-1", "v10.0", "v0.2.1", "v1.0-3-g1234567", "v2.0+local", "v3.0.0.dev1", "v1", "v2020.1.1",
                "v0.0.1-dirty-fix", "v1.2.3+build.5"]
OTHER_TAGS = ["1.2.4", "release-9", "old/v3", "stable", "doc-v1", "Version7", "x1.0"]
BRANCHES = ["develop", "fix-it", "release-2", "Issue12", "feature/new"]


def g(rng):
    ops = [{"op": "commit"}]
    tags = rng.sample(VERSION_TAGS, len(VERSION_TAGS))
    others = rng.sample(OTHER_TAGS, len(OTHER_TAGS))
    names = rng.sample(BRANCHES, len(BRANCHES))
    p_tag = rng.choice((0, 0.25, 0.25, 0.6))
    for _ in range(rng.choice((0, 1, 2, 4, 8, 12, 25))):
        x = rng.random()
        if x < p_tag and tags:
            ops.append({"op": "tag", "name": tags.pop(), "annotated": rng.random() < 0.5})
        elif x < p_tag + 0.12 and others:
            ops.append({"op": "other", "name": others.pop(), "annotated": rng.random() < 0.5})
        elif x < p_tag + 0.24 and names:
            ops.append({"op": "merge", "name": names.pop(), "n": rng.randint(1, 3),
                        "tag": tags.pop() if tags and rng.random() < 0.3 else None})
        elif x < p_tag + 0.32 and names:
            ops.append({"op": "branch", "name": names.pop()})
        elif x < p_tag + 0.38:
            ops.append({"op": "many", "n": rng.choice((9, 10, 50, 99, 100, 128, 255, 300, 1000, 1024))})
        else:
            ops.append({"op": "commit"})
    return {"ops": ops, "back": rng.choice((0, 0, 0, 1, 2)), "state": rng.choice(("clean", "clean", "touched", "untracked", "ignored", "edited", "staged", "deleted", "mode",
                                                                               "edited_version", "new_staged", "edited_back")),
            "cwd": rng.choice(("outside", "root", "src", "other_repo")), "link": rng.choice((None, None, "root", "src")),
            "kind": rng.choice(("plain", "plain", "worktree", "clone")), "around": rng.choice(AROUND)}


def build_history(sc, case, mon):
    """Runs the ops; returns (commit graph, HEAD, tags)."""
    sc.repo = os.path.join(sc.dir, "work")
    os.mkdir(sc.repo)
    sc.git("init", "-q", "-b", "main")
    lay_out(sc.repo)
    parents, tags, others = {}, {}, {}
    count = [0]

    def commit(msg=None):
        count[0] += 1
        with open(os.path.join(sc.repo, "log%d.txt" % count[0]), "w") as f:
            f.write("%d\n" % count[0])
        sc.git("add", "-A")
        old = sc.git("rev-parse", "HEAD") if parents else None
        sc.git("commit", "-q", "-m", msg or "commit %d" % count[0])
        new = sc.git("rev-parse", "HEAD")
        parents[new] = [old] if old else []
        return new

    def tag(name, annotated, store):
        head = sc.git("rev-parse", "HEAD")
        if store is tags and head in tags:
            return  # (one version per commit)
        sc.git("tag", *(["-a", "-m", "release", name] if annotated else [name]))
        store.setdefault(head, name)
        mon.event("tags")

    head = None
    main = []
    for op in case["ops"]:
        k = op["op"]
        if k == "commit":
            head = commit()
            main.append(head)
        elif k == "tag":
            tag(op["name"], op["annotated"], tags)
        elif k == "other":
            tag(op["name"], op["annotated"], others)
        elif k == "branch":
            sc.git("branch", op["name"])
        elif k == "many":
            stream = "".join("commit refs/heads/main\ncommitter a <a@b> %d +0000\ndata 1\nx\n%s\n" % (
                sc.clock + j + 1, "from refs/heads/main^0\n" if j == 0 else "") for j in range(op["n"]))
            sc.clock += op["n"]
            p = subprocess.run(["git", "fast-import", "--quiet", "--force"], cwd=sc.repo, env=sc.env, input=stream.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise HarnessError("fast-import: " + p.stdout.decode()[-400:])
            for line in sc.git("rev-list", "--reverse", "--parents", "%s..main" % head).split("\n"):
                new, old = line.split()
                parents[new] = [old]
                main.append(new)
            head = main[-1]
        else:
            sc.git("checkout", "-q", "-b", op["name"])
            for i in range(op["n"]):
                commit()
                if op["tag"] and i == 0:
                    tag(op["tag"], True, tags)
            side = sc.git("rev-parse", "HEAD")
            sc.git("checkout", "-q", "main")
            sc.git("merge", "-q", "--no-ff", "-m", "merge", op["name"])
            new = sc.git("rev-parse", "HEAD")
            parents[new] = [head, side]
            head = new
            main.append(head)
            mon.event("merges")
    back = min(case["back"], len(main) - 1)
    if back:
        head = main[-1 - back]
        sc.git("checkout", "-q", head)
        mon.event("HEAD moved back")
    mon.event("commits", len(parents))
    return parents, head, tags


def ancestors(parents, c):
    seen, stack = set(), [c]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack += parents[x]
    return seen


def nearest(parents, head, tags):
    """(tag or None, commits since) or None when ambiguous."""
    anc = ancestors(parents, head)
    dist = sorted((len(anc - ancestors(parents, c)), n) for c, n in tags.items() if c in anc)
    if not dist:
        return None, len(anc)
    if len(dist) > 1 and dist[0][0] == dist[1][0]:
        return None
    return dist[0][1], dist[0][0]


def set_state(sc, state):
    """Working tree state; returns whether tracked files differ."""
    f = os.path.join(sc.repo, "file.txt")
    if state == "clean":
        return False
    if state == "touched":
        os.utime(f, (1600000000, 1600000000))
        return False
    if state == "edited_back":
        with open(f, "w") as h:
            h.write("two\n")
        sc.git("status")
        with open(f, "w") as h:
            h.write("one\n")
        return False
    if state in ("untracked", "ignored"):
        if state == "ignored":
            path = os.path.join(sc.repo, sc.git("rev-parse", "--git-path", "info/exclude"))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "a") as h:
                h.write("new.txt\n")
        with open(os.path.join(sc.repo, "new.txt"), "w") as h:
            h.write("x\n")
        return False
    if state == "edited_version":
        with open(os.path.join(sc.repo, PATH_IN_REPO, "_version.py"), "a") as h:
            h.write("\n# local change\n")
        return True
    if state == "new_staged":
        with open(os.path.join(sc.repo, "new.txt"), "w") as h:
            h.write("x\n")
        sc.git("add", "new.txt")
        return True
    if state == "deleted":
        os.remove(f)
        return True
    if state == "mode":
        os.chmod(f, 0o755)
        return True
    with open(f, "w") as h:
        h.write("two\n")
    if state == "staged":
        sc.git("add", "file.txt")
    return True


def parse(mon, clause, rc, out, err):
    try:
        v = json.loads(out) if rc == 0 else None
    except ValueError:
        v = None
    mon.require(clause, isinstance(v, dict) and "version" in v, "get_versions() failed: {} {} {}".format(rc, out[-300:], err[-600:]))
    mon.event("versions asked")
    return v


def version_of(tag, n, head, dirty):
    """Regular expression of the expected version."""
    short = "g(?P<sha>[0-9a-f]{4,40})"
    if tag is None:
        base = re.escape("0+untagged.%d." % n) + short
    elif n == 0 and not dirty:
        return re.escape(tag[1:]) + "(?P<sha>)"
    else:
        base = re.escape(tag[1:] + ("." if "+" in tag else "+") + "%d." % n) + short
    return base + (re.escape(".dirty") if dirty else "")


def judge(mon, clause, version, near, head, dirty, ctx):
    mo = re.match("^" + version_of(near[0], near[1], head, dirty) + "$", version)
    mon.ok(clause, mo is not None and head.startswith(mo.group("sha")),
           "{}: version {!r}, but nearest tag {}, {} commits since, commit {}, dirty {}".format(ctx, version, near[0], near[1], head[:10], dirty))
    mon.ok("dirty", version.endswith(".dirty") == dirty, "{}: version {!r}, dirty {}".format(ctx, version, dirty))


def other_repo(sc):
    """A different tagged repository the process may stand in."""
    d = os.path.join(sc.dir, "elsewhere")
    if os.path.isdir(d):
        return d
    os.mkdir(d)
    sc.git("init", "-q", cwd=d)
    sc.git("commit", "-q", "--allow-empty", "-m", "x", cwd=d)
    sc.git("tag", "v99.9", cwd=d)
    return d


def surroundings(sc, kind):
    """Variables git leaves behind for what it starts (hooks, rebase --exec, bisect run) in another repository."""
    if kind == "none":
        return {}
    d = other_repo(sc)
    git_dir = os.path.join(d, ".git")
    return {"dir": {"GIT_DIR": git_dir}, "dir_tree": {"GIT_DIR": git_dir, "GIT_WORK_TREE": d}, "index": {"GIT_INDEX_FILE": os.path.join(git_dir, "no-index")},
            "hook": {"GIT_DIR": git_dir, "GIT_INDEX_FILE": os.path.join(git_dir, "index"), "GIT_PREFIX": ""}, "common": {"GIT_DIR": git_dir, "GIT_COMMON_DIR": git_dir},
            "objects": {"GIT_OBJECT_DIRECTORY": os.path.join(git_dir, "objects")},
            "harmless": {"GIT_PAGER": "cat", "GIT_EDITOR": "true", "GIT_PREFIX": "src/", "GIT_TERMINAL_PROMPT": "0", "GIT_REFLOG_ACTION": "x"}}[kind]


def r(case, mon):
    with Scratch() as sc:
        parents, head, tags = build_history(sc, case, mon)
        near = nearest(parents, head, tags)
        if near is None:
            mon.trivial("two tags equally near")
            return
        mon.tag("kind", case["kind"])
        if case["kind"] == "worktree":
            sc.git("worktree", "add", "-q", "--detach", os.path.join(sc.dir, "tree"), head)
            sc.repo = os.path.join(sc.dir, "tree")
        elif case["kind"] == "clone":
            sc.git("clone", "-q", sc.repo, os.path.join(sc.dir, "copy"), cwd=sc.dir)
            sc.repo = os.path.join(sc.dir, "copy")
            if sc.git("rev-parse", "HEAD") != head:
                raise HarnessError("clone at another commit")
        dirty = set_state(sc, case["state"])
        mon.tag("state", case["state"])
        mon.tag("nearest tag", "none" if near[0] is None else "here" if near[1] == 0 else "before")
        mon.tag("tag", near[0])
        root = sc.repo
        if case["link"] == "root":
            root = os.path.join(sc.dir, "link")
            os.symlink(sc.repo, root)
        elif case["link"] == "src":
            root = os.path.join(sc.dir, "linked")
            os.mkdir(root)
            os.symlink(os.path.join(sc.repo, "src"), os.path.join(root, "src"))
        mon.tag("link", case["link"])
        cwd = {"outside": sc.dir, "root": sc.repo, "src": os.path.join(sc.repo, "src")}.get(case["cwd"]) or other_repo(sc)
        mon.tag("cwd", case["cwd"])
        mon.tag("git environment", case["around"])
        v = parse(mon, "checkout version", *sc.ask(root, cwd, extra=surroundings(sc, case["around"])))
        ctx = "{} {}".format([o.get("name") or o["op"] for o in case["ops"]], case["state"])
        judge(mon, "checkout version", v["version"], near, head, dirty, ctx)
        mon.ok("dirty", bool(v.get("dirty")) == dirty, "{}: dirty flag {}".format(ctx, v.get("dirty")))
        mon.ok("checkout version", v.get("full-revisionid") == head, "{}: commit id {} instead of {}".format(ctx, v.get("full-revisionid"), head))


def r_archive(case, mon):
    """git archive of HEAD (and of every tag), unpacked elsewhere."""
    with Scratch() as sc:
        parents, head, tags = build_history(sc, case, mon)
        refs = [(head, "HEAD")] + [(c, n) for c, n in sorted(tags.items())]
        for c, ref in refs[:4]:
            out = tempfile.mkdtemp(prefix="unpacked", dir=sc.dir)
            tar = os.path.join(sc.dir, "a.tar")
            sc.git("archive", "--format=tar", "-o", tar, "--prefix=proj/", ref)
            subprocess.run(["tar", "-xf", tar, "-C", out], check=True, env=sc.env)
            root = os.path.join(out, "proj")
            if case["cwd"] == "other_repo":  # unpacked inside a repository
                sc.git("init", "-q", cwd=root)
                sc.git("add", "-A", cwd=root)
                sc.git("commit", "-q", "-m", "vendored", cwd=root)
                sc.git("tag", "v77.0", cwd=root)
            mon.tag("archive of", "tagged" if c in tags else "untagged")
            v = parse(mon, "archive version", *sc.ask(root, git=case["cwd"] != "src"))
            if c in tags:
                mon.ok("archive version", v["version"] == tags[c][1:], "archive of {}: version {!r}".format(tags[c], v["version"]))
            else:
                mon.ok("unknown", "unknown" in v["version"], "archive of an untagged commit: version {!r}".format(v["version"]))
            mon.ok("archive version", v.get("full-revisionid") == c, "archive of {}: commit id {}".format(c, v.get("full-revisionid")))


KEYWORDS = [
    (" (tag: v1.2.3)", "1.2.3"), (" (HEAD -> main, tag: v1.2.3, origin/main)", "1.2.3"), ("(tag: v0.2.0)", "0.2.0"), (" (HEAD, tag: v1.0-rc-1)", "1.0-rc-1"),
    (" (tag: docs-2, tag: v2.1.0)", "2.1.0"), (" (HEAD -> release-2, tag: v2.1.0, tag: stable)", "2.1.0"), (" (HEAD -> main)", None), ("", None),
    (" (HEAD -> release-3, origin/Issue7)", None), (" (tag: 1.2.3)", None), (" (HEAD, tag: docs-2)", None), (" (origin/develop, develop)", None),
    (" (tag: release-4, origin/HEAD)", None), (" (HEAD -> main, tag: v2.0+local)", "2.0+local"), (" (grafted, HEAD, tag: v5.1)", "5.1"), ("  (  tag: v1.1  )  ", "1.1"),
    (" (tag: stable-1, HEAD -> x)", None), (" (HEAD -> release/v1.4, tag: other)", None), (" (HEAD -> release/v1.4)", None), (" (origin/v3)", None),
    (" (HEAD -> main, tag: v0.0.0)", "0.0.0"), (" (tag: v12.10.3, origin/v13, origin/main)", "12.10.3"),
]


AROUND = ("none", "none", "none", "dir", "dir_tree", "index", "hook", "common", "objects", "harmless")


def g_key(rng):
    k = rng.choice(("keywords", "keywords", "keywords", "no_repo", "no_git", "no_commits", "parent_dir"))
    return {"kind": k, "around": rng.choice(AROUND), "keywords": rng.choice(KEYWORDS), "sha": "".join(rng.choice("0123456789abcdef") for _ in range(40)), "parent": rng.choice(("1.2.3", "0.2.0a1", "10.1")),
            "date": rng.choice(("2020-10-09 12:13:14 +0200", "2021-01-01 00:00:00 +0000"))}


def r_key(case, mon):
    k = case["kind"]
    mon.tag("kind", k)
    with Scratch() as sc:
        root = os.path.join(sc.dir, "proj" if k != "parent_dir" else "openscm_twolayermodel-" + case["parent"])
        os.mkdir(root)
        sc.repo = root
        lay_out(root)
        if k == "keywords":
            path = os.path.join(root, PATH_IN_REPO, "_version.py")
            with open(path) as f:
                text = f.read()
            refs, tag = case["keywords"]
            text = text.replace("$Format:%d$", refs).replace("$Format:%H$", case["sha"]).replace("$Format:%ci$", case["date"])
            with open(path, "w") as f:
                f.write(text)
            mon.tag("keywords", refs)
            v = parse(mon, "archive version", *sc.ask(root))
            if tag is None:
                mon.ok("unknown", "unknown" in v["version"], "keywords {!r}: version {!r}".format(refs, v["version"]))
            else:
                mon.ok("archive version", v["version"] == tag, "keywords {!r}: version {!r}".format(refs, v["version"]))
            mon.ok("archive version", v.get("full-revisionid") == case["sha"] and not v.get("dirty"), "keywords {!r}: {}".format(refs, v))
            return
        if k == "no_git":
            sc.git("init", "-q")
            sc.git("add", "-A")
            sc.git("commit", "-q", "-m", "x")
            sc.git("tag", "v1.2.3")
        elif k == "no_commits":
            sc.git("init", "-q")
        v = parse(mon, "unknown", *sc.ask(root, git=k != "no_git", extra=surroundings(sc, case["around"])))
        if k == "parent_dir":
            mon.ok("parent directory", v["version"] == case["parent"], "directory {}: version {!r}".format(os.path.basename(root), v["version"]))
        else:
            mon.ok("unknown", "unknown" in v["version"], "{}: version {!r}".format(k, v["version"]))


PACKAGE = "import sys; sys.path.insert(0, sys.argv[1].rsplit('/', 2)[0]); import openscm_twolayermodel as p; print(p.__version__); print(p.__file__)\n"


def r_package(case, mon):
    """__version__ of the whole package in a scratch checkout."""
    with Scratch() as sc:
        parents, head, tags = build_history(sc, case, mon)
        for f in sorted(os.listdir(sut.PKG)):
            if f.endswith(".py") and f != "_version.py":
                shutil.copy(os.path.join(sut.PKG, f), os.path.join(sc.repo, PATH_IN_REPO, f))
        near = nearest(parents, head, tags)
        if near is None:
            mon.trivial("two tags equally near")
            return
        dirty = set_state(sc, case["state"])
        rc, out, err = sc.ask(sc.repo, code=PACKAGE)
        lines = out.strip().split("\n")
        mon.require("package version", rc == 0 and len(lines) == 2, "import failed: {}".format(err[-600:]))
        if not os.path.realpath(lines[1]).startswith(sc.repo + os.sep):
            raise HarnessError("imported {}".format(lines[1]))
        judge(mon, "package version", lines[0], near, head, dirty, "__version__")


FAMILIES = [
    Family("checkout", g, r, 130, 1600),
    Family("archive", g, r_archive, 50, 500),
    Family("keywords", g_key, r_key, 90, 600),
    Family("package", g, r_package, 8, 60),
]
