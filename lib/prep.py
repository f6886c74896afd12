"""Mechanical extraction of /repo's current sources into a scratch tree.

Nothing is rewritten: src/, include/ and maint/ are copied, and the typed/sized sources are made
with the repository's own perl generators, invoked exactly as autogen.sh invokes them (the
commands are read out of autogen.sh; only its source formatting step is left out).
oshmpiconf.h is the configured header (committed copy of the default configuration), optionally
altered by -D/-U requests for another configuration.
"""
import os, re, shutil, subprocess, sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN_ERR = re.compile(r"command not found|syntax error|aborted due", re.I)


def sh(cmd, cwd, timeout=120):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def insert_file_by_key(root, key, f, orig):
    out = []
    body = open(os.path.join(root, f)).read()
    for line in open(os.path.join(root, orig)):
        out.append(line)
        if key in line:
            out.append(body)
            if not body.endswith("\n"):
                out.append("\n")
    open(os.path.join(root, orig), "w").write("".join(out))


def prepare(dst):
    """copy + generate into dst; returns dst"""
    os.makedirs(dst, exist_ok=True)
    ign = shutil.ignore_patterns("*.o", "*.lo", ".libs", ".deps", "openpa", "*~")
    for d in ("src", "include", "maint"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=ign)
    shutil.copy(os.path.join(REPO, "autogen.sh"), dst)
    # drop what the build generated: only what is made here from the .tpl files may be used
    for d in ("src/shmem", "include"):
        for f in os.listdir(os.path.join(dst, d)):
            if os.path.exists(os.path.join(dst, d, f + ".tpl")):
                os.remove(os.path.join(dst, d, f))
    shutil.copy(os.path.join(dst, "include/shmem.h.in.tpl"), os.path.join(dst, "include/shmem.h.in"))
    text = open(os.path.join(dst, "autogen.sh")).read().replace("\\\n", " ")
    n = 0
    for line in text.splitlines():
        line = line.strip()
        if re.match(r"\./maint/build_(typed|sized)_api\.pl ", line):
            r = sh("perl " + line, dst)
            if r.returncode != 0 or GEN_ERR.search(r.stdout):
                raise RuntimeError("generation failed: " + line + "\n" + r.stdout)
            n += 1
        else:
            m = re.match(r'insert_file_by_key "([^"]+)" (\S+) (\S+)$', line)
            if m:
                insert_file_by_key(dst, *m.groups())
    if n < 10:
        raise RuntimeError("autogen.sh: only %d generator commands found" % n)
    # configure's substitutions in the public headers
    s = open(os.path.join(dst, "include/shmem.h.in")).read()
    for k, v in (("OSHMPI_VERSION", "2.1a1"), ("OSHMPI_NUMVERSION", "20100101"),
                 ("OSHMPI_RELEASE_DATE", "unreleased"), ("CONFIGURE_ARGS_CLEAN", "")):
        s = s.replace("@%s@" % k, v)
    open(os.path.join(dst, "include/shmem.h"), "w").write(s)
    s = open(os.path.join(dst, "include/shmemx.h.in")).read()
    open(os.path.join(dst, "include/shmemx.h"), "w").write(s)
    return dst


def conf(dst, name, define=(), undef=()):
    """write an oshmpiconf.h for a configuration; returns its include directory"""
    d = os.path.join(dst, "conf_" + name)
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(VERIF, "model/oshmpiconf.h")).read()
    for u in undef:
        s = re.sub(r"(?m)^#define %s\b.*$" % re.escape(u), "/* #undef %s */" % u, s)
    for x in define:
        k = x.split("=")[0]
        v = x.split("=", 1)[1] if "=" in x else "1"
        s = re.sub(r"(?m)^(#define %s\b.*|/\* #undef %s \*/)$" % (re.escape(k), re.escape(k)), "", s)
        s += "\n#define %s %s\n" % (k, v)
    open(os.path.join(d, "oshmpiconf.h"), "w").write(s)
    return d


if __name__ == "__main__":
    prepare(sys.argv[1])
    print(conf(sys.argv[1], "default"))
